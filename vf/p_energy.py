"""C25: energy and inner products (spec/Energy.tla)."""
from registry import prop
from gen import *
from p_dwt import rng_for, rsig, is_single, NAMES, WTOL, measured
import mc

ORTHO = [n for n in NAMES if pywt.Wavelet(n).orthogonal]
FNS = ["wavedec", "wavedec2", "wavedecn", "fswavedecn", "pack1", "pack2", "packn", "swt", "swt2", "swtn", "dwt", "dwt2", "dwtn", "flat"]


def lattice(rots):
    """the bank of spec/Energy.tla"""
    a, b = rots[0]
    l, h = np.array([a, b]), np.array([b, -a])
    z = np.zeros(2, int)
    for a, b in rots[1:]:
        l, h = np.concatenate([l, z]), np.concatenate([z, h])
        l, h = a * l - b * h, b * l + a * h
    return l, h


def parts(c):
    """arrays of one level's details, whatever holds them"""
    if isinstance(c, dict):
        return [c[k] for k in sorted(c)]
    return list(c) if isinstance(c, (tuple, list)) else [c]


def leaves_of(fn, x, w, L, axes, seed, start=0, norm=True):
    """[(level, array)]: the coefficients that together make up the transform"""
    r = np.random.default_rng(seed)
    m = ["periodization", "per"][r.integers(2)]
    ax = [a - x.ndim if r.integers(2) else a for a in axes]
    if fn in ("dwt", "dwt2", "dwtn"):
        if fn == "dwt":
            a, d = pywt.dwt(x, w, m, axis=ax[0])
            return [(1, a), (1, d)]
        if fn == "dwt2":
            a, d = pywt.dwt2(x, w, m, axes=tuple(ax))
            return [(1, a)] + [(1, q) for q in d]
        return [(1, q) for q in parts(pywt.dwtn(x, w, m, axes=tuple(ax)))]
    if fn in ("wavedec", "wavedec2", "wavedecn"):
        c = pywt.wavedec(x, w, m, L, ax[0]) if fn == "wavedec" else pywt.wavedec2(x, w, m, L, tuple(ax)) if fn == "wavedec2" else pywt.wavedecn(x, w, m, L, tuple(ax))
        return [(L, c[0])] + [(L - i, q) for i, d in enumerate(c[1:]) for q in parts(d)]
    if fn == "flat":
        c = pywt.wavedecn(x, w, m, L, tuple(ax))
        return [(L, pywt.coeffs_to_array(c, axes=tuple(ax))[0] if r.integers(2) else pywt.ravel_coeffs(c, axes=tuple(ax))[0])]
    if fn == "fswavedecn":
        return [(L, pywt.fswavedecn(x, w, m, L, tuple(ax)).coeffs)]
    if fn in ("swt", "swt2", "swtn"):
        kw = dict(level=L, start_level=start, trim_approx=True, norm=norm)
        if fn == "swt" and x.ndim == 1 and L == 1 and r.integers(2):
            kw["level"] = 1
        c = pywt.swt(x, w, axis=ax[0], **kw) if fn == "swt" else pywt.swt2(x, w, axes=tuple(ax), **kw) if fn == "swt2" else pywt.swtn(x, w, axes=tuple(ax), **kw)
        return [(L, c[0])] + [(L - i, q) for i, d in enumerate(c[1:]) for q in parts(d)]
    # packets: leaves split in some order
    t = pywt.WaveletPacket(x, w, m, L, ax[0]) if fn == "pack1" else (pywt.WaveletPacket2D if fn == "pack2" else pywt.WaveletPacketND)(x, w, m, L, tuple(ax))
    ps = ["a", "d"] if fn == "pack1" else ["a", "h", "v", "d"] if fn == "pack2" else ["".join(k) for k in itertools.product("ad", repeat=len(ax))]
    open_, n = [""], int(r.integers(1, 6))
    pl = len(ps[0])
    for _ in range(n):
        go = [p for p in open_ if len(p) // pl < L]
        if not go:
            break
        p = go[r.integers(len(go))]
        open_.remove(p)
        open_ += [p + c for c in ps]
    for p in (r.permutation(open_).tolist() if r.integers(2) else open_):
        t[p]
    if r.integers(2):
        got = t.get_leaf_nodes()
        if sorted(q.path for q in got) == sorted(open_):
            return [(q.level, q.data) for q in got]
    return [(len(p) // pl, t[p].data) for p in open_]


def setting(r, fn, small):
    """rank, axes, level and a shape whose transformed axes stay even at every level"""
    two, nd = fn.endswith("2"), fn.endswith("n") or fn == "flat"
    rank = int(r.integers(2, 4)) if two else int(r.integers(1, 4))
    k = 2 if two else int(r.integers(1, rank + 1)) if nd else 1
    axes = [int(v) for v in r.permutation(rank)[:k]]
    L = 1 if fn.startswith("dwt") else int(r.integers(1, {1: 4 if small else 6, 2: 3, 3: 2}[k] + 1))
    if fn == "flat" or fn == "fswavedecn":
        L = min(L, 2)
    st = int(r.integers(0, 2)) if fn.startswith("swt") and r.random() < .3 else 0
    shape = [int(r.integers(1, 3 if small else 4)) for _ in range(rank)]
    for a in axes:
        top = {1: 40, 2: 12, 3: 6}[k] if small else {1: 300, 2: 40, 3: 12}[k]
        u = 2 ** (L + st)
        shape[a] = u * int(r.integers(1, max(2, top // u)))
    return axes, L, st, tuple(shape)


@prop("C25")
def c25(chk):
    mc.energy_model(chk)
    rng = rng_for(chk)
    # 1. integer orthogonal banks, exactly
    T = [(1, 1), (1, -1), (2, -1), (1, 3), (1, 2), (-1, 1), (3, 1)]

    def exact(seed):
        r = np.random.default_rng(seed)
        fn = FNS[r.integers(len(FNS))]
        axes, L, st, shape = setting(r, fn, True)
        if fn in ("fswavedecn", "flat"):
            L = 1               # different levels along different axes otherwise
        rots = [T[r.integers(len(T))] for _ in range(int(r.integers(1, 4)))]
        while len(rots) > 1 and np.prod([float(a * a + b * b) * (2 if fn.startswith("swt") else 1) for a, b in rots]) ** (L * len(axes)) * np.prod(shape) * 4 > 2 ** 30:
            rots.pop()
        g = np.prod([float(a * a + b * b) for a, b in rots]) * (2 if fn.startswith("swt") else 1)
        if g ** (L * len(axes)) * np.prod(shape) * 4 > 2 ** 30:
            rots = [(1, 1)]
            g = 4 if fn.startswith("swt") else 2
            if g ** (L * len(axes)) * np.prod(shape) * 4 > 2 ** 30:
                return []
        l, h = lattice(rots)
        w = pywt.Wavelet("rotations", [l, h, l[::-1], h[::-1]])
        x, y = (r.integers(-2, 3, shape) for _ in range(2))
        lx, ly = (leaves_of(fn, v.astype([float, np.float32, int][r.integers(3)]), w, L, axes, seed, st, norm=False) for v in (x, y))
        if st:
            g = g
        lv = []
        for (a, u), (b, v) in zip(lx, ly):
            if a != b or not np.all(u == np.rint(u)) or not np.all(v == np.rint(v)):
                raise ValueError("coefficients are not integers")
            lv.append([int(a), [int(q) for q in u.ravel()], [int(q) for q in v.ravel()]])
        return [dict(kind="swt" if fn.startswith("swt") else "dwt", fn=fn, rots=[list(q) for q in rots], bank=dict(dl=[int(q) for q in w.dec_lo], dh=[int(q) for q in w.dec_hi]),
                     naxes=len(axes), leaves=lv, xs=[x.ravel().tolist(), y.ravel().tolist()])]
    measured(chk, exact, [int(v) for v in rng.integers(0, 2 ** 40, pick(1200, 12000))], "integer orthogonal banks", module="EnergyTrace")
    # 2. built-in wavelets
    items = [(n, fn, int(rng.integers(2 ** 40))) for n in ORTHO for fn in FNS for _ in range(pick(1, 6))]

    def real(it):
        n, fn, seed = it
        r = np.random.default_rng(seed)
        axes, L, st, shape = setting(r, fn, False)
        w = pywt.Wavelet(n)
        dt = [np.float64, np.float32, np.complex128, np.complex64][r.integers(4)]
        x, y = rsig(r, shape, dt), rsig(r, shape, dt)
        warg = n if r.integers(2) else w
        lx, ly = (leaves_of(fn, v, warg, L, axes, seed, st) for v in (x, y))
        up = np.clongdouble if x.dtype.kind == "c" else np.longdouble
        X, Y = x.astype(up), y.astype(up)
        exx, exy = np.vdot(X, X), np.vdot(X, Y)
        cxx = sum(np.vdot(u.astype(up), u.astype(up)) for _, u in lx)
        cxy = sum(np.vdot(u.astype(up), v.astype(up)) for (_, u), (_, v) in zip(lx, ly))
        k = len(axes)
        # relative to the norms: every level and axis rounds each coefficient by (F + 4) eps of what it sums,
        # which for a unit-norm filter is at most sqrt(F) times the signal's norm
        eps = 2.0 ** -23 if is_single(dt) else 2.0 ** -52
        F = w.dec_len
        rel = L * k * (eps * (F + 4) * np.sqrt(F) + 4 * WTOL.get(n, 0)) + 1e-300
        sc = float(np.sqrt(exx.real * np.vdot(Y, Y).real)) + 1e-300
        e1, e2 = abs(cxx - exx) / (float(exx.real) + 1e-300) / rel, abs(cxy - exy) / sc / rel
        err = max(float(e1), float(e2))
        size = sum(u.size for _, u in lx)
        out = [dict(op="same", fn=fn, w=n, M=[size if not fn.startswith("swt") else 0], N=[int(np.prod(shape)) if not fn.startswith("swt") else 0],
                    err=10 ** 6 if not np.isfinite(err) else int(min(10 ** 6, np.ceil(err * 100))))]
        if fn in ("wavedec", "wavedec2", "wavedecn", "pack1"):
            # any coefficients: the way back is isometric as well
            a = [rsig(r, u.shape, dt) for _, u in lx]
            if fn == "pack1":
                return out
            it_ = iter(a)
            ax = tuple(axes)
            c = pywt.wavedec(x, w, "periodization", L, axes[0]) if fn == "wavedec" else pywt.wavedec2(x, w, "periodization", L, ax) if fn == "wavedec2" else pywt.wavedecn(x, w, "periodization", L, ax)
            c = [next(it_)] + [{q: next(it_) for q in sorted(d)} if isinstance(d, dict) else tuple(next(it_) for _ in d) if isinstance(d, tuple) else next(it_) for d in c[1:]]
            z = pywt.waverec(c, w, "periodization", axes[0]) if fn == "wavedec" else pywt.waverec2(c, w, "periodization", ax) if fn == "wavedec2" else pywt.waverecn(c, w, "periodization", ax)
            ea = sum(np.vdot(u.astype(up), u.astype(up)).real for u in a)
            ez = np.vdot(z.astype(up), z.astype(up)).real
            err = float(abs(ea - ez) / (ea + 1e-300) / rel)
            out.append(dict(op="same", fn=fn + "-inverse", w=n, M=list(z.shape), N=list(shape), err=10 ** 6 if not np.isfinite(err) else int(min(10 ** 6, np.ceil(err * 100)))))
        return out
    measured(chk, real, items, "built-in orthogonal wavelets")
