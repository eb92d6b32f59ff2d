"""C09-C11: stationary transforms and multiresolution analysis."""
from registry import prop
from gen import *
from p_dwt import rng_for, NAMES, DTS, rsig, is_single, measured, judge_real, WTOL
from p_multi import take, give, flat, amp, shapes_nd
import optable as OT
import mc


def wmaker(c):
    """the case's wavelet(s), orthogonal flag set so that norm=True does not warn"""
    return wav(c)


def swt_call(c, x):
    kind = c["kind"]
    kw = {}
    if c["level"] >= 0:
        kw["level"] = c["level"]
    elif kind == "swt" and c.get("lnone"):
        kw["level"] = None
    if c["start"] or c.get("explicit"):
        kw["start_level"] = c["start"]
    if c["trim"] or c.get("explicit"):
        kw["trim_approx"] = c["trim"]
    if c.get("norm") or c.get("explicit"):
        kw["norm"] = bool(c.get("norm"))
    if kind == "swt":
        r = pywt.swt(x, W1(c), **kw, **kw_axis(c))
        if c["trim"]:
            return [r[0]] + [dict(d=d) for d in r[1:]]
        return [dict(a=a, d=d) for a, d in r]
    if kind == "swt2":
        r = pywt.swt2(x, wav(c), **kw, **kw_axes(c))
        if c["trim"]:
            return take(r, "swt2")
        return [dict(aa=a, da=h, ad=v, dd=d) for a, (h, v, d) in r]
    return pywt.swtn(x, wav(c), **kw, **kw_axes(c))


def iswt_call(c, cs):
    kind = c["kind"]
    kw = dict(norm=bool(c.get("norm"))) if c.get("norm") or c.get("explicit") else {}
    if kind == "swt":
        l = [cs[0]] + [D["d"] for D in cs[1:]] if c["trim"] else [(D["a"], D["d"]) if not c.get("tup") else [D["a"], D["d"]] for D in cs]
        return pywt.iswt(tuple(l) if c.get("outer") else l, W1(c), **kw, **kw_axis(c))
    if kind == "swt2":
        det = lambda D: (D["da"], D["ad"], D["dd"])
        l = [cs[0]] + [det(D) for D in cs[1:]] if c["trim"] else [(D["aa"], det(D)) for D in cs]
        ax = kw_axes(c)
        if ax and not c.get("axlist"):
            ax = dict(axes=tuple(ax["axes"]))
        return pywt.iswt2(l, wav(c), **kw, **ax)
    return pywt.iswtn(cs, wav(c), **kw, **kw_axes(c))


@op("swt")
def _(c, i):
    return dict(c=swt_call(c, i["x"]))


@op("iswt")
def _(c, i):
    cs = i["c"]
    if c.get("norm"):
        n = len(c["axes"])
        L = len(cs) - (1 if c["trim"] else 0)
        f = lambda l: 2.0 ** (-l * n / 2)
        if c["trim"]:
            cs = [cs[0] * f(L)] + [{k: v * f(L - j) for k, v in D.items()} for j, D in enumerate(cs[1:])]
        else:
            cs = [{k: v * f(L - j) for k, v in D.items()} for j, D in enumerate(cs)]
    return dict(y=iswt_call(c, cs))


@op("swtmax")
def _(c, i):
    return dict(n=pywt.swt_max_level(c["n"]))


def mra_call(c, x):
    kind = c["kind"]
    kw = {}
    if c["level"] >= 0:
        kw["level"] = c["level"]
    sw = c["specop"] == "mraswt"
    if not sw:
        kw["mode"] = M1(c) if kind == "1" else mod(c)
    elif c.get("explicit"):
        kw["mode"] = "periodization"
    tr = {"1": "swt", "2": "swt2", "n": "swtn"}[kind] if sw else {"1": "dwt", "2": "dwt2", "n": "dwtn"}[kind]
    if not sw or c.get("explicit"):
        kw["transform"] = tr
    if kind == "1":
        p = pywt.mra(x, W1(c), **kw, **kw_axis(c))
        before = [a.copy() for a in p]
        t = pywt.imra(p)
        same = all(np.array_equal(a, b) for a, b in zip(p, before))
        nf = [p[0]] + [dict(d=d) for d in p[1:]]
    elif kind == "2":
        p = pywt.mra2(x, wav(c), **kw, **kw_axes(c))
        before = [p[0].copy()] + [tuple(a.copy() for a in q) for q in p[1:]]
        t = pywt.imra2(p)
        same = np.array_equal(p[0], before[0]) and all(np.array_equal(a, b) for q, z in zip(p[1:], before[1:]) for a, b in zip(q, z))
        nf = take(p, "swt2")
    else:
        p = pywt.mran(x, wav(c), **kw, **kw_axes(c))
        before = [p[0].copy()] + [{k: a.copy() for k, a in q.items()} for q in p[1:]]
        t = pywt.imran(p)
        same = np.array_equal(p[0], before[0]) and all(np.array_equal(q[k], z[k]) for q, z in zip(p[1:], before[1:]) for k in z)
        nf = p
    if not same:
        raise NotInt("summing changed the components")
    return dict(parts=nf, total=t)


@op("mra")
def _(c, i):
    return mra_call(c, i["x"])


# ------------------------------------------------------------------ generators
def even_shape(rng, rank, naxes, L, total=400):
    axes = [int(v) for v in rng.permutation(rank)[:naxes]]
    while True:
        s = [int(rng.integers(1, 4 if rank > 2 else 6)) for _ in range(rank)]
        for a in axes:
            s[a] = 2 ** L * int(rng.integers(1, {1: 9, 2: 4, 3: 3, 4: 2}[rank]))
        if np.prod(s) <= total:
            return tuple(s), axes
        if rng.random() < .2:
            L = max(1, L - 1)


def longF_kind(rng):
    return [("swt", (2 ** int(rng.integers(1, 5)) * int(rng.integers(1, 4)),), [0]), ("swt", (3, 8), [1]), ("swt2", (4, 6), [1, 0]), ("swtn", (4, 4), [0, 1]), ("swtn", (2, 3, 2), [2, 0])][rng.integers(5)]


def big_kind(rng, inverse=False):
    """many levels, wide arrays, many axes (with thin banks)"""
    kind = ["swt", "swt", "swt2", "swtn"][rng.integers(4)]
    r = rng.random()
    if kind == "swt" and r < .6:
        L = int(rng.integers(5, 11))
        shape, axes = (2 ** L * int(rng.integers(1, 3 if L < 10 else 2)),), [0]
        if L < 8 and rng.random() < .3:
            shape, axes = shape + (2,), [0]
    elif kind == "swt2" and r < .4:
        L = 4 if inverse else 5
        shape, axes = (2 ** L, 2 ** L), [[0, 1], [1, 0]][rng.integers(2)]
    elif kind == "swtn" and r < .3:
        L = int(rng.integers(5, 10))
        shape, axes = (2 ** L,), [0]
    elif r < .7:
        L = int(rng.integers(1, 3))
        shape = [(4, 300), (300, 4), (2, 4, 260), (260, 4)][rng.integers(4)]
        k = {"swt": 1, "swt2": 2}.get(kind) or int(rng.integers(1, 3))
        axes = [a for a in rng.permutation(len(shape)).tolist() if shape[a] % 4 == 0 or shape[a] == 2][:k]
        L = 1 if any(shape[a] % 4 for a in axes) else L
    else:
        rank = int(rng.integers(4, 7))
        k = {"swt": 1, "swt2": 2}.get(kind) or int(rng.integers(1, min(rank, 4 if inverse else 5) + 1))
        axes = [int(a) for a in rng.permutation(rank)[:k]]
        shape = [2 if a in axes else int(rng.integers(1, 3)) for a in range(rank)]
        L = 1
    return kind, tuple(shape), axes, L


def pick_kind(rng):
    kind = ["swt", "swt2", "swtn"][rng.integers(3)]
    if kind == "swt":
        rank, n = (1 if rng.random() < .5 else int(rng.integers(2, 4))), 1
    elif kind == "swt2":
        rank, n = int(rng.choice([2, 2, 3])), 2
    else:
        rank = int(rng.integers(1, 5))
        n = int(rng.integers(1, min(rank, 3) + 1))
    return kind, rank, n


def banks_for(rng, n, kind, lim=2):
    Fs = [2, 4, 6, 8, 10]
    if kind != "swt" and rng.random() < .5:
        return [rand_bank(rng, int(rng.choice(Fs[:3])), lim) for _ in range(n)]
    return [rand_bank(rng, int(rng.choice(Fs if n == 1 else Fs[:3])), lim)] * n


def c_swt(rng, kind=None, norm=None, forced=None):
    if forced:
        kind, shape, axes, bank = forced
        rank, n = len(shape), len(axes)
        banks = [bank] * n if bank else banks_for(rng, n, kind)
        L = min(TwoAdic(shape[a]) for a in axes)
        if L == 0:
            return None
    else:
        kind, rank, n = pick_kind(rng)
        L = int(rng.integers(1, 5 if rank == 1 else 3))
        shape, axes = even_shape(rng, rank, n, L)
        L = min(TwoAdic(shape[a]) for a in axes)
        banks = banks_for(rng, n, kind, 2 if L < 3 else 1)
    default = kind == "swt" and rng.random() < .25
    start = 0 if default else int(rng.integers(0, L)) if rng.random() < .5 else 0
    level = L if default else int(rng.integers(1, L - start + 1)) if rng.random() < .6 else L - start
    norm = bool(rng.random() < .3) if norm is None else norm
    trim = bool(rng.integers(2))
    g = 1.0
    for b in banks:
        g *= b.gain("d") ** level
    lim = 5
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim, dts=["f8", "c16", "i8", "f8"] if norm else ALLDT)
    sc = [2.0 ** (n * l / 2) for l in range(level, 0, -1)]
    c = dict(op="swt", kind=kind, banks=banks, modes=[], axes=axes_sign(rng, axes, rank), level=-1 if default else level, lnone=bool(rng.integers(2)),
             start=start, trim=trim, norm=norm, explicit=bool(rng.integers(2)), var=var, axlist=bool(rng.integers(2)),
             **{"in": dict(x=ints(rng, shape, lim, var["dt"]))})
    if norm:
        c["scale"] = ([sc[0]] if trim else []) + sc
        c["scalekey"] = "c"
    if (kind == "swt" and axes == [rank - 1]) or (kind == "swt2" and axes == [rank - 2, rank - 1]) or (kind == "swtn" and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    same = len(set(map(id, banks))) == 1
    c["wform"] = "auto" if kind == "swt" else ["auto", "one", "list", "single"][rng.integers(4)] if same else ["auto", "tuple", "list"][rng.integers(3)]
    return c


def TwoAdic(n):
    k = 0
    while n and n % 2 == 0:
        n //= 2
        k += 1
    return k


def c_iswt(rng, big=False, bank=None):
    if bank:
        kind, shape, axes = longF_kind(rng)
        rank, n = len(shape), len(axes)
        level = L = min(TwoAdic(shape[a]) for a in axes)
    elif big:
        kind, shape, axes, L = big_kind(rng, True)
        rank, n = len(shape), len(axes)
        level = L
    else:
        kind, rank, n = pick_kind(rng)
        L = int(rng.integers(1, 4 if rank == 1 else 3))
        shape, axes = even_shape(rng, rank, n, L, 250)
        L = min(L, min(TwoAdic(shape[a]) for a in axes))
        level = int(rng.integers(1, L + 1))
    banks = [bank] * n if bank else banks_for(rng, n, kind, 1)
    norm = bool(rng.random() < .3)
    trim = bool(rng.integers(2))
    g = 2.0 ** (level * n)
    for b in banks:
        g *= (2 * b.gain("r")) ** level
    lim = 5
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim, dts=["f8", "c16"] if norm else ["f8", "f4", "c16", "c8", "i8", "i4", "g", "f2"], lays=[l for l in LAYS if l not in ("list",)])
    keys = ["".join(k) for k in itertools.product("ad", repeat=n)]
    A = lambda: ints(rng, shape, lim, var["dt"])
    cs = [A()] if trim else []
    for j in range(level):
        D = {}
        for k in rng.permutation(keys).tolist():
            if k == keys[0] and trim:
                continue
            D[k] = A()
        if kind == "swtn" and rng.random() < .2:      # details left out count as zero
            ds = [k for k in D if k != keys[0]]
            for k in ds[:-1]:
                if rng.random() < .4:
                    del D[k]
        cs.append(D)
    c = dict(op="iswt", kind=kind, banks=banks, modes=[], axes=axes_sign(rng, axes, rank), trim=trim, norm=norm, explicit=bool(rng.integers(2)),
             tup=bool(rng.integers(2)), outer=False, axlist=bool(rng.integers(2)), var=var, scale=2.0 ** (level * n), **{"in": dict(c=cs)})
    if norm:
        c["var"]["lay"] = "C"
    if (kind == "swt" and axes == [rank - 1]) or (kind == "swt2" and axes == [rank - 2, rank - 1]) or (kind == "swtn" and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    same = len(set(map(id, banks))) == 1
    c["wform"] = "auto" if kind == "swt" else ["auto", "one", "list", "single"][rng.integers(4)] if same else ["auto", "tuple", "list"][rng.integers(3)]
    return c


# ------------------------------------------------------------------ built-ins
def swt_builtin(chk, count):
    """every level of the real transform against the operator TLC emitted for (N, F, level)"""
    rng = rng_for(chk, 7)
    items, reqs = [], []
    for n in NAMES:
        F = pywt.Wavelet(n).dec_len
        for _ in range(count):
            L = int(rng.integers(1, 4))
            N = 2 ** L * int(rng.integers(1, 8))
            if rng.random() < .3:
                N = 2 ** L
            items.append((n, N, L, int(rng.integers(4)), bool(rng.integers(2)), int(rng.integers(1 << 30))))
            for l in range(1, L + 1):
                reqs.append(dict(kind="swt", N=N, F=F, s=2 ** (l - 1)))
    OT.load(chk, reqs)

    def one(it):
        n, N, L, dti, norm, seed = it
        r = np.random.default_rng(seed)
        dt = DTS[dti]
        w = pywt.Wavelet(n)
        nd = seed % 3
        x = rsig(r, N if nd == 0 else (3, N), dt)
        cs = pywt.swt(x, n if seed % 2 else w, level=L, norm=norm, axis=-1)
        if nd == 2:
            cs2 = pywt.swtn(x, n, level=L, norm=norm, axes=(1,))
            for a, b in zip(cs, cs2):
                if not (np.array_equal(a[0], b["a"]) and np.array_equal(a[1], b["d"])):
                    return "swt and swtn disagree"
        prev = x
        sc = np.sqrt(0.5) if norm else 1.0
        for l in range(1, L + 1):
            a, d = cs[L - l]
            for lab, got, h in (("a", a, w.dec_lo), ("d", d, w.dec_hi)):
                v, mg = OT.swt(N, np.array(h) * sc, prev, 2 ** (l - 1))
                ok, msg = OT.close(got, v, mg, is_single(dt), w.dec_len)
                if not ok:
                    return f"level {l} {lab}: {msg}"
            prev = a
        return ""
    judge_real(chk, one, items, "built-in filters")


@prop("C09")
def c09(chk):
    mc.swt_model(chk)
    rng = rng_for(chk)
    cs = [c_swt(rng) for _ in range(pick(900, 6000))]
    for F in (2, 4, 6, 8, 10, 12, 16, 20):          # filters longer and shorter than the signal, all axes of 1-D
        for N in (2, 4, 6, 8, 10, 12, 16, 20, 24, 32, 48):
            cs.append(c_swt(rng, forced=("swt", (N,), [0], rand_bank(rng, F, 2 if F < 8 else 1))))
    with thin():
        for _ in range(pick(80, 500)):
            k = big_kind(rng)
            cs.append(c_swt(rng, forced=k[:3] + (None,)))
    for _ in range(pick(16, 100)):       # filters longer than any built-in one
        cs.append(c_swt(rng, forced=longF_kind(rng) + (rand_bank(rng, GIANT_F[rng.integers(len(GIANT_F))], 1),)))
    for N in list(range(1, 70)) + [96, 1000, 1024, 2 ** 20, 3 * 2 ** 18, 2 ** 30]:
        cs.append(dict(op="swtmax", n=N))
    validate(chk, [c for c in cs if c], "integer-exact stationary transforms")
    swt_builtin(chk, pick(3, 12))
    shift_items(chk, rng)


def shift_items(chk, rng):
    items = []
    for n in NAMES if not QUICK else rng.choice(NAMES, 60, replace=False).tolist():
        rank = int(rng.integers(1, 4))
        nax = int(rng.integers(1, min(rank, 2) + 1))
        L = int(rng.integers(1, 3 if rank > 1 else 5))
        shape, axes = even_shape(rng, rank, nax, L, 600)
        items.append((n, shape, axes, min(L, min(TwoAdic(shape[a]) for a in axes)), int(rng.integers(4)), int(rng.integers(1 << 30))))

    def one(it):
        n, shape, axes, L, dti, seed = it
        r = np.random.default_rng(seed)
        dt = DTS[dti]
        x = rsig(r, shape, dt)
        k = [int(r.integers(1, shape[a] + 1)) for a in axes]
        norm, trim = bool(seed & 1), bool(seed & 2)
        f = lambda z: list(flat(pywt.swtn(z, n, L, axes=axes, norm=norm, trim_approx=trim)))
        c1, c2 = f(x), f(np.roll(x, k, axes))
        w = pywt.Wavelet(n)
        A = max(np.abs(w.dec_lo).sum(), np.abs(w.dec_hi).sum()) ** (L * len(axes))
        unit = (2.0 ** -23 if is_single(dt) else 2.0 ** -52) * (w.dec_len + 4) * L * len(axes) * A * float(np.abs(x).max())
        err = max(float(np.abs(np.roll(p, k, axes) - q).max()) for p, q in zip(c1, c2))
        ok = all(p.shape == tuple(shape) == q.shape for p, q in zip(c1, c2)) and len(c1) == len(c2) == (2 ** len(axes) - (1 if trim else 0)) * L + (1 if trim else 0)
        return dict(op="same", N=[1], M=[1 if ok else 0], err=int(min(1e6, np.ceil(err / unit * 100))), idt=str(np.dtype(dt)), odt=str(c1[0].dtype))
    measured(chk, one, items, "shift covariance of real transforms")


@prop("C10")
def c10(chk):
    mc.swt_model(chk)
    rng = rng_for(chk)
    cs = [c_iswt(rng) for _ in range(pick(900, 5000))]
    with thin():
        cs += [c_iswt(rng, big=True) for _ in range(pick(70, 400))]
        cs += [c_iswt(rng, bank=rand_bank(rng, GIANT_F[rng.integers(len(GIANT_F))], 1)) for _ in range(pick(12, 80))]
    cs += mixed(rng, cs)
    validate(chk, [c for c in cs if c], "integer-exact inverse stationary transforms")
    items = []
    for n in NAMES:
        for _ in range(pick(3, 14)):
            kind, rank, nax = pick_kind(rng)
            L = int(rng.integers(1, 5 if rank == 1 else 3))
            shape, axes = even_shape(rng, rank, nax, L, 900)
            L = min(L, min(TwoAdic(shape[a]) for a in axes))
            items.append((n, kind, shape, axes_sign(rng, axes, rank), L, int(rng.integers(4)), int(rng.integers(1 << 30))))

    def one(it):
        n, kind, shape, axes, L, dti, seed = it
        r = np.random.default_rng(seed)
        dt = DTS[dti if L * len(axes) <= 3 else 2 * (dti // 2)]
        x = rsig(r, shape, dt)
        norm, trim = bool(seed & 1), bool(seed & 2)
        ns = [n] + [NAMES[r.integers(len(NAMES))] for _ in axes[1:]] if kind != "swt" else [n]
        ws = [pywt.Wavelet(v) for v in ns]
        c = dict(kind=kind, banks=[], level=L, start=0, trim=trim, norm=norm, axes=axes)
        if kind == "swt":
            q = pywt.swt(x, n, L, axis=axes[0], norm=norm, trim_approx=trim)
            y = pywt.iswt(q, n, norm=norm, axis=axes[0])
        elif kind == "swt2":
            q = pywt.swt2(x, tuple(ws), L, axes=tuple(axes), norm=norm, trim_approx=trim)
            y = pywt.iswt2(q, tuple(ws), norm=norm, axes=tuple(axes))
        else:
            q = pywt.swtn(x, tuple(ws), L, axes=tuple(axes), norm=norm, trim_approx=trim)
            y = pywt.iswtn(q, tuple(ws), axes=tuple(axes), norm=norm)
        A = 1.0
        T = 0.0
        for w, v in zip(ws, ns):
            A *= (amp(w) * max(np.abs(w.dec_lo).sum(), np.abs(w.dec_hi).sum()) / 2 + 1) ** L
            T += L * ((2.0 ** -23 if is_single(dt) else 2.0 ** -52) * (w.dec_len + 4) + 2 * WTOL.get(v, 0))
        unit = T * A * float(np.abs(x).max())
        err = float(np.abs(y - x).max()) if y.shape == x.shape else float("inf")
        u = int(min(1e6, np.ceil(err / unit * 100))) if np.isfinite(err) else 10 ** 6
        return dict(op="same", N=list(shape), M=list(y.shape), err=u, idt=str(np.dtype(dt)), odt=str(y.dtype))
    measured(chk, one, items, "round trips of built-in wavelets")


# ------------------------------------------------------------------ C11
def c_mra(rng, spec, big=False):
    kind = ["1", "2", "n"][rng.integers(3)]
    if kind == "1":
        rank, n = (1 if rng.random() < .5 else int(rng.integers(2, 4))), 1
    elif kind == "2":
        rank, n = int(rng.choice([2, 2, 3])), 2
    else:
        rank = int(rng.integers(1, 4))
        n = int(rng.integers(1, rank + 1))
    default = rng.random() < .25
    if big:
        k, shape, axes, L = big_kind(rng, True)
        kind = {"swt": "1", "swt2": "2", "swtn": "n"}[k]
        rank, n = len(shape), len(axes)
        if spec == "mraswt":
            L = min(min(TwoAdic(shape[a]) for a in axes), max(L, 5 if n == 1 else 1))
            modes = []
        else:
            shape = tuple(s - int(rng.integers(0, 3)) if s > 20 else s for s in shape)
            modes = [["zero", "symmetric", "periodic", "periodization", "constant", "antisymmetric", "reflect"][rng.integers(7)] for _ in range(n)]
        level, default = L, False
        banks = [rand_bank(rng, int(rng.choice([2, 4])), 1) for _ in range(n)]
        from p_multi import splits_ok
        modes = ["periodic" if not splits_ok(shape[a], b.F, m, level) else m for a, b, m in zip(axes, banks, modes)]
        if spec != "mraswt" and any(m != "periodization" and 2 * z - b.F + 2 < 1 for a, b, m in zip(axes, banks, modes) for z in coeff_sizes(shape[a], b.F, m, level)):
            return None
        dt = ["f8", "c16", "i8", "f8"][rng.integers(4)]
    elif spec == "mraswt":
        L = int(rng.integers(1, 4 if rank == 1 else 3))
        shape, axes = even_shape(rng, rank, n, L, 120)
        L = min(TwoAdic(shape[a]) for a in axes)
        if L * n > 6:
            return None
        level = L if default else int(rng.integers(1, L + 1))
        if rng.random() < .5:
            banks = [PRD[rng.integers(len(PRD))]] * n
        else:
            banks = banks_for(rng, n, "swt" if kind == "1" else kind, 1)
        modes = []
        dt = ["f8", "c16", "i8", "f8"][rng.integers(4)]
    else:
        shape = rshape(rng, rank, 1, {1: 24, 2: 8, 3: 5}[rank], 90)
        axes = [int(v) for v in rng.permutation(rank)[:n]]
        if rng.random() < .5:
            banks = [PRD[rng.integers(len(PRD))]] * n
        else:
            banks = [rand_bank(rng, int(rng.choice([2, 4, 6])), 1) for _ in range(n)] if kind != "1" else [rand_bank(rng, int(rng.choice([2, 4, 6, 8])), 1)]
        modes = [MODES[rng.integers(9)] for _ in range(n)] if rng.random() < .5 else [MODES[rng.integers(9)]] * n
        if kind == "n" and n > 1 and rng.random() < .5:
            modes[int(rng.integers(n))] = "periodization"
        level = min(maxlev(shape[a], b.F) for a, b in zip(axes, banks)) if default else int(rng.integers(0, 4 if n < 3 else 2))
        from p_multi import splits_ok
        modes = ["periodic" if not splits_ok(shape[a], b.F, m, level) else m for a, b, m in zip(axes, banks, modes)]
        if any(m != "periodization" and 2 * z - b.F + 2 < 1 for a, b, m in zip(axes, banks, modes) for z in coeff_sizes(shape[a], b.F, m, level)):
            return None
        dt = ["f8", "c16", "i8", "f8"][rng.integers(4)]
    sh = level * sum(b.ds + b.rs for b in banks)
    g = 2.0 ** (sh + (level * n if spec == "mraswt" else 0))
    for b, a, m in zip(banks, axes, modes or ["periodization"] * n):
        for _ in range(level):
            g *= max(1, b.gain("d") / 2 ** b.ds) * extgrow(m, shape[a], b.F) * max(1, 2 * b.gain("r") / 2 ** b.rs)
    lim = 3
    gi = g * max(b.gain("d") * b.gain("r") for b in banks)
    if not ok_growth(gi, lim):
        lim = 1
        if not ok_growth(gi, lim):
            return None
    x = ints(rng, shape, lim, dt) * 2 ** sh
    c = dict(op="mra", specop=spec, kind=kind, banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), level=-1 if default else level,
             explicit=bool(rng.integers(2)), axlist=bool(rng.integers(2)), var=dict(dt=dt, lay=["C", "F", "step", "list"][rng.integers(4)] if level else "C"),
             scale=2.0 ** (level * n) if spec == "mraswt" else 1.0, **{"in": dict(x=x)})
    if (kind == "1" and axes == [rank - 1]) or (kind == "2" and axes == [rank - 2, rank - 1]) or (kind == "n" and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    same = len(set(map(id, banks))) == 1
    c["wform"] = "auto" if kind == "1" else ["auto", "one", "list"][rng.integers(3)] if same else ["auto", "tuple", "list"][rng.integers(3)]
    c["mform"] = "auto" if kind == "1" or len(set(modes)) > 1 else ["auto", "int", "enum"][rng.integers(3)]
    return c


@prop("C11")
def c11(chk):
    mc.mra_model(chk)
    mc.swt_model(chk)
    rng = rng_for(chk)
    cs = []
    for _ in range(pick(350, 2500)):
        cs.append(c_mra(rng, "mraswt"))
        cs.append(c_mra(rng, "mradwt"))
    with thin():
        for _ in range(pick(30, 200)):
            cs.append(c_mra(rng, "mraswt", True))
            cs.append(c_mra(rng, "mradwt", True))
    validate(chk, [c for c in cs if c], "integer-exact components")
    items = []
    for n in NAMES:
        for _ in range(pick(2, 10)):
            items.append((n, ["1", "2", "n"][rng.integers(3)], bool(rng.integers(2)), int(rng.integers(4)), int(rng.integers(1 << 30))))

    def one(it):
        n, kind, sw, dti, seed = it
        r = np.random.default_rng(seed)
        rank = 1 if kind == "1" and seed & 1 else int(r.integers(2, 4)) if kind != "1" else 2
        nax = {"1": 1, "2": 2}.get(kind) or int(r.integers(1, rank + 1))
        L = int(r.integers(1, 3))
        dt = DTS[dti if L * nax <= 2 else 2 * (dti // 2)]
        if sw:
            shape, axes = even_shape(r, rank, nax, L, 500)
            L = min(L, min(TwoAdic(shape[a]) for a in axes))
        else:
            shape = tuple(int(v) for v in r.integers(2, {1: 60, 2: 16, 3: 8}[rank], rank))
            axes = [int(v) for v in r.permutation(rank)[:nax]]
        x = rsig(r, shape, dt)
        m = ["symmetric", "zero", "periodic", "periodization", "constant", "smooth", "antisymmetric"][r.integers(7)]
        kw = {} if sw else dict(mode=m)
        if kind == "n" and not sw and seed & 2:          # a mode per axis, periodization among them
            ms = ["periodization" if i == seed % nax else ["zero", "periodic", "symmetric", "constant"][r.integers(4)] for i in range(nax)]
            kw["mode"] = tuple(ms)
        kw["transform"] = ("swt" if sw else "dwt") + {"1": "", "2": "2", "n": "n"}[kind]
        if kind == "1":
            p = pywt.mra(x, n, L, axis=axes[0], **kw)
            y = pywt.imra(p)
            parts = p
            cnt = L + 1
        elif kind == "2":
            p = pywt.mra2(x, n, L, axes=tuple(axes), **kw)
            y = pywt.imra2(p)
            parts = list(flat(p))
            cnt = 3 * L + 1
        else:
            p = pywt.mran(x, n, L, axes=tuple(axes), **kw)
            y = pywt.imran(p)
            parts = list(flat(p))
            cnt = (2 ** nax - 1) * L + 1
        w = pywt.Wavelet(n)
        A = (amp(w) * max(np.abs(w.dec_lo).sum(), np.abs(w.dec_hi).sum()) * (1 if sw else 2 * w.dec_len + 1 if m == "smooth" else 2)) ** (L * nax)
        unit = nax * L * cnt * ((2.0 ** -23 if is_single(dt) else 2.0 ** -52) * (w.dec_len + 4) + 2 * WTOL.get(n, 0)) * A * float(np.abs(x).max())
        ok = all(q.shape == x.shape for q in parts) and len(parts) == cnt and y.shape == x.shape
        err = float(np.abs(y - x).max()) if ok else float("inf")
        u = int(min(1e6, np.ceil(err / unit * 100))) if np.isfinite(err) else 10 ** 6
        return dict(op="same", N=[1], M=[1 if ok else 0], err=u, idt=str(np.dtype(dt)), odt=str(y.dtype))
    measured(chk, one, items, "components of built-in wavelets")
