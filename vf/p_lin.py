"""C22: types, linearity, complex data and precision, for every call that spec/MC_Types.tla enumerates."""
import hashlib
from registry import prop
from core import *
from gen import *
import mc
from p_dwt import rng_for, NAMES, measured
from p_multi import give

LD = np.longdouble
ORTHO = [n for n in NAMES if pywt.Wavelet(n).orthogonal]
LETTERS = {1: ["d"], 2: ["da", "ad", "dd"]}
CW = ["morl", "mexh", "gaus2", "cgau1", "cmor1.5-1.0", "shan1-1"]
MIXED = [m for m in MODES if m not in ("smooth", "antireflect")]


def allof(o, acc=None):
    acc = [] if acc is None else acc
    if isinstance(o, np.ndarray):
        acc.append(o)
    elif isinstance(o, dict):
        for k in sorted(o):
            allof(o[k], acc)
    elif isinstance(o, (list, tuple)):
        for v in o:
            allof(v, acc)
    return acc


def shapes(o):
    return [a.shape for a in allof(o)]


class Call:
    """a transform with everything but its arrays fixed; self.slots = shapes of the arrays, self.run(arrays) -> arrays"""

    def __init__(self, fn, seed, single):
        r = self.r = np.random.default_rng(seed)
        self.fn = fn
        two = fn.endswith("2") or fn.endswith("2swt")
        nd = fn.endswith("n") or fn.endswith("nswt")
        rank = int(r.integers(2, 4)) if two or nd else int(r.integers(1, 4))
        if fn in ("downcoef", "upcoef"):
            rank = 1
        k = 2 if two else int(r.integers(1, rank + 1)) if nd else 1
        if fn in ("idwtn", "waverecn", "iswtn", "packrecn"):
            k = 2          # as many arrays as the specification counts
        self.axes = axes = [int(v) for v in r.permutation(rank)[:k]]
        big = k == 1
        names = [n for n in NAMES if pywt.Wavelet(n).dec_len <= (20 if single or not big else 200)]
        if not big:
            names = [n for n in names if pywt.Wavelet(n).dec_len <= 10]
        self.w = str(names[r.integers(len(names))])
        w = pywt.Wavelet(self.w)
        self.F = F = w.dec_len
        ms = MIXED if single or not big else MODES
        self.m = ms[r.integers(len(ms))]
        if fn in ("mraswt", "mra2swt", "mranswt"):
            self.m = "periodization"
        L = self.L = int(r.integers(1, 4 if big else 3))
        sw = "swt" in fn
        if fn in ("waverec", "waverec2", "waverecn", "iswt", "iswt2", "iswtn"):
            L = self.L = {"waverec": 2, "waverec2": 2, "waverecn": 2, "iswt": 2, "iswt2": 2, "iswtn": 2}[fn]
        if fn in ("idwt", "idwt2", "idwtn", "dwt", "dwt2", "dwtn", "packrec", "packrec2", "packrecn"):
            L = self.L = 1
        hi = (60 if rank == 1 else 24) if big else 9
        sizes = [int(v) for v in r.integers(2 if self.m.endswith("reflect") else 1, 4, rank)]
        for a in axes:
            sizes[a] = int(r.integers(2, hi))
            if sw:
                sizes[a] = 2 ** L * int(r.integers(1, max(2, hi // 2 ** L)))
            elif self.m in ("reflect", "antireflect") or fn.startswith("mra"):
                sizes[a] = max(sizes[a], F, 6)
            if fn in ("pack", "pack2", "packn", "packrec", "packrec2", "packrecn"):
                sizes[a] = max(sizes[a], 3, F)
        self.shape = tuple(sizes)
        self.neg = bool(r.integers(2))
        ax = [a - rank if self.neg else a for a in axes]
        self.trim, self.norm, self.take = bool(r.integers(2)), bool(r.integers(2)) and w.orthogonal, int(r.integers(0, 12))
        self.part = "ad"[r.integers(2)]
        self.start = int(r.integers(0, L)) if sw else 0
        self.tr = "swt" if sw else "dwt"
        g = max(sum(map(abs, f)) for f in (w.dec_lo, w.dec_hi))
        h = 2 * max(sum(map(abs, f)) for f in (w.rec_lo, w.rec_hi))
        ext = max((extgrow(self.m, self.shape[a], F) if not sw else 1) for a in axes)
        ana, syn = (max(1, g) * ext) ** (L * k), max(1, h) ** (L * k)
        t = self.m
        warnings.simplefilter("ignore")
        z = lambda: np.zeros(self.shape)
        a1 = ax[0]
        ax = tuple(ax)
        if fn in mc.FORWARD:
            self.slots = [self.shape]
            self.gain, self.steps = ana, L * k
        if fn.startswith("mra"):
            self.gain, self.steps = ana * syn * (L + 1), 2 * L * k + L
        if fn == "dwt":
            self.run = lambda q: pywt.dwt(q[0], self.w, t, a1)
        elif fn == "dwt2":
            self.run = lambda q: pywt.dwt2(q[0], self.w, t, ax)
        elif fn == "dwtn":
            self.run = lambda q: pywt.dwtn(q[0], self.w, t, ax)
        elif fn == "downcoef":
            self.run = lambda q: pywt.downcoef(self.part, q[0], self.w, t, L)
        elif fn == "wavedec":
            self.run = lambda q: pywt.wavedec(q[0], self.w, t, L, a1)
        elif fn == "wavedec2":
            self.run = lambda q: pywt.wavedec2(q[0], self.w, t, L, ax)
        elif fn == "wavedecn":
            self.run = lambda q: pywt.wavedecn(q[0], self.w, t, L, ax)
        elif fn == "fswavedecn":
            self.run = lambda q: pywt.fswavedecn(q[0], self.w, t, L, ax).coeffs
        elif fn == "swt":
            self.run = lambda q: pywt.swt(q[0], self.w, L - self.start, self.start, a1, self.trim, self.norm)
        elif fn == "swt2":
            self.run = lambda q: pywt.swt2(q[0], self.w, L - self.start, self.start, ax, self.trim, self.norm)
        elif fn == "swtn":
            self.run = lambda q: pywt.swtn(q[0], self.w, L - self.start, self.start, ax, self.trim, self.norm)
        elif fn in ("mra", "mraswt"):
            self.run = lambda q: pywt.mra(q[0], self.w, L, a1, self.tr, t)
        elif fn in ("mra2", "mra2swt"):
            self.run = lambda q: pywt.mra2(q[0], self.w, L, ax, self.tr + "2", t)
        elif fn in ("mran", "mranswt"):
            self.run = lambda q: pywt.mran(q[0], self.w, L, ax, self.tr + "n", t)
        elif fn == "cwt":
            self.cw = str(CW[r.integers(len(CW))])
            s = [float(v) for v in r.choice([1, 2, 2.5, 5, 9, 17], 2, replace=False)]
            me = ["conv", "fft"][r.integers(2)]
            self.run = lambda q: pywt.cwt(q[0], s, self.cw, method=me, axis=a1)[0]
            self.gain, self.steps, self.F = 8, 4, self.shape[axes[0]] + 8 * 17
        elif fn in ("pack", "pack2", "packn"):
            cls = dict(pack=pywt.WaveletPacket, pack2=pywt.WaveletPacket2D, packn=pywt.WaveletPacketND)[fn]
            kw = dict(axis=a1) if fn == "pack" else dict(axes=ax)
            self.run = lambda q: [n.data for n in cls(q[0], self.w, t, maxlevel=2, **kw).get_level(1)]
            self.gain, self.steps = ana, k
        else:
            self.gain, self.steps = syn, L * k
        if fn == "idwt":
            c = pywt.dwt(z(), self.w, t, a1)
            self.slots = shapes(c)
            self.run = lambda q: pywt.idwt(q[0], q[1], self.w, t, a1)
        elif fn == "upcoef":
            self.slots = [(int(r.integers(1, 20)),)]
            self.run = lambda q: pywt.upcoef(self.part, q[0], self.w, L, self.take)
        elif fn == "idwt2":
            c = pywt.dwt2(z(), self.w, t, ax)
            self.slots = shapes(c)
            self.run = lambda q: pywt.idwt2((q[0], tuple(q[1:])), self.w, t, ax)
        elif fn == "idwtn":
            ks = ["aa", "ad", "da", "dd"]
            c = pywt.dwtn(z(), self.w, t, ax)
            self.slots = [c[k_].shape for k_ in ks]
            keep = bool(r.integers(2))
            self.run = lambda q: pywt.idwtn({k_: v for k_, v in zip(ks, q) if v is not None or keep}, self.w, t, ax)
        elif fn == "waverec":
            c = pywt.wavedec(z(), self.w, t, 2, a1)
            self.slots = shapes(c)
            self.run = lambda q: pywt.waverec(list(q), self.w, t, a1)
        elif fn == "waverec2":
            c = pywt.wavedec2(z(), self.w, t, 2, ax)
            self.slots = shapes(c)
            self.run = lambda q: pywt.waverec2([q[0], tuple(q[1:4]), tuple(q[4:])], self.w, t, ax)
        elif fn == "waverecn":
            c = pywt.wavedecn(z(), self.w, t, 2, ax)
            ks = ["da", "ad", "dd"]
            self.slots = [c[0].shape] + [c[j][k_].shape for j in (1, 2) for k_ in ks]
            self.run = lambda q: pywt.waverecn([q[0]] + [{k_: v for k_, v in zip(ks, p) if v is not None} for p in (q[1:4], q[4:])], self.w, t, ax)
        elif fn == "fswaverecn":
            f = pywt.fswavedecn(z(), self.w, t, L, ax)
            self.slots = [f.coeffs.shape]
            self.run = lambda q: pywt.fswaverecn(pywt.FswavedecnResult(q[0], f.coeff_slices, f.wavelets, [pywt.Modes.from_object(v) for v in f.modes], f.axes))
        elif fn == "iswt":
            self.slots = [self.shape] * 3
            self.run = lambda q: pywt.iswt(list(q), self.w, self.norm, a1)
        elif fn == "iswt2":
            self.slots = [self.shape] * 7
            self.run = lambda q: pywt.iswt2([q[0], tuple(q[1:4]), tuple(q[4:])], self.w, self.norm, ax)
        elif fn == "iswtn":
            ks = ["da", "ad", "dd"]
            self.slots = [self.shape] * 7
            self.run = lambda q: pywt.iswtn([q[0]] + [dict(zip(ks, p)) for p in (q[1:4], q[4:])], self.w, ax, self.norm)
        elif fn in ("packrec", "packrec2", "packrecn"):
            cls, ks, kw = dict(packrec=(pywt.WaveletPacket, ["a", "d"], dict(axis=a1)), packrec2=(pywt.WaveletPacket2D, list("ahvd"), dict(axes=ax)),
                               packrecn=(pywt.WaveletPacketND, ["aa", "ad", "da", "dd"], dict(axes=ax)))[fn]
            tree = cls(z(), self.w, t, maxlevel=1, **kw)
            self.slots = [tree[k_].data.shape for k_ in ks]
            up = bool(r.integers(2))

            def go(q):
                tr = cls(None, self.w, t, maxlevel=1, **kw)
                for k_, v in zip(ks, q):
                    if v is not None:
                        tr[k_] = v
                return tr.reconstruct(update=up)
            self.run = go


KIND = dict(bool="b", float128="g", complex256="G")


def np_type(t):
    return np.dtype(KIND.get(t, t))


def plain_type(t, part=None):
    if t == "none":
        return t
    k = np_type(t).kind
    if part or k != "c":
        return np.float64
    return np.complex128


def types_case(it):
    q, seed = it
    ts = q["slots"]
    single = q["out"] in ("float32", "complex64") or any(t in ("float16", "float32", "complex64") for t in ts)
    c = Call(q["fn"], seed, single)
    r = np.random.default_rng(seed + 1)
    rec = dict(fn=q["fn"], slots=ts, cplxwave=q["fn"] == "cwt" and pywt.ContinuousWavelet(c.cw).complex_cwt, shapes=True, lin=0, cplx=0, prec=0, out=[],
               w=c.w, m=c.m, N=list(c.shape), axes=c.axes, L=c.L)
    assert len(ts) == len(c.slots), (q["fn"], len(ts), len(c.slots))

    def draw():
        out = []
        for t, s in zip(ts, c.slots):
            if t == "none":
                out.append(None)
                continue
            k = np_type(t).kind
            v = r.integers(0, 2, s) if k == "b" else r.integers(0, 9, s) if k == "u" else r.integers(-8, 9, s)
            if r.random() < .15:
                v = v * 0             # whole bands may be zero
            if k == "c":
                v = v + 1j * r.integers(-8, 9, s)
            out.append(v)
        return out

    def T(vs, types):
        a = [None if v is None else np.asarray(v).astype(np_type(t) if isinstance(t, str) else t) for v, t in zip(vs, types)]
        with np.errstate(all="ignore"):
            return allof(c.run(a))
    x, y = draw(), draw()
    try:
        X = T(x, ts)
        rec["out"] = sorted({a.dtype.name for a in X})
    except Exception as e:
        rec["raised"] = f"{type(e).__name__}: {e}"[:200]
        return rec
    eps = LD(2) ** (-23 if single else -52)
    top = max([1] + [int(np.max(np.abs(v), initial=0)) for v in x + y if v is not None])

    def units(A, B, scale=1):
        if [a.shape for a in A] != [b.shape for b in B]:
            rec["shapes"] = False
            return 0
        g = c.gain * top
        if c.fn == "cwt":
            g = max([float(np.max(np.abs(b), initial=0)) for b in B] + [top])
        e = max([LD(np.max(np.abs(a.astype(np.clongdouble) - b), initial=0)) for a, b in zip(A, B)] + [LD(0)])
        if not e < np.inf:
            return 10 ** 9
        return int(min(1e9, np.ceil(e / (eps * (c.F + 2) * c.steps * g * scale) * 100)))
    G = np.clongdouble
    # against double precision
    D = T(x, [plain_type(t) for t in ts])
    rec["prec"] = units(X, D)
    # real and imaginary parts
    if any(np_type(t).kind == "c" for t in ts if t != "none"):
        re = T([None if v is None else v.real for v in x], [plain_type(t, 1) for t in ts])
        im = T([None if v is None else v.imag for v in x], [plain_type(t, 1) for t in ts])
        rec["cplx"] = units(X, [a.astype(G) + G(1j) * b for a, b in zip(re, im)])
    # linearity: small integers keep the combination itself exact
    unsigned = any(np_type(t).kind in "bu" for t in ts if t != "none")
    if not any(t == "bool" for t in ts):
        allc = all(np_type(t).kind == "c" for t in ts if t != "none")
        al, be = ((2, 3) if unsigned else (int(r.integers(-3, 4)), int(r.integers(-3, 4))))
        if allc:
            al, be = al + 2j, be - 1j
        Y = T(y, ts)
        Z = T([None if v is None else al * v + be * w for v, w in zip(x, y)], ts)
        rec["lin"] = units(Z, [G(al) * a + G(be) * b for a, b in zip(X, Y)], 8)
        # exact homogeneity in powers of two (no rounding at all), exact negation
        if not unsigned and all(np_type(t).kind in "fc" for t in ts if t != "none") and c.fn != "cwt":
            H = T([None if v is None else -4 * v for v in x], ts)
            if not all(np.array_equal(h, -4 * a) for h, a in zip(H, X)):
                rec["lin"] = max(rec["lin"], units(H, [-4 * a.astype(G) for a in X], 4))
    return rec


@prop("C22")
def c22(chk):
    r = mc.types_model(chk)
    reqs = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"TYP ')]
    reqs = sorted({json.dumps(q, sort_keys=True) for q in reqs})
    reqs = [json.loads(q) for q in reqs]
    if len(reqs) < 1000:
        raise MachineryError(f"{len(reqs)} calls")
    items = []
    for q in reqs:
        for k in range(pick(6, 60) if q["fn"] in mc.FORWARD or q["fn"] in ("upcoef", "fswaverecn") else pick(1, 6)):
            items.append((q, int(hashlib.sha1((json.dumps(q) + f"{k} {SEED}").encode()).hexdigest()[:8], 16)))
    measured(chk, types_case, items, "types, linearity, complex parts and precision", module="TypeTrace")
