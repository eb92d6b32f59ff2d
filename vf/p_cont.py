"""C18, C19: continuous transform, wavelet functions, integrals and frequencies."""
from fractions import Fraction
from registry import prop
from gen import *
from p_dwt import rng_for, rsig, judge_real, measured, NAMES, DTS, is_single
import optable as OT
import mc

LD, CLD = np.longdouble, np.clongdouble
PI = LD("3.14159265358979323846264338327950288")


def units(err, unit):
    """largest ratio in hundredths, as an integer for the specification to judge"""
    err, unit = np.asarray(err, LD), np.asarray(unit, LD)
    if err.size == 0:
        return 0
    if not np.all(np.isfinite(err)):
        return 10 ** 6
    return int(min(10 ** 6, np.ceil(float((err / unit).max()) * 100)))


# ------------------------------------------------------------------ closed forms
def evaluate(e, x, par, eps):
    """(value, accumulated magnitude: error in units of eps, second order included) of an expression of spec/Contin.tla, extended precision"""
    o = e[0]
    if o == "x":
        return x, np.abs(x)
    if o == "int":
        return LD(e[1]), LD(0)
    if o == "pi":
        return PI, PI
    if o == "par":
        return LD(par[e[1]]), LD(0)
    # the sample number and what module Signals does with it (exact)
    if o == "i":
        return par["i"], LD(0)
    if o == "in":
        return ((par["i"] >= e[1]) & (par["i"] <= e[2])).astype(LD), LD(0)
    if o == "again":
        return tuple(a[e[1] - par["i"].astype(int) - 1] for a in par["before"])
    if o == "m":
        return LD(par["m"]), LD(0)
    if o == "sum":
        q = [evaluate(e[2], x, dict(par, m=m), eps) for m in range(1, e[1] + 1)]
        return sum(a for a, _ in q), sum(b + np.abs(a) for a, b in q)
    if o == "mod":
        v, _ = evaluate(e[1], x, par, eps)
        return np.fmod(v, LD(e[2])), LD(0)
    v, m = zip(*(evaluate(a, x, par, eps) for a in e[1:]))
    if o == "neg":
        return -v[0], m[0]
    if o == "abs":
        return np.abs(v[0]), m[0]
    if o == "sign":
        return np.sign(v[0]), LD(0)
    if o == "add":
        r = v[0] + v[1]
        return r, m[0] + m[1] + np.abs(r)
    if o == "mul":
        r = v[0] * v[1]
        return r, np.abs(v[0]) * m[1] + m[0] * np.abs(v[1]) + 8 * eps * m[0] * m[1] + np.abs(r)
    if o == "div":
        r = v[0] / v[1]
        return r, m[0] / np.abs(v[1]) + np.abs(r) * m[1] / np.abs(v[1]) + np.abs(r)
    if o == "sqrt":
        r = np.sqrt(v[0])
        z = np.where(v[0] == 0, LD(1), np.abs(v[0]))
        return r, np.where(v[0] == 0, np.sqrt(m[0] / eps), r * (1 + m[0] / z))
    if o == "exp":
        r = np.exp(v[0])
        return r, r * (1 + m[0])
    if o in ("cos", "sin"):
        return (np.cos if o == "cos" else np.sin)(v[0]), 1 + m[0]
    if o == "sinc":
        u = v[0] * PI
        s = np.where(u == 0, 1, u)
        r = np.where(u == 0, LD(1), np.sin(s) / s)
        return r, 2 + 4 * m[0] / np.maximum(1, np.abs(u))
    if o == "pow":
        n = int(v[1])
        r = v[0] ** n
        return r, np.abs(r) * 2 + n * (np.abs(v[0]) + 8 * eps * m[0]) ** (n - 1) * m[0]
    raise MachineryError("expression " + o)


CONT = [n for n in pywt.wavelist(kind="continuous")]
FAMN = {"shan": "BC", "cmor": "BC", "fbsp": "MBC"}


def cname(rng):
    """a continuous wavelet name, and its family and order"""
    k = rng.random()
    if k < .5:
        n = CONT[rng.integers(len(CONT))]
        return n
    b = ["0.5", "1", "1.5", "2.25", "3", "0.75", "4.0", ".5", "1.2", "10.25", "12", "0.0625"][rng.integers(12)]
    c = ["0.5", "1", "1.5", "0.25", "2", "0.1", "1.0", "0.85", "10.5", "0.125"][rng.integers(10)]
    f = ["shan", "cmor", "fbsp"][rng.integers(3)]
    f = [f, f, f.upper(), f.capitalize()][rng.integers(4)]
    return f"{f}{[1, 2, 3, 4, 5, 10, 12][rng.integers(7)]}-{b}-{c}" if f.lower() == "fbsp" else f"{f}{b}-{c}"


def cparse(name):
    name = name.lower()
    for f in ("gaus", "cgau"):
        if name.startswith(f):
            return f, int(name[4:]), {}
    for f in ("shan", "cmor", "fbsp"):
        if name.startswith(f):
            t = name[4:].split("-") if len(name) > 4 else None
            d = dict(zip(FAMN[f], t)) if t else dict(shan=dict(B=".5", C="1"), cmor=dict(B="1", C=".5"), fbsp=dict(M="2", B="1", C=".5"))[f]
            return f, 0, {k: float(v) for k, v in d.items()}
    return name, 0, {}


def bounds0(fam):
    return dict(gaus=5, cgau=5, shan=20, fbsp=20).get(fam, 8)


@op("wavefun")
def _(c, i):
    w = custom_w(c)
    r = w.wavefun() if c.get("dflt") else w.wavefun(c["level"]) if c["level"] % 2 else w.wavefun(level=c["level"])
    return dict(f=list(r[:-1]), x=r[-1])


@op("integral")
def _(c, i):
    w = custom_w(c)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = pywt.integrate_wavelet(w) if c.get("dflt") else pywt.integrate_wavelet(w, precision=c["level"])
    return dict(f=list(r[:-1]), x=r[-1])


@op("running")
def _(c, i):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn = pywt.integrate_wavelet if c["new"] else getattr(pywt, "intwave", pywt.integrate_wavelet)
        v = fn([i["f"], i["x"]] if c["aslist"] else (i["f"], i["x"]))
    return dict(f=[v[0]], x=v[1])


def custom_w(c):
    w = pywt.Wavelet("mine", filter_bank=W1(c).filter_bank)
    w.orthogonal = c["extra"]["orth"]
    w.biorthogonal = c["extra"]["biorth"]
    return w


@prop("C19")
def c19(chk):
    forms = {(f["fam"], f["n"]): f["f"] for f in mc.contin_model(chk)}
    mc.cascade_model(chk)
    rng = rng_for(chk)
    cs = []
    for op_ in ("wavefun", "integral"):
        for F in (2, 4, 6, 8, 10) + pick((), (12, 16, 20)):
            for level in range(1, 8 if F < 5 else 6 if F < 9 else 5):
                for _ in range(pick(1, 4)):
                    lim = 3 if level * F < 30 else 1
                    b = rand_bank(rng, F, lim)
                    if b.gain("r") ** level * (2 ** level * F if op_ == "integral" else 1) > 2 ** 29 or b.gain("d") ** level * (2 ** level * F if op_ == "integral" else 1) > 2 ** 29:
                        b = Bank(*[np.sign(rng.standard_normal(2)).astype(int).tolist() + [0] * (F - 2) for _ in range(4)], name="two")
                        b = Bank(*[np.roll(f, rng.integers(F)).tolist() for f in b.t], name="two")
                    o = bool(rng.random() < .4)
                    s = 2.0 ** (-level / 2)
                    cs.append(dict(op=op_, banks=[b], level=level, extra=dict(orth=o, biorth=bool(rng.random() < .5)),
                                   scale=dict(f=s * (2 ** level if op_ == "integral" else 1), x=2.0 ** level)))
        with thin():
            for F in (2, 2, 4, 6, 8):
                level = int(rng.integers(8, 12 if F < 6 else 10))
                s = 2.0 ** (-level / 2)
                b = rand_bank(rng, F)
                cs.append(dict(op=op_, banks=[b], level=level, extra=dict(orth=bool(rng.integers(2)), biorth=bool(rng.random() < .5)),
                               scale=dict(f=s * (2 ** level if op_ == "integral" else 1), x=2.0 ** level)))
        for F in (26, 40, 102, 128, 130, 258):      # long filters, three taps each
            b = Bank(*[np.roll([1, -1] + [0] * (F - 4) + [1, 1], rng.integers(F)).tolist() for _ in range(4)], name=f"sparse{F}")
            level = int(rng.integers(1, 6 if F < 100 else 4))
            s = 2.0 ** (-level / 2)
            cs.append(dict(op=op_, banks=[b], level=level, extra=dict(orth=bool(rng.integers(2)), biorth=bool(rng.random() < .5)),
                           scale=dict(f=s * (2 ** level if op_ == "integral" else 1), x=2.0 ** level)))
        for F in (2, 4):
            b = PRB[[0, 1][F // 4]] if F == 2 else Bank([1, 0, 1, 0], [0, 1, 0, -1], [1, 0, 0, 1], [0, 1, 1, 0], name="d8")
            for o in (True, False):
                cs.append(dict(op=op_, banks=[b], level=8, dflt=True, extra=dict(orth=o, biorth=not o), scale=dict(f=(16 if op_ == "integral" else 1 / 16), x=256.0)))
    for _ in range(pick(20, 100)):
        n = int(rng.integers(2, 20))
        st = int(rng.integers(1, 4))
        cs.append(dict(op="running", new=bool(rng.random() < .7), aslist=bool(rng.random() < .5), var=dict(dt=["f8", "f4"][rng.integers(2)]),
                       **{"in": dict(f=rng.integers(-9, 10, n), x=st * np.arange(n) + int(rng.integers(-3, 3)))}))
    validate(chk, cs, "integer-exact cascades and integrals", clauses=("value", "raised", "mutated"))

    # ---- built-in filters
    reqs, items = [], []
    for n in NAMES:
        F = pywt.Wavelet(n).rec_len
        top = 5 if F <= 12 else 4 if F <= 20 else 3 if F <= 40 else 2
        for L in range(1, top + 1):
            reqs.append(dict(kind="up", N=1 if L == 1 else (2 ** (L - 1) - 1) * (F - 1) + 1, F=F))
        items.append((n, top, int(rng.integers(1 << 30))))
    OT.load(chk, reqs)

    def two(g, prev, L):           # Refined of module Cascade
        n = (2 ** L - 1) * (len(g) - 1) + 1
        r, m = np.zeros(n, LD), np.zeros(n, LD)
        for j, v in enumerate(g):
            o = j * 2 ** (L - 1)
            r[o:o + len(prev)] += LD(v) * prev
            m[o:o + len(prev)] += abs(LD(v)) * np.abs(prev)
        return r, m

    def one(it):
        n, top, seed = it
        w = pywt.Wavelet(n)
        F = w.dec_len
        orth = w.orthogonal
        pairs = [(w.rec_lo, w.rec_hi)] if orth else [(w.dec_lo[::-1], w.dec_hi[::-1]), (w.rec_lo, w.rec_hi)]
        sg = -1 if not orth and w.biorthogonal and (w.vanishing_moments_psi or 0) % 4 != 1 else 1
        for L in list(range(1, top + 1)) + [8] + ([10] if seed % 7 == 0 else []):
            r = w.wavefun(L)
            keep = (2 ** L - 1) * (F - 1) + 1
            size = max((F - 1) * 2 ** L + (1 if orth else 0), keep + 2)
            if len(r) != 2 * len(pairs) + 1:
                return f"level {L}: {len(r)} arrays"
            if any(v.shape != (size,) or v.dtype != np.float64 for v in r):
                return f"level {L}: lengths {[v.shape for v in r]} want {size}"
            if np.abs(r[-1] - np.arange(size) / LD(2 ** L)).max() > 2 ** -50 * F:
                return f"level {L}: grid"
            nrm = np.sqrt(LD(2)) ** L
            for k, (lo, hi) in enumerate(pairs):
                lo, hi = np.asarray(lo, LD), np.asarray(hi, LD)
                if L <= top:
                    a, d = np.ones(1, LD), np.ones(1, LD)
                    am = dm = np.ones(1, LD)
                    for z in range(L):
                        a, _ = OT.up(len(a), lo, a)
                        am = OT.up(len(am), np.abs(lo), am)[0]
                        d, _ = OT.up(len(d), lo if z else hi, d)
                        dm = OT.up(len(dm), np.abs(lo if z else hi), dm)[0]
                else:
                    a, am = np.ones(1, LD), np.ones(1, LD)
                    for z in range(1, L):
                        a, am = two(lo, a, z)[0], two(np.abs(lo), am, z)[0]
                    d, dm = two(hi, a, L)[0], two(np.abs(hi), am, L)[0]
                    a, am = two(lo, a, L)[0], two(np.abs(lo), am, L)[0]
                for lab, got, v, m in (("phi", r[2 * k], a, am), ("psi", r[2 * k + 1], sg * d, dm)):
                    want, mag = np.zeros(size, LD), np.zeros(size, LD)
                    want[1:1 + keep], mag[1:1 + keep] = nrm * v, nrm * m
                    ok, msg = OT.close(got, want, mag, False, F * L)
                    if not ok:
                        return f"level {L} {lab}{k}: {msg}"
        if pywt.Wavelet(n).wavefun()[0].tobytes() != w.wavefun(8)[0].tobytes():
            return "default level is not 8"
        return ""
    judge_real(chk, one, items, "cascades of built-in filters")

    # ---- closed forms
    items = []
    for n in CONT:
        for dt in ("f8", "f4"):
            items.append((n, dt, None, None, None, None, int(rng.integers(1 << 30))))
    for _ in range(pick(400, 3000)):
        n = cname(rng)
        b = None
        if rng.random() < .5:
            lo = float(rng.choice([-20, -8.5, -5.3, -3, -1, 0, -0.1]))
            b = (lo, lo + float(rng.choice([1, 7.25, 10, 16, 0.5, 33.3])))
        pr = None
        if rng.random() < .4 and cparse(n)[0] in FAMN:
            pr = (float(rng.choice([.5, 1, 1.7, 3])), float(rng.choice([.25, 1, 1.3, 2])), int(rng.integers(1, 6)))
        k = rng.random()
        size = ("level", int(rng.integers(1, 11))) if k < .4 else ("length", int(rng.choice([2, 3, 17, 100, 255, 1000, 1]))) if k < .8 else None
        items.append((n, ["f8", "f4"][rng.integers(2)], b, pr, size, None, int(rng.integers(1 << 30))))

    def build(n, dt, b, pr):
        dtt = DT[dt]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = pywt.ContinuousWavelet(n, dtype=dtt) if dt == "f4" else pywt.ContinuousWavelet(n)
        fam, order, par = cparse(n)
        lo, hi = -bounds0(fam), bounds0(fam)
        if b:
            w.lower_bound, w.upper_bound = b
            lo, hi = (float(np.float32(v)) for v in b)
        if pr:
            w.bandwidth_frequency, w.center_frequency = pr[:2]
            par = dict(par, B=pr[0], C=pr[1])
            if fam == "fbsp":
                w.fbsp_order = pr[2]
                par["M"] = pr[2]
        par = {k: float(np.float32(v)) for k, v in par.items()}
        return w, dtt, fam, order, par, lo, hi

    def cont(it):
        n, dt, b, pr, size, _, seed = it
        w, dtt, fam, order, par, lo, hi = build(n, dt, b, pr)
        kw = {size[0]: size[1]} if size else {}
        N = 2 ** size[1] if size and size[0] == "level" else size[1] if size else 256
        psi, x = w.wavefun(**kw)
        eps = LD(2) ** (-23 if dt == "f4" else -52)
        f = forms[(fam, order)]
        want = dict(f8="complex128", f4="complex64")[dt] if "im" in f else dict(f8="float64", f4="float32")[dt]
        rec = dict(op="wave", N=N, M=len(x) if len(x) == len(psi) else -1, err=0, xerr=0, odt=str(psi.dtype), want=want)
        if rec["M"] != N:
            return rec
        grid = LD(lo) + (LD(hi) - LD(lo)) * np.arange(N, dtype=LD) / max(1, N - 1)
        rec["xerr"] = units(np.abs(x.astype(LD) - grid), eps * max(abs(lo), abs(hi), 1e-3))
        xl = x.astype(LD)
        worst = 0
        for part, got in (("re", psi.real), ("im", psi.imag if psi.dtype.kind == "c" else None)):
            if part in f:
                v, m = evaluate(f[part], xl, par, eps)
                worst = max(worst, units(np.abs(got.astype(LD) - v), eps * (2 * m) + LD(10) ** (-36 if dt == "f4" else -300)))
        rec["err"] = worst
        return rec
    measured(chk, cont, items, "closed forms")

    # ---- integrals and frequencies of real wavelets
    items = []
    for n in NAMES + CONT:
        for prec in [None] + [int(v) for v in rng.choice(np.arange(2, 11), pick(1, 3), replace=False)]:
            items.append((n, prec, None, None, "f8"))
    for _ in range(pick(120, 800)):
        n = cname(rng)
        lo = float(rng.choice([-20, -8, -5.5, -3]))
        items.append((n, [None, 7, 9, 10, 3][rng.integers(5)], (lo, float(rng.choice([3, 5.5, 8, 20]))) if rng.random() < .5 else None,
                      (float(rng.choice([.5, 1, 1.5])), float(rng.choice([.25, 1, 1.5])), 2) if rng.random() < .3 and cparse(n)[0] in FAMN else None,
                      ["f8", "f4"][rng.integers(2)]))

    def meas(it):
        n, prec, b, pr, dt = it
        byname = False
        if n in NAMES:
            w = pywt.Wavelet(n)
            byname = True
        else:
            w = build(n, dt, b, pr)[0]
            byname = b is None and pr is None and dt == "f8"
        kw = {} if prec is None else dict(precision=prec)
        lev = 8 if prec is None else prec
        fs = w.wavefun(lev)
        x = fs[-1]
        psis = [fs[0]] if len(fs) == 2 else [fs[1]] if len(fs) == 3 else [fs[1], fs[3]]
        arg = n if byname and len(n) % 2 else w
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = pywt.integrate_wavelet(arg, **kw)
            cf = pywt.central_frequency(arg, **kw)
            cf2 = pywt.central_frequency(w, **kw)
        single = x.dtype == np.float32
        eps = LD(2) ** (-23 if single else -52)
        out = []
        if len(r) != len(psis) + 1 or r[-1].tobytes() != x.tobytes() or cf != cf2:
            return dict(op="exact", eq=False)
        step = LD(x[1]) - LD(x[0])
        for g, p in zip(r, psis):
            p = p.astype(CLD if p.dtype.kind == "c" else LD)
            v = np.cumsum(p) * step
            m = np.cumsum(np.abs(p)) * step
            k = np.arange(1, len(p) + 1)
            fuzz = eps * max(abs(LD(x[0])), abs(LD(x[1]))) / step      # the step itself is a rounded difference
            out.append(dict(op="same", N=[len(p)], M=list(g.shape), err=units(np.abs(g.astype(p.dtype) - v), eps * (k + 2) * m + LD(1e-36)),
                            odt=str(g.dtype), idt=str(psis[0].dtype)))
        # periods of the strongest non-constant component
        p = psis[0].astype(np.complex128)
        N = len(p)
        dom = LD(x[-1]) - LD(x[0])
        kk = LD(cf) * dom
        k = int(np.rint(float(kk)))
        F = np.abs(np.fft.fft(p))
        fuzz = float(np.linalg.norm(p)) * np.sqrt(N) * (2.0 ** (-23 if single else -52)) * 40
        cand = [F[z % N] for z in {k, N - k} if 1 <= z < N] if abs(2 * k - N) > 1 else [F[z] for z in (N // 2, (N + 1) // 2)]
        deficit = float(F[1:].max() - max(cand)) if cand else 1e9
        out.append(dict(op="freq", N=N, k=k, kerr=units(abs(kk - k), eps * 16 * max(1, k)), deficit=units(max(0., deficit), fuzz)))
        # conversions
        r_ = np.random.default_rng(len(n) * 7 + lev)
        s = float(r_.choice([1, 2, 3.5, .25, 100, 7.7]))
        arr = np.array([1, 2.5, 8, 50])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = pywt.scale2frequency(arg, s, **kw)
            fa = pywt.scale2frequency(w, arr, **kw)
            back = pywt.frequency2scale(arg, f, **kw)
            sa = pywt.frequency2scale(w, fa, **kw)
            half = pywt.scale2frequency(w, 2 * s, **kw)
        e = [abs(LD(f) * s - cf) / cf, abs(LD(back) - s) / s, abs(LD(half) * 2 - f) / f]
        e += list(np.abs(fa.astype(LD) * arr - cf) / cf) + list(np.abs(sa.astype(LD) - arr) / arr)
        out.append(dict(op="same", N=[4], M=list(np.shape(fa)), err=units(np.array(e), LD(2) ** -52), odt="float64", idt="float64"))
        return out
    measured(chk, meas, items, "integrals, dominant frequencies and conversions")


# ------------------------------------------------------------------ C18
def scale_list(rng, R):
    """rational scales whose product with the range is either exact in binary or not an integer"""
    out = []
    for _ in range(int(rng.integers(1, 6))):
        k = rng.random()
        if k < .5:
            s = Fraction(int(rng.integers(1, 33)))
        elif k < .75:
            s = Fraction(int(rng.integers(3, 200)), int(rng.choice([2, 4, 8])))
        elif k < .93:
            s = Fraction(int(rng.integers(2, 90)), int(rng.choice([3, 5, 7, 10])))
        else:
            s = Fraction(int(rng.integers(30, 300)))
        # the last sample must not lie so close to the end of the table that rounding decides whether it is inside
        edge = lambda v: abs(Fraction(1023 * -(-v.numerator // v.denominator)) / v - 1024) < Fraction(1, 3)
        v = s * R
        if (v.denominator == 1 and s.denominator & (s.denominator - 1)) or v < 2 or edge(v):
            s = Fraction(int(rng.integers(1, 9)))
            while s * R < 2 or edge(s * R):
                s += 3
        out.append(s)
    return out


def c_cwt(rng, big=False):
    n = cname(rng)
    fam = cparse(n)[0]
    b = None
    lo, hi = Fraction(-bounds0(fam)), Fraction(bounds0(fam))
    if rng.random() < .25:
        lo, hi = Fraction(int(rng.integers(-20, 0)), int(rng.choice([1, 2, 4]))), Fraction(int(rng.integers(1, 20)), int(rng.choice([1, 2])))
        b = (float(lo), float(hi))
    sc = scale_list(rng, hi - lo)
    dt = ["f8", "f8", "f4", "c16", "c8", "i4", "f2", "list", "u1"][rng.integers(9)]
    if rng.random() < .6:
        shape, ax = (int(rng.choice([1, 2, 3, 5, 8, 16, 33, 64, 100, 200])),), -1
    else:
        rank = int(rng.integers(2, 5))
        shape = tuple(int(v) for v in rng.integers(1, 9 if rank < 4 else 4, rank))
        ax = int(rng.integers(rank))
        shape = tuple(int(rng.choice([1, 4, 9, 30])) if a == ax else v for a, v in enumerate(shape))
        if rng.random() < .5:
            ax -= rank
    wdt = "f4" if rng.random() < .12 else "f8"
    period = float(rng.choice([1, 1, .1, 2.5, 1 / 128]))
    return (n, b, [str(s) for s in sc], dt, shape, ax, ["conv", "fft", None][rng.integers(3)], wdt, period, int(rng.integers(1 << 30)))


def cwt_req(it):
    n, b, sc, dt, shape, ax, method, wdt, period, seed = it
    fam = cparse(n)[0]
    lo, hi = (Fraction(v) for v in b) if b else (Fraction(-bounds0(fam)), Fraction(bounds0(fam)))
    R = hi - lo
    single = dt in ("f4", "c8", "f2") or wdt == "f4"
    for s in map(Fraction, sc):
        yield dict(kind="cwt", N=s.numerator, F=s.denominator, rn=R.numerator, rd=R.denominator, P=1024, s=5 if single else 10 ** 6)


@prop("C18")
def c18(chk):
    mc.cwt_model(chk)
    rng = rng_for(chk)
    items = [c_cwt(rng) for _ in range(pick(1100, 9000))]
    items += [(n, None, ["1", "2", "7/2", "20"], "f8", (40,), -1, m, "f8", 1.0, 5) for n in CONT for m in ("conv", "fft")]
    reqs = [q for it in items for q in cwt_req(it)]
    OT.load(chk, reqs)

    def one(it):
        n, b, sc, dt, shape, ax, method, wdt, period, seed = it
        r = np.random.default_rng(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = pywt.ContinuousWavelet(n, DT[wdt])
            if b:
                w.lower_bound, w.upper_bound = b
            name = n if not b and wdt == "f8" and seed % 3 == 0 and not (n in ("shan", "fbsp", "cmor")) else w
            gi, gx = pywt.integrate_wavelet(w, precision=10)
        cplx = gi.dtype.kind == "c"
        x = r.standard_normal(shape) if dt not in ("i4", "u1", "list") else r.integers(-20 if dt != "u1" else 0, 21, shape)
        if dt in ("c16", "c8"):
            x = x + 1j * r.standard_normal(shape)
        if dt != "list":
            x = x.astype(DT[dt])
        data = x.tolist() if dt == "list" else x
        scf = [float(Fraction(s)) for s in sc]
        how = seed % 4
        scales = scf if how == 0 else np.array(scf) if how == 1 else scf if how == 2 else (np.array(scf) if len(scf) > 1 else scf[0])
        if all(Fraction(s).denominator == 1 for s in sc) and how == 2:
            scales = np.array([int(Fraction(s)) for s in sc])
        kw = {} if method is None else dict(method=method)
        if period != 1.0 or seed % 2:
            kw["sampling_period"] = period
        if not (ax == -1 and seed % 2):
            kw["axis"] = ax
        copy = np.array(x, copy=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out, fr = pywt.cwt(data, scales, name, **kw)
            wantf = [pywt.scale2frequency(w, s, 10) / LD(period) for s in scf]
        if dt != "list" and copy.tobytes() != x.tobytes():
            raise AssertionError("input modified")
        idt = {"f2": "float32", "i4": "float64", "u1": "float64", "list": "float64"}.get(dt) or str(np.dtype(DT[dt]))
        single = idt in ("float32", "complex64")
        eps = LD(2) ** (-23 if single or wdt == "f4" else -52)
        rec = dict(op="cwt", N=list(shape), M=list(out.shape), scales=len(sc), err=0, idt=idt, odt=str(out.dtype), cplx=bool(w.complex_cwt),
                   nf=int(np.size(fr)) if np.ndim(fr) == 1 else -1, ferr=0)
        if rec["nf"] == len(sc):
            rec["ferr"] = units(np.abs(fr.astype(LD) - np.array(wantf)) / np.array(wantf), LD(2) ** -52)
        if rec["M"] != [len(sc)] + list(shape):
            return rec
        X = np.moveaxis(np.asarray(x), ax, -1).astype(CLD if np.iscomplexobj(x) else LD)
        N = X.shape[-1]
        G = np.conj(gi) if cplx else gi
        G = G.astype(CLD if cplx else LD)
        D = np.abs(np.diff(G, append=G[-1:])) + np.abs(np.diff(G, prepend=G[:1]))     # neighbours differ by at most this
        worst = 0
        for k, q in enumerate(cwt_req(it)):
            j, amb, off, small = OT._T[OT.key(q)]
            g, dg = G[j][::-1], (D[j] * amb)[::-1]
            L = len(g)
            # coefficient n: sum_m x[m] (g[off+n+1-m] - g[off+n-m])
            def toeplitz(v):
                pad = np.concatenate([np.zeros(N + 1, v.dtype), v, np.zeros(N + 1, v.dtype)])
                idx = off + np.arange(N)[:, None] - np.arange(N)[None, :]
                return np.where((idx + 1 >= 0) & (idx + 1 < L), pad[np.clip(idx + 1, -N - 1, L + N) + N + 1], 0), np.where((idx >= 0) & (idx < L), pad[np.clip(idx, -N - 1, L + N) + N + 1], 0)
            p, m_ = toeplitz(g)
            want = -np.sqrt(LD(Fraction(sc[k]).numerator) / Fraction(sc[k]).denominator) * (X @ (p - m_).T)
            ap, am = toeplitz(np.abs(g))
            rs = np.sqrt(LD(scf[k]))
            mag = rs * (np.abs(X) @ (ap + am).T)
            ddp, ddm = toeplitz(dg)
            extra = rs * (np.abs(X) @ (ddp + ddm).T)
            if method == "fft":
                nn = np.sqrt((np.abs(X) ** 2).sum(-1, keepdims=True)) * np.sqrt((np.abs(g) ** 2).sum())
                unit = 2 * eps * rs * nn * np.log2(L + N + 2) + eps * mag
            else:
                unit = eps * (min(N, L) + 6) * mag
            unit = unit + extra / 4 + LD(10) ** (-33 if single else -290)
            got = np.moveaxis(out[k], ax, -1).astype(CLD)
            worst = max(worst, units(np.abs(got - want), unit))
        rec["err"] = worst
        return rec
    measured(chk, one, items, "continuous transforms against the correlation")

    # together = one by one, any order; linear; per lane
    items = [c_cwt(rng) for _ in range(pick(260, 2000))]

    def rel(it):
        n, b, sc, dt, shape, ax, method, wdt, period, seed = it
        r = np.random.default_rng(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = pywt.ContinuousWavelet(n, DT[wdt])
            if b:
                w.lower_bound, w.upper_bound = b
            dtt = np.complex128 if dt in ("c16", "c8") else np.float64
            x = rsig(r, shape, dtt)
            y = rsig(r, shape, dtt)
            scf = [float(Fraction(s)) for s in sc]
            kw = dict(axis=ax, method=method or "conv", sampling_period=period)
            T, f = pywt.cwt(x, scf, w, **kw)
            perm = r.permutation(len(scf))
            T2, f2 = pywt.cwt(x, [scf[k] for k in perm], w, **kw)
            one_ = [pywt.cwt(x, s, w, **kw) for s in scf]
            other = pywt.cwt(x, scf, w, axis=ax, method="fft" if method != "fft" else "conv", sampling_period=period)[0]
            U = pywt.cwt(y, scf, w, **kw)[0]
            V = pywt.cwt(2 * x - 3 * y, scf, w, **kw)[0]
            Rr = pywt.cwt(x.real, scf, w, **kw)[0]
            Ri = pywt.cwt(x.imag, scf, w, **kw)[0] if dtt is np.complex128 else None
            lane = pywt.cwt(np.moveaxis(x, ax, -1).reshape(-1, x.shape[ax])[0], scf, w, method=method or "conv")[0]
        out = []
        same = lambda a, b_: bool(a.shape == b_.shape and a.dtype == b_.dtype and a.tobytes() == b_.tobytes())
        out.append(dict(op="exact", eq=same(T2, np.ascontiguousarray(T[perm])) and same(f2, f[perm])))
        out.append(dict(op="exact", eq=all(same(np.ascontiguousarray(T[k]), np.ascontiguousarray(o[0][0])) and o[1].shape == (1,) and o[1][0] == f[k] for k, o in enumerate(one_))))
        N = x.shape[ax]
        L = int(max(scf) * (w.upper_bound - w.lower_bound)) + 3
        gmax = float(np.abs(pywt.integrate_wavelet(w, 10)[0]).max())
        unit = 2.0 ** -52 * np.sqrt(max(scf)) * gmax * min(N, L) ** .5 * np.sqrt(L) * 8 * max(1, float(np.sqrt((np.abs(x) ** 2 + np.abs(y) ** 2).sum(ax).max()))) * np.log2(L + N + 2)
        cmpm = lambda a, b_, k=1: out.append(dict(op="same", N=list(a.shape), M=list(b_.shape), err=units(np.abs(a - b_), unit * k) if a.shape == b_.shape else 0))
        cmpm(T, other)
        cmpm(V, 2 * T - 3 * U, 6)
        if Ri is not None:
            cmpm(T, Rr + 1j * Ri)
        ref = np.moveaxis(T, 0, 0)
        ref = np.moveaxis(T, (ax if ax >= 0 else ax + x.ndim) + 1, -1).reshape(len(scf), -1, N)[:, 0]
        cmpm(ref, lane)
        return out
    measured(chk, rel, items, "scales together or apart, both methods, linearity, lanes")
