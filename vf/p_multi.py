"""C04-C08: multilevel, n-dimensional and fully separable transforms, containers."""
from registry import prop
from gen import *
from p_dwt import rng_for, NAMES, DTS, rsig, is_single, measured, WTOL
import mc

RMODES = [m for m in MODES]


# ------------------------------------------------------------------ operations
def sl2(s, n):
    """a slice as [lo, hi) of an axis of n elements"""
    lo, hi, st = s.indices(n)
    if st != 1:
        raise NotInt(f"slice with step {st}")
    return [lo, max(lo, hi)]


def rects(sl, shape):
    return [sl2(s, n) for s, n in zip(sl, shape)]


def give(cs, fmt, tup=False):
    """n-form list -> the container of that transform"""
    if fmt in ("wavedec", "swt"):
        return [cs[0]] + [D["d"] for D in cs[1:]]
    if fmt in ("wavedec2", "swt2"):
        return [cs[0]] + [((D["da"], D["ad"], D["dd"]) if not tup else [D["da"], D["ad"], D["dd"]]) for D in cs[1:]]
    return cs


def take(cs, fmt):
    if fmt in ("wavedec", "swt"):
        if any(not isinstance(d, np.ndarray) for d in cs[1:]):
            raise NotInt("not the wavedec format")
        return [cs[0]] + [dict(d=d) for d in cs[1:]]
    if fmt in ("wavedec2", "swt2"):
        if any(not isinstance(d, tuple) for d in cs[1:]):
            raise NotInt("not the wavedec2 format")
        return [cs[0]] + [dict(da=h, ad=v, dd=d) for h, v, d in cs[1:]]
    if any(not isinstance(d, dict) for d in cs[1:]):
        raise NotInt("not the wavedecn format")
    return cs


def iota(a, like):
    t = np.result_type(a, like) if like.dtype.kind == "c" or a.dtype.itemsize > 2 else float
    o = np.arange(1, a.size + 1).reshape(a.shape).astype(t)
    return o * (1 + 1j) if o.dtype.kind == "c" else o


def axkw(c):
    return {} if c.get("noaxes") else dict(axes=c["axes"] if c.get("axlist") else tuple(c["axes"]))


def unmix(c, was, out):
    """as complex as what was given, where nothing of it stayed complex"""
    if not c.get("mix") or was[0].dtype.kind != "c":
        return out

    def one(a):
        return a.astype(complex) if isinstance(a, np.ndarray) and a.dtype.kind in "fi" else a
    return {k: [one(v[0])] + [{q: one(u) for q, u in d.items()} for d in v[1:]] if isinstance(v, list) and isinstance(v[0], np.ndarray) else one(v) for k, v in out.items()}


def remix(c, cs):
    """the arrays of the list in types of their own; a complex array without imaginary part may become real"""
    m = c.get("mix")
    if not m:
        return cs
    k = itertools.count()

    def one(a):
        t = m[next(k) % len(m)]
        if a.dtype.kind == "c" and np.dtype(t).kind != "c":
            return a.real.astype(t) if not np.any(a.imag) else a
        return a.astype(t)
    return [one(cs[0])] + [{key: one(v) for key, v in d.items()} for d in cs[1:]]


@op("pack")
def _(c, i):
    was, i = i["c"], dict(i, c=remix(c, i["c"]))
    given = give(i["c"], c["fmt"], c.get("tup"))
    kw = axkw(c)
    if not c.get("defpad"):
        kw["padding"] = None if c["nopad"] else c["padding"]
    try:
        arr, sl = pywt.coeffs_to_array(given, **kw)
    except ValueError:
        if c["nopad"]:
            return dict(refused=True)
        raise
    rs = [rects(sl[0], arr.shape)] + [{k: rects(s, arr.shape) for k, s in d.items()} for d in sl[1:]]
    fkw = {} if c["fmt"] == "wavedecn" and c.get("deffmt") else dict(output_format=c["fmt"])
    back = take(pywt.array_to_coeffs(arr, sl, **fkw), c["fmt"])
    other = take(pywt.array_to_coeffs(iota(arr, was[0]), sl, **fkw), c["fmt"])
    return unmix(c, was, dict(arr=arr, sl=rs, back=back, other=other))


@op("ravel")
def _(c, i):
    was, i = i["c"], dict(i, c=remix(c, i["c"]))
    given = give(i["c"], c["fmt"], c.get("tup"))
    v, sl, shp = pywt.ravel_coeffs(given, **axkw(c))
    rs = [sl2(sl[0], v.size)] + [{k: sl2(s, v.size) for k, s in d.items()} for d in sl[1:]]
    sh = [list(shp[0])] + [{k: list(s) for k, s in d.items()} for d in shp[1:]]
    f = c["fmt"]
    fkw = {} if f == "wavedecn" and c.get("deffmt") else dict(output_format=f)
    return unmix(c, was, dict(vec=v, sl=rs, shp=sh, back=take(pywt.unravel_coeffs(v, sl, shp, **fkw), f),
                              other=take(pywt.unravel_coeffs(iota(v, was[0]), sl, shp, **fkw), f)))


def shp_of(cs):
    f = lambda x: [int(v) for v in x]
    return [f(cs[0])] + [{k: f(v) for k, v in d.items()} for d in cs[1:]]


@op("shapes")
def _(c, i):
    kw = lev(c)
    kw.update(axkw(c))
    w = wav(c)
    sh = pywt.wavedecn_shapes(tuple(c["shape"]), w, mod(c), **kw)
    cs = pywt.wavedecn(np.zeros(c["shape"]), w, mod(c), **kw)
    real = [cs[0].shape] + [{k: v.shape for k, v in d.items()} for d in cs[1:]]
    return dict(shapes=shp_of(sh), size=int(pywt.wavedecn_size(sh)), real=shp_of(real), rsize=int(pywt.wavedecn_size(cs)))


def fs_make(c, x):
    lv = c["levels"]
    f = c.get("lform")
    kw = {}
    if f == "none" or f == "default":
        if f == "none":
            kw = dict(levels=None)
    elif f == "scalar":
        kw = dict(levels=lv[0])
    elif f == "mixed":
        kw = dict(levels=[None if v < 0 else v for v in lv])
    else:
        kw = dict(levels=tuple(lv) if f == "tuple" else list(lv))
    if not c.get("noaxes"):
        kw["axes"] = tuple(c["axes"]) if not c.get("axlist") else list(c["axes"])
    return pywt.fswavedecn(x, wav(c), mod(c), **kw)


@op("fswavedecn")
def _(c, i):
    r = fs_make(c, i["x"])
    nd = r.coeffs.ndim
    ax = [int(a) % nd for a in r.axes]
    sl = [[sl2(s, r.coeffs.shape[a]) for s in ss] for a, ss in zip(ax, r.coeff_slices)]
    keys = list(itertools.product(*(range(l + 1) for l in r.levels)))
    same = r.wavelet_names == [b.name for b in c["banks"]] and [w.filter_bank for w in r.wavelets] == [b.wavelet().filter_bank for b in c["banks"]]
    return dict(arr=r.coeffs, sl=sl, levels=[int(l) for l in r.levels], keys=[[int(v) for v in k] for k in r.detail_keys()],
                approx=r.approx, blocks=[r[k] for k in keys], modes=list(r.modes), axes=ax, nd=[int(r.ndim), int(r.ndim_transform)], same=bool(same))


@op("fswaverecn")
def _(c, i):
    r = fs_make(c, np.zeros(c["shape0"]))
    r.coeffs = np.asarray(i["c"])
    return dict(y=pywt.fswaverecn(r))


@op("fsobj")
def _(c, i):
    r = fs_make(c, np.zeros(c["shape0"]))
    r.coeffs = np.array(i["c"])
    res = []
    for st in i["steps"]:
        k = st["k"]
        try:
            if k == "get":
                res.append(np.array(r[tuple(st["key"])]))
            elif k == "getapprox":
                res.append(np.array(r.approx))
            elif k == "coeffs":
                res.append(np.array(r.coeffs))
            elif k == "set":
                r[tuple(st["key"])] = st["x"]
                res.append(dict(done=True))
            elif k == "setapprox":
                r.approx = st["x"]
                res.append(dict(done=True))
            else:
                r.coeffs = np.array(st["x"])
                res.append(dict(done=True))
        except ValueError:
            res.append(dict(rejected=True))
    return dict(res=res, arr=np.array(r.coeffs))


@op("prm")
def _(c, i):
    """multilevel round trip of the kind c['kind']"""
    k = c["kind"]
    w, m = wav(c), mod(c)
    kw = dict(axes=tuple(c["axes"]))
    L = c["level"]
    if k == "1":
        y = pywt.waverec(pywt.wavedec(i["x"], W1(c), c["modes"][0], level=L, axis=c["axes"][0]), W1(c), c["modes"][0], axis=c["axes"][0])
    elif k == "2":
        y = pywt.waverec2(pywt.wavedec2(i["x"], w, m, level=L, **kw), w, m, **kw)
    elif k == "n":
        y = pywt.waverecn(pywt.wavedecn(i["x"], w, m, level=L, **kw), w, m, **kw)
    elif k == "d":
        y = pywt.idwtn(pywt.dwtn(i["x"], w, m, **kw), w, m, **kw)
    elif k == "d2":
        y = pywt.idwt2(pywt.dwt2(i["x"], w, m, **kw), w, m, **kw)
    else:
        y = pywt.fswaverecn(pywt.fswavedecn(i["x"], w, m, levels=c["levels"], **kw))
    return dict(y=y)


# ------------------------------------------------------------------ generators
def splits_ok(N, F, mode, L):
    return mode not in ("reflect", "antireflect") or all(z >= 2 for z in [N] + coeff_sizes(N, F, mode, L)[:-1]) or L == 0


def c_prm(rng, shape, axes, level, kind, levels=None, banks=None):
    rank = len(shape)
    lv = levels or [level] * len(axes)
    given = banks
    for _ in range(20):
        if given:
            banks = given
            modes = [MODES[rng.integers(9)] for _ in axes]
        elif rng.random() < .5:
            banks = [PRD[rng.integers(len(PRD))] for _ in axes]
            modes = [MODES[rng.integers(9)] for _ in axes]
        else:
            banks = [PRD[rng.integers(len(PRD))]] * len(axes)
            modes = [MODES[rng.integers(9)]] * len(axes)
        if not all(splits_ok(shape[a], b.F, m, l) for a, b, m, l in zip(axes, banks, modes, lv)):
            continue
        sh = sum(l * (b.ds + b.rs) for b, l in zip(banks, lv))
        lim = 3
        g = 2.0 ** sh * lim
        for b, m, a, l in zip(banks, modes, axes, lv):
            for _ in range(l):
                g *= max(1, b.gain("d") / 2 ** b.ds) * extgrow(m, shape[a], b.F)
        if g * max(b.gain("d") for b in banks) < 2 ** 45 and 2 ** sh * lim < 2 ** 30:
            break
    else:
        return None
    x = ints(rng, shape, lim, "f8") * 2 ** sh
    dts = ["f8", "c16", "i8", "g"] + (["f4", "c8"] if g * 64 < 2 ** 22 else [])
    dt = dts[rng.integers(len(dts))]
    if dt in ("c16", "c8"):
        x = x + 1j * ints(rng, shape, lim, "f8") * 2 ** sh
    c = dict(op="prm", specop="pr", kind=kind, gain=1, banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), level=level,
             var=dict(dt=dt, lay=["C", "F", "step", "T"][rng.integers(4)]), **{"in": dict(x=x)})
    if levels:
        c["levels"] = list(levels)
    return c


def c_rep(rng, shape, inverse=False, op2=False):
    """repeated axes (allowed for the single-level n-D transforms: the transform is applied again)"""
    rank = len(shape)
    n = 2 if op2 else int(rng.integers(2, 4))
    a0 = int(rng.integers(rank))
    axes = [a0] + [int(rng.integers(rank)) for _ in range(n - 2)] + [a0]
    banks = [rand_bank(rng, int(rng.choice([2, 4])), 2) for _ in axes]
    modes = [["zero", "symmetric", "periodic", "constant", "periodization", "antisymmetric"][rng.integers(6)] for _ in axes]
    if not inverse:
        var = dict(dt="f8", lay="C")
        return dict(op="dwt2" if op2 else "dwtn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=var, wform="tuple", mform="list",
                    **{"in": dict(x=ints(rng, shape, 3))})
    modes = ["periodization"] * len(axes)
    keys = ["".join(k) for k in itertools.product("ad", repeat=n)]
    i = {k: ints(rng, shape, 3) for k in keys if rng.random() < .7}
    if not i:
        i[keys[0]] = ints(rng, shape, 3)
    if op2:
        i = {{"aa": "cA", "da": "cH", "ad": "cV", "dd": "cD"}[k]: v for k, v in i.items()}
    return dict(op="idwt2" if op2 else "idwtn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=dict(dt="f8", lay="C"), wform="tuple",
                mform="list", **{"in": i})


# ------------------------------------------------------------------ measured round trips of built-in wavelets
def amp(w):
    return max(np.abs(w.rec_lo).sum() + np.abs(w.rec_hi).sum(), 1.0)


def flat(cs):
    for c in cs:
        if isinstance(c, dict):
            yield from c.values()
        elif isinstance(c, (tuple, list)):
            yield from c
        else:
            yield c


def rt_record(n, m, shape, axes, levels, dt, seed, kind):
    """names/modes per axis; one record for spec/MeasureTrace"""
    r = np.random.default_rng(seed)
    ws = [pywt.Wavelet(v) for v in n]
    x = rsig(r, shape, dt)
    nt, mt = tuple(n), tuple(m)
    if kind == "1":
        cs = pywt.wavedec(x, n[0], m[0], level=levels[0], axis=axes[0])
        y = pywt.waverec(cs, ws[0], m[0], axis=axes[0])
    elif kind == "2":
        cs = pywt.wavedec2(x, nt, mt, level=levels[0], axes=axes)
        y = pywt.waverec2(cs, nt, mt, axes=axes)
    elif kind == "n":
        cs = pywt.wavedecn(x, nt, mt, level=levels[0], axes=axes)
        y = pywt.waverecn(cs, nt, mt, axes=axes)
    elif kind == "d":
        cs = pywt.dwtn(x, nt, mt, axes=axes)
        y = pywt.idwtn(cs, nt, mt, axes=axes)
        cs = [cs]
    else:
        f = pywt.fswavedecn(x, nt, mt, levels=levels, axes=axes)
        cs = [f.coeffs]
        y = pywt.fswaverecn(f)
    big = max([float(np.abs(c).max()) for c in flat(cs) if c.size] + [float(np.abs(x).max()), 1e-3])
    A = 1.0
    T = 0.0
    steps = 0
    for w, l, nm in zip(ws, levels, n):
        A *= amp(w) ** l
        steps += l
        T += l * (2.0 ** -23 if is_single(dt) else 2.0 ** -52) * (w.dec_len + 4) + l * 2 * WTOL.get(nm, 0)
    unit = max(T, 1e-300) * A * big if steps else 1e-300
    sl = tuple(slice(0, k) for k in x.shape)
    ok = all(p >= q for p, q in zip(y.shape, x.shape))
    err = float(np.abs(y[sl] - x).max()) if ok else float("inf")
    u = int(min(1e6, np.ceil(err / unit * 100))) if np.isfinite(err) else 10 ** 6
    return dict(op="rec", N=list(x.shape), M=list(y.shape), axes=[a % x.ndim for a, l in zip(axes, levels) if l], levels=max(levels),
                err=u, odt=str(y.dtype), idt=str(np.dtype(dt)))


def rt_items(rng, kinds, count, maxrank=3):
    items = []
    for k in range(count):
        kind = kinds[k % len(kinds)]
        rank = 1 if kind == "1" and rng.random() < .6 else int(rng.integers(2, maxrank + 1)) if kind != "1" else 2
        nax = 1 if kind == "1" else 2 if kind == "2" else int(rng.integers(1, rank + 1))
        hi = {1: 200, 2: 40, 3: 14, 4: 7, 5: 4, 6: 4}[rank]
        shape = tuple(int(v) for v in rng.integers(1, hi, rank))
        axes = [int(v) for v in rng.permutation(rank)[:nax]]
        nm = [NAMES[rng.integers(len(NAMES))] for _ in range(nax)]
        ms = [MODES[rng.integers(9)] for _ in range(nax)]
        top = {1: 5, 2: 3, 3: 2, 4: 1, 5: 1, 6: 1}[nax]
        if kind == "d":
            lv = [1] * nax
        elif kind == "f":
            lv = [int(v) for v in rng.integers(0, top + 1, nax)]
        else:
            lv = [int(rng.integers(0, top + 1))] * nax
        ms = ["symmetric" if not splits_ok(shape[a], pywt.Wavelet(w).dec_len, m, l) else m for a, w, m, l in zip(axes, nm, ms, lv)]
        dt = DTS[rng.integers(4)] if sum(lv) <= 4 else DTS[rng.choice([0, 2])]
        items.append((nm, ms, shape, axes_sign(rng, axes, rank), lv, dt, int(rng.integers(1 << 30)), kind))
    return items


def rt_big(rng, kind, count):
    """many levels, long and wide arrays"""
    items = []
    for _ in range(count):
        L = int(rng.integers(5, 10))
        N = int(rng.integers(2 ** L, 2 ** (L + 2)))
        rank = 1 if kind == "1" else 2
        shape = (N,) if rank == 1 else ((N, int(rng.integers(1, 4))) if rng.random() < .5 else (int(rng.integers(1, 4)), N))
        axes = [0] if rank == 1 else [0, 1] if kind == "2" or rng.random() < .3 else [int(np.argmax(shape))]
        if len(axes) > 1:
            L = int(rng.integers(0, 3))
        short = [n for n in NAMES if pywt.Wavelet(n).dec_len <= 12]
        nm = [short[rng.integers(len(short))] for _ in axes]
        ms = [[m for m in MODES if m not in ("smooth", "antireflect", "reflect")][rng.integers(6)] for _ in axes]
        items.append((nm, ms, shape, axes_sign(rng, axes, rank), [1 if kind == "d" else L] * len(axes), DTS[rng.choice([0, 2])], int(rng.integers(1 << 30)), kind))
    return items


def round_trips(chk, items, name="built-in round trips"):
    measured(chk, lambda it: rt_record(*it), items, name)


# ------------------------------------------------------------------ C04
@prop("C04")
def c04(chk):
    mc.wave_model(chk)
    rng = rng_for(chk)
    cs = []
    for F in (2, 4, 6, 8, 10):
        for m in MODES:
            for N in {int(v) for v in rng.integers(1, 60, pick(4, 14))} | {F - 1, F, 2 * F - 1} - {0}:
                L = int(rng.integers(0, 6 if F <= 4 else 4))
                cs.append(c_wavedec(rng, (N,), 0, L, rand_bank(rng, F, 1 if L > 2 else 2), m))
                cs.append(c_waverec(rng, (N,), 0, L, rand_bank(rng, F, 1), m))
    for _ in range(pick(120, 900)):      # default level
        F = int(rng.choice([2, 4, 6, 8, 12]))
        N = int(rng.integers(1, 70))
        m = MODES[rng.integers(9)]
        cs.append(c_wavedec(rng, (N,), 0, maxlev(N, F), rand_bank(rng, F, 1), m, default=True))
    for F in [GIANT_F[k] for k in rng.integers(len(GIANT_F), size=pick(12, 80))]:
        N, L = int(rng.integers(1, 300)), int(rng.integers(1, 3))
        cs.append(c_wavedec(rng, (N,), 0, L, rand_bank(rng, F, 1), ["zero", "symmetric", "periodic", "periodization", "constant", "smooth"][rng.integers(6)]))
        cs.append(c_waverec(rng, (N,), 0, L, rand_bank(rng, F, 1), ["zero", "periodization"][rng.integers(2)]))
    for _ in range(pick(200, 1500)):     # along an axis
        rank = int(rng.integers(2, 4))
        s = rshape(rng, rank, 1, 12, 200)
        ax = int(rng.integers(rank))
        F = int(rng.choice([2, 4, 6]))
        L = int(rng.integers(0, 4))
        m = MODES[rng.integers(9)]
        cs.append(c_wavedec(rng, s, ax, L, rand_bank(rng, F, 1), m, default=False))
        cs.append(c_waverec(rng, s, ax, L, rand_bank(rng, F, 1), m))
    for N in list(range(1, pick(70, 300))) + [127, 128, 129, 1000, 4095, 4096, 10 ** 6, 2 ** 30]:
        for F in {2, 4, 8, int(rng.integers(2, 60)), int(rng.integers(2, 110))}:
            cs.append(dict(op="maxlevel", n=N, F=F, obj=F % 2 == 0 and bool(rng.integers(2))))
    # exact multilevel round trips
    for m in MODES:
        for b in PRD:
            for N in {int(v) for v in rng.integers(1, 50, pick(3, 12))}:
                for L in (0, 1, 2, 3):
                    if splits_ok(N, b.F, m, L):
                        c = c_prm(rng, (N,), [0], L, "1")
                        if c:
                            if splits_ok(N, b.F, m, L):
                                c["banks"], c["modes"] = [b], [m]
                                c["in"] = dict(x=ints(rng, (N,), 3, "f8") * 2 ** (L * (b.ds + b.rs)))
                                c["var"] = dict(dt="f8", lay="C")
                            cs.append(c)
    for _ in range(pick(80, 500)):
        rank = int(rng.integers(1, 4))
        s = rshape(rng, rank, 1, 14, 220)
        cs.append(c_prm(rng, s, [int(rng.integers(rank))], int(rng.integers(0, 4)), "1"))
    with thin():         # many levels
        for N, L in deep_sizes(rng, pick(60, 300), 5, 11):
            F = int(rng.choice([2, 4, 6]))
            s, ax = [((N,), 0), ((N,), 0), ((N, 2), 0), ((3, N), 1)][rng.integers(4 if N < 700 else 2)]
            cs.append(c_wavedec(rng, s, ax, L, rand_bank(rng, F), MODES[rng.integers(9)]))
            for _ in range(3):
                cs.append(c_waverec(rng, s, ax, L, rand_bank(rng, F), MODES[rng.integers(9)], pnone=.05))
        for F in (2, 4, 6, 8):
            N = int(rng.integers(600, 3000))
            cs.append(c_wavedec(rng, (N,), 0, maxlev(N, F), rand_bank(rng, F), ["zero", "symmetric", "periodic", "periodization", "constant"][rng.integers(5)], default=True))
    for N, L in deep_sizes(rng, pick(20, 100), 5, 10):
        cs.append(c_prm(rng, (N,), [0], L, "1", banks=[PRD[0]]))
    for s, ax in (((300, 9), 1), ((9, 300), 0), ((3, 8, 270), 1), ) + pick((), (((70000, 3), 1), ((3, 70000), 0))):
        with thin():
            L = int(rng.integers(1, 4))
            cs.append(c_wavedec(rng, s, ax, L, rand_bank(rng, 2), "symmetric"))
            cs.append(c_waverec(rng, s, ax, L, rand_bank(rng, 2), "periodic"))
    cs += mixed(rng, cs)
    validate(chk, [c for c in cs if c], "integer-exact wavedec/waverec")
    items = rt_items(rng, ["1"], pick(500, 4000)) + rt_big(rng, "1", pick(40, 400))
    for n in NAMES:
        m = MODES[rng.integers(7)]
        if m in ("reflect", "antireflect"):
            m = "zero"
        items.append(([n], [m], (int(rng.integers(2, 300)),), [0], [int(rng.integers(1, 5))], DTS[rng.integers(0, 4)], int(rng.integers(1 << 30)), "1"))
    round_trips(chk, items)


# ------------------------------------------------------------------ C05
def shapes_nd(rng, count, ranks=(1, 2, 3, 4)):
    out = []
    for _ in range(count):
        rank = int(rng.choice(ranks))
        out.append(rshape(rng, rank, 1, {1: 20, 2: 9, 3: 6, 4: 4, 5: 3, 6: 2, 7: 2}[rank], 160))
    return out


WIDE = [(300, 2), (2, 300), (1, 520), (260, 3), (3, 260, 1), (2, 2, 270), (270, 1, 2), (1030,)]


@prop("C05")
def c05(chk):
    mc.nd_model(chk)
    rng = rng_for(chk)
    cs = []
    for s in shapes_nd(rng, pick(500, 3500)):
        cs.append(c_dwtn(rng, s))
        cs.append(c_idwtn(rng, s))
        if len(s) >= 2:
            cs.append(c_dwtn(rng, s, op2=True))
            cs.append(c_idwtn(rng, s, op2=True))
    for s in shapes_nd(rng, pick(60, 400), (1, 2, 3)):
        cs.append(c_rep(rng, s))
        cs.append(c_rep(rng, s, inverse=True))
        if len(s) > 1:
            cs.append(c_rep(rng, s, op2=True))
            cs.append(c_rep(rng, s, inverse=True, op2=True))
    for s in shapes_nd(rng, pick(150, 900)):
        rank = len(s)
        nax = int(rng.integers(1, rank + 1))
        axes = [int(v) for v in rng.permutation(rank)[:nax]]
        cs.append(c_prm(rng, s, axes, 1, "d"))
        if nax == 2:
            cs.append(c_prm(rng, s, axes, 1, "d2"))
    with thin():
        for s in shapes_nd(rng, pick(40, 300), (5, 6, 7)) + WIDE * pick(2, 10) + pick([], [(66000, 3), (3, 66000)]):
            cs.append(c_dwtn(rng, s))
            cs.append(c_idwtn(rng, s))
            if len(s) >= 2:
                op2 = s if max(s) < 6000 else (max(s) // 5, 5)
                cs.append(c_dwtn(rng, op2, op2=True))
                cs.append(c_idwtn(rng, op2, op2=True))
    cs += mixed(rng, cs)
    validate(chk, [c for c in cs if c], "integer-exact n-D transforms")
    round_trips(chk, rt_items(rng, ["d"], pick(250, 2500), 4) + rt_items(rng, ["d"], pick(40, 300), 6) + rt_big(rng, "d", pick(20, 200)))


# ------------------------------------------------------------------ C06
@prop("C06")
def c06(chk):
    mc.wave_model(chk)
    rng = rng_for(chk)
    cs = []
    for s in shapes_nd(rng, pick(420, 3000)):
        L = int(rng.integers(0, {1: 5, 2: 4, 3: 3, 4: 3}[len(s)]))
        cs.append(c_wavedecn(rng, s, L))
        cs.append(c_waverecn(rng, s, L))
        if len(s) >= 2:
            cs.append(c_wavedecn(rng, s, L, kind="2"))
            cs.append(c_waverecn(rng, s, L, kind="2"))
    for s in shapes_nd(rng, pick(120, 800)):
        cs.append(c_wavedecn(rng, s, 0, default=True))
        if len(s) >= 2:
            cs.append(c_wavedecn(rng, s, 0, kind="2", default=True))
    for _ in range(pick(20, 100)):        # larger default levels
        s = (int(rng.integers(8, 20)), int(rng.integers(8, 20)))
        cs.append(c_wavedecn(rng, s, 0, kind=["2", "n"][rng.integers(2)], default=True))
    for _ in range(pick(250, 1500)):
        rank = int(rng.integers(1, 5))
        n = int(rng.integers(1, rank + 1))
        sh = [int(v) for v in rng.integers(1, 300, rank)]
        axes = [int(v) for v in rng.permutation(rank)[:n]]
        lens = [int(rng.choice([1, 2, 3, 4, 5, 8, 10, 20, 38])) * 2 for _ in range(n)]
        if rng.random() < .3:
            lens = [lens[0]] * n
        c = dict(op="maxleveln", shape=sh, axes=axes_sign(rng, axes, rank), lens=lens)
        if axes == list(range(rank)):
            c["noaxes"] = True
        cs.append(c)
    for s in shapes_nd(rng, pick(150, 900)):
        rank = len(s)
        nax = int(rng.integers(1, rank + 1))
        axes = [int(v) for v in rng.permutation(rank)[:nax]]
        L = int(rng.integers(0, 4 if nax < 3 else 2))
        cs.append(c_prm(rng, s, axes, L, "n"))
        if nax == 2:
            cs.append(c_prm(rng, s, axes, L, "2"))
    with thin():
        for s in shapes_nd(rng, pick(20, 150), (5, 6)) + WIDE * pick(2, 8):
            L = int(rng.integers(1, 3))
            cs.append(c_wavedecn(rng, s, L))
            cs.append(c_waverecn(rng, s, L))
            if len(s) >= 2:
                cs.append(c_wavedecn(rng, s, L, kind="2"))
                cs.append(c_waverecn(rng, s, L, kind="2"))
        for _ in range(pick(12, 80)):        # many levels, of one axis or of square arrays
            L = int(rng.integers(5, 9))
            N = 2 ** L + int(rng.integers(-2, 3))
            cs.append(c_wavedecn(rng, (N,), L))
            cs.append(c_waverecn(rng, (N,), L, pnone=.05))
            M = 32 + int(rng.integers(-3, 4))
            for kind in "2n":
                cs.append(c_wavedecn(rng, (32, M), 5, kind=kind))
                cs.append(c_waverecn(rng, (M, 32), 5, kind=kind, pnone=.05))
    cs += mixed(rng, cs)
    validate(chk, [c for c in cs if c], "integer-exact wavedecn/waverecn")
    round_trips(chk, rt_items(rng, ["2", "n"], pick(300, 2500), 4) + rt_items(rng, ["n"], pick(30, 200), 6) + rt_big(rng, "2", pick(10, 100)) + rt_big(rng, "n", pick(20, 200)))


# ------------------------------------------------------------------ C07
def c_pack(rng, rank, kind, big=None):
    """a coefficient list with the shapes wavedecn gives (predicted by dlen), arbitrary contents"""
    shape = rshape(rng, rank, 1, {1: 30, 2: 9, 3: 6, 4: 4, 5: 3, 6: 2}[rank], 150)
    big = big or 0
    if big:
        shape = (int(rng.integers(2 ** big, 2 ** (big + 1))),) if rank == 1 else (32 + int(rng.integers(3)), 32) if rank == 2 else shape
    fmt = {1: ["wavedec", "wavedecn"], 2: ["wavedec2", "wavedecn"]}.get(rank, ["wavedecn"])
    fmt = fmt[rng.integers(len(fmt))]
    n = rank if fmt != "wavedecn" else int(rng.integers(1, rank + 1))
    if fmt == "wavedecn" and rank > 2 and rng.random() < .3:
        n = 2
        if rng.random() < .4:
            fmt = "wavedec2"
    axes = [int(v) for v in rng.permutation(rank)[:n]]
    L = big if big else int(rng.integers(0, 4 if n < 5 else 2))
    Fs = [int(rng.choice([2, 4, 6, 10])) for _ in axes]
    ms = [["symmetric", "periodization"][rng.integers(2)] for _ in axes]
    if rng.random() < .35:        # tightly packed
        ms = ["periodization"] * n
        shape = tuple(2 ** L * int(rng.integers(1, 3)) if a in axes else s for a, s in enumerate(shape))
        if np.prod(shape) > 600:
            return None
    if n == rank and axes == sorted(axes) and rng.random() < .7:
        noax = True
    elif n == rank and rng.random() < .3:
        axes = list(range(rank))
        noax = True
    else:
        noax = False
    dt = ["f8", "f4", "c16", "c8", "i8", "i2"][rng.integers(6)]
    lay = ["C", "F", "step", "neg", "T", "ro", "off"][rng.integers(7)]
    sizes = [coeff_sizes(shape[a], F, m, L) for a, F, m in zip(axes, Fs, ms)]

    def shp(j):
        s = list(shape)
        for a, z in zip(axes, sizes):
            s[a] = z[j]
        return tuple(s)
    keys = ["".join(k) for k in itertools.product("ad", repeat=n)][1:]
    if L == 0:
        l = [ints(rng, shape, 50, dt)]
        fmt = "wavedecn"
    else:
        l = [ints(rng, shp(L - 1), 50, dt)]
        for j in range(L - 1, -1, -1):
            l.append({k: ints(rng, shp(j), 50, dt) for k in rng.permutation(keys).tolist()})
    c = dict(op=kind, fmt=fmt, axes=axes_sign(rng, axes, rank), noaxes=noax, axlist=bool(rng.integers(2)), var=dict(dt=dt, lay=lay),
             nopad=False, padding=0, tup=bool(rng.integers(2)), deffmt=bool(rng.integers(2)), F=Fs, **{"in": dict(c=l)})
    if L == 0:
        c["noaxes"] = bool(rng.integers(2))
    if rng.random() < .25:
        c["mix"] = [["i2", "f4", "i8", "f8", "f2", "i1", "c8", "c16"][k] for k in rng.integers(0, 8 if dt[0] == "c" else 6, int(rng.integers(2, 5)))]
        if dt[0] == "c":
            for d in [{"": l[0]}] + l[1:]:
                for v in d.values():
                    if rng.random() < .5:
                        v.imag = 0
    if kind == "pack":
        r = rng.random()
        if r < .3:
            c["nopad"] = True
        elif r < .6:
            c["padding"] = int(rng.integers(-9, 10))
        elif r < .8:
            c["defpad"] = True
    else:
        if fmt == "wavedec" and rng.random() < .4:
            c["fmt"] = "swt"
        elif fmt == "wavedec2" and rng.random() < .4:
            c["fmt"] = "swt2"
        elif rng.random() < .3:
            c["fmt"] = "swtn"
            c["deffmt"] = False
    return c


def c_shapes(rng):
    rank = int(rng.integers(1, 5))
    shape = rshape(rng, rank, 1, {1: 200, 2: 60, 3: 20, 4: 8}[rank], 20000)
    n = int(rng.integers(1, rank + 1))
    axes = [int(v) for v in rng.permutation(rank)[:n]]
    same = rng.random() < .4
    banks = [rand_bank(rng, int(rng.choice([2, 4, 6, 8, 10, 14])), 1) for _ in range(1 if same else n)]
    banks = banks * n if same else banks
    modes = [MODES[rng.integers(9)] for _ in range(n)] if rng.random() < .6 else [MODES[rng.integers(9)]] * n
    default = rng.random() < .4
    L = min(maxlev(shape[a], b.F) for a, b in zip(axes, banks)) if default else int(rng.integers(0, 4))
    modes = ["zero" if not splits_ok(shape[a], b.F, m, L) else m for a, b, m in zip(axes, banks, modes)]
    c = dict(op="shapes", shape=list(shape), banks=banks, lens=[b.F for b in banks], modes=modes, axes=axes_sign(rng, axes, rank),
             level=-1 if default else L, axlist=bool(rng.integers(2)))
    if axes == list(range(rank)):
        c["noaxes"] = bool(rng.integers(2))
    return forms(rng, c)


@prop("C07")
def c07(chk):
    mc.pack_model(chk)
    rng = rng_for(chk)
    cs = []
    for k in range(pick(700, 5000)):
        cs.append(c_pack(rng, int(rng.integers(1, 5)), ["pack", "ravel"][k % 2]))
    for k in range(pick(20, 150)):
        cs.append(c_pack(rng, int(rng.integers(5, 7)), ["pack", "ravel"][k % 2]))
        cs.append(c_pack(rng, 1, ["pack", "ravel"][k % 2], int(rng.integers(5, 10))))
        cs.append(c_pack(rng, 2, ["pack", "ravel"][k % 2], 5))
    for _ in range(pick(500, 3000)):
        cs.append(c_shapes(rng))
    validate(chk, [c for c in cs if c], "packing, slices and predicted shapes")
    # the real transforms' own coefficient lists survive packing, for every format (exact equality of arrays)
    items = [(int(rng.integers(1 << 30)), fmt) for fmt in ("wavedec", "wavedec2", "wavedecn", "swt", "swt2", "swtn") for _ in range(pick(25, 150))]

    def one(it):
        seed, fmt = it
        r = np.random.default_rng(seed)
        w = NAMES[r.integers(len(NAMES))]
        m = MODES[r.integers(7)]
        L = int(r.integers(0 if "wave" in fmt else 1, 4))
        nd = {"wavedec": 1, "swt": 1, "wavedec2": 2, "swt2": 2}.get(fmt) or int(r.integers(1, 4))
        dt = DTS[r.integers(4)]
        if "wave" in fmt:
            shape = tuple(int(v) for v in r.integers(2, {1: 200, 2: 40, 3: 12}[nd], nd))
        else:
            shape = tuple(8 * int(v) for v in r.integers(1, 3, nd))
        x = rsig(r, shape, dt)
        if m in ("reflect", "antireflect"):
            m = "zero"
        if fmt == "wavedec":
            c = pywt.wavedec(x, w, m, L)
        elif fmt == "wavedec2":
            c = pywt.wavedec2(x, w, m, L)
        elif fmt == "wavedecn":
            c = pywt.wavedecn(x, w, m, L)
        else:
            c = dict(swt=pywt.swt, swt2=pywt.swt2, swtn=pywt.swtn)[fmt](x, w, L, trim_approx=True)
        v, sl, shp = pywt.ravel_coeffs(c)
        back = pywt.unravel_coeffs(v, sl, shp, output_format=fmt)
        eq = same_struct(c, back) and v.dtype == x.dtype and v.size == sum(a.size for a in flat(c))
        if "wave" in fmt:
            arr, s2 = pywt.coeffs_to_array(c)
            eq = eq and same_struct(c, pywt.array_to_coeffs(arr, s2, output_format=fmt)) and arr.dtype == x.dtype
        return dict(op="exact", eq=bool(eq), what=f"{fmt} {w} {m} {shape} {L}")
    measured(chk, one, items, "containers of real transforms")


def same_struct(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_struct(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_struct(x, y) for x, y in zip(a, b))
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


# ------------------------------------------------------------------ C08
def c_fs(rng, kind, big=None):
    if big == "deep":
        rank = int(rng.integers(1, 3))
        shape = (int(rng.integers(200, 600)),) if rank == 1 else (int(rng.integers(30, 70)), int(rng.integers(1, 8)))
    elif big == "rank":
        rank = int(rng.integers(5, 7))
        shape = rshape(rng, rank, 1, 3, 100)
    else:
        rank = int(rng.integers(1, 5))
        shape = rshape(rng, rank, 1, {1: 24, 2: 9, 3: 6, 4: 4}[rank], 100)
    axes, banks, modes = nd_params(rng, rank, maxF=4 if rank > 1 else 6)
    if kind == "fswaverecn" and rng.random() < .0:
        return None
    n = len(axes)
    lv = [int(v) for v in rng.integers(0, 4 if rank == 1 else 3, n)]
    if big == "deep":
        lv = [int(rng.integers(5, 8)) if shape[a] > 29 else 1 for a in axes]
    form = ["list", "tuple", "scalar", "none", "mixed", "default"][rng.integers(6)]
    if form == "scalar":
        lv = [lv[0]] * n
    eff = list(lv)
    if form in ("none", "default"):
        lv = [-1] * n
    elif form == "mixed":
        lv = [-1 if rng.random() < .5 else l for l in lv]
    eff = [maxlev(shape[a], b.F) if l < 0 else l for a, b, l in zip(axes, banks, lv)]
    modes = ["zero" if not splits_ok(shape[a], b.F, m, l) else m for a, b, m, l in zip(axes, banks, modes, eff)]
    lim = 3
    g = 1.0
    for a, b, m, l in zip(axes, banks, modes, eff):
        g *= growth([b], [m], [shape[a]], l, "d" if kind == "fswavedecn" else "r")
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    c = dict(op=kind, banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), levels=lv, lform=form, axlist=bool(rng.integers(2)))
    if axes == list(range(rank)):
        c["noaxes"] = bool(rng.integers(2))
    forms(rng, c)
    if kind == "fswavedecn":
        c["var"] = choose_var(rng, g, lim)
        if all(l == 0 for l in eff) and c["var"]["lay"] in ("list", "tuple"):
            c["var"]["lay"] = "C"
        c["in"] = dict(x=ints(rng, shape, lim, c["var"]["dt"]))
        return c
    lens = []
    for a, b, m, l in zip(axes, banks, modes, eff):
        z = coeff_sizes(shape[a], b.F, m, l)
        if m != "periodization" and any(2 * k - b.F + 2 < 1 for k in z):
            return None
        lens.append([z[-1]] + z[::-1] if l else [shape[a]])
    full = list(shape)
    for a, z in zip(axes, lens):
        full[a] = sum(z)
    if np.prod(full) > (2000 if big else 700):
        return None
    c["shape0"] = list(shape)
    c["extra"] = dict(lens=lens)
    if kind == "fswaverecn":
        c["var"] = choose_var(rng, g, lim, lays=["C", "F", "step", "T", "neg"])
        c["in"] = dict(c=ints(rng, full, lim, c["var"]["dt"]))
        return c
    # the result object's history
    c["var"] = dict(dt="f8", lay="C")
    steps = []
    nb = [len(z) for z in lens]

    def blk(key):
        s = list(full)
        for a, z, k in zip(axes, lens, key):
            s[a] = z[k]
        return s
    for _ in range(int(rng.integers(3, 9))):
        r = rng.random()
        key = [int(rng.integers(k)) for k in nb]
        if r < .15:          # invalid index
            bad = list(key)
            w = rng.integers(3)
            if w == 0:
                bad[rng.integers(n)] += 1 + max(nb)
            elif w == 1:
                bad[rng.integers(n)] = -1
            else:
                bad = bad + [0] if rng.random() < .5 else bad[:-1]
            steps.append(dict(k="get", key=bad) if rng.random() < .5 else dict(k="set", key=bad, x=ints(rng, blk(key), 9)))
        elif r < .35:
            steps.append(dict(k="get", key=key))
        elif r < .45:
            steps.append(dict(k="getapprox"))
        elif r < .5:
            steps.append(dict(k="coeffs"))
        elif r < .75:
            s = blk(key)
            if rng.random() < .3:
                s[rng.integers(rank)] += int(rng.integers(1, 3))
            steps.append(dict(k="set", key=key, x=ints(rng, s, 9)))
        elif r < .9:
            s = blk([0] * n)
            if rng.random() < .3:
                s[rng.integers(rank)] += 1
            steps.append(dict(k="setapprox", x=ints(rng, s, 9)))
        else:
            s = list(full)
            if rng.random() < .4:
                s[rng.integers(rank)] += 1
            steps.append(dict(k="setcoeffs", x=ints(rng, s, 9)))
    c["in"] = dict(c=ints(rng, full, 9), steps=steps)
    return c


@prop("C08")
def c08(chk):
    mc.fs_model(chk)
    rng = rng_for(chk)
    cs = []
    for _ in range(pick(500, 3500)):
        cs.append(c_fs(rng, "fswavedecn"))
        cs.append(c_fs(rng, "fswaverecn"))
    for _ in range(pick(300, 2500)):
        cs.append(c_fs(rng, "fsobj"))
    for s in shapes_nd(rng, pick(200, 1200)):
        rank = len(s)
        nax = int(rng.integers(1, rank + 1))
        axes = [int(v) for v in rng.permutation(rank)[:nax]]
        lv = [int(v) for v in rng.integers(0, 3, nax)]
        cs.append(c_prm(rng, s, axes, 1, "f", levels=lv))
    with thin():
        for k in range(pick(40, 250)):
            for kind in ("fswavedecn", "fswaverecn", "fsobj"):
                cs.append(c_fs(rng, kind, ["deep", "rank"][k % 2]))
    validate(chk, [c for c in cs if c], "integer-exact fully separable transform")
    round_trips(chk, rt_items(rng, ["f"], pick(250, 2500), 4) + rt_items(rng, ["f"], pick(25, 200), 6) + rt_big(rng, "f", pick(20, 200)))
