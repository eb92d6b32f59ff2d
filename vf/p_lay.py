"""C21: the same values in every memory layout give the same result, and no call touches what it was given."""
import array, hashlib
from registry import prop
from core import *
from gen import *
import mc, mem
import p_dom
from p_dom import Req, digest, requests
from p_dwt import rng_for, NAMES
from p_multi import c_pack, c_fs
from p_swt import c_swt, c_iswt, c_mra
from p_pad import c_pad


# ------------------------------------------------------------------ requests beyond those of Domain.tla
class Extra:
    def __init__(self, fn, seed):
        r = self.r = np.random.default_rng(seed)
        self.wname = str(r.choice(p_dom.TINY))
        self.shape = tuple(int(v) for v in r.integers(8, 15, 2))
        self.x = np.round(r.standard_normal(self.shape) * 50)
        self.fn = fn

    def build(self):
        return getattr(self, "x_" + self.fn)()

    def filt(self):
        return np.array(pywt.Wavelet(str(self.r.choice(p_dom.SHORT))).rec_lo)

    def x_qmf(self):
        f = self.filt()
        return lambda: pywt.qmf(f)

    def x_ofb(self):
        f = self.filt()
        return lambda: list(pywt.orthogonal_filter_bank(f))

    def x_custom(self):
        fb = [np.array(f) for f in pywt.Wavelet(str(self.r.choice(p_dom.SHORT))).filter_bank]
        x = self.x[0]

        def go():
            w = pywt.Wavelet("c", filter_bank=fb)
            return [list(w.filter_bank), list(pywt.dwt(x, w)), list(w.wavefun(3))]
        return go

    def x_settree(self):
        t = pywt.WaveletPacket(self.x[0], self.wname, "symmetric", maxlevel=2)
        A, D, n = np.array(t["aa"].data), np.array(t["d"].data), self.shape[1]
        w = self.wname

        def go():
            t = pywt.WaveletPacket(None, w, "symmetric", maxlevel=2)
            t["aa"], t["d"] = A, D
            q = [t.reconstruct(update=False), t.reconstruct(update=True), t["aa"].data, t["d"].data]
            t["d"].data = A[:len(D)]
            return q + [t["d"].data]
        return go

    def x_settree2(self):
        t = pywt.WaveletPacket2D(self.x, self.wname, "symmetric", maxlevel=2)
        q = [np.array(t[k].data) for k in "ahvd"]
        w = self.wname

        def go():
            t = pywt.WaveletPacket2D(None, w, "symmetric", maxlevel=2)
            for k, v in zip("ahvd", q):
                t[k] = v
            return [t.reconstruct(update=False), t.reconstruct(update=True)] + [t[k].data for k in "ahvd"]
        return go

    def x_settreen(self):
        t = pywt.WaveletPacketND(self.x, self.wname, "symmetric", maxlevel=2)
        q = {k: np.array(t[k].data) for k in ("aa", "ad", "da", "dd")}
        w = self.wname

        def go():
            t = pywt.WaveletPacketND(None, w, "symmetric", maxlevel=2, axes=(0, 1))
            for k, v in q.items():
                t[k] = v
            return [t.reconstruct(update=False), t.reconstruct(update=True)] + [t[k].data for k in q]
        return go

    def x_treeuse(self):
        x, w = self.x[0], self.wname

        def go():
            t = pywt.WaveletPacket(x, w, "periodization", maxlevel=2)
            q = [n.data for n in t.get_level(2, "freq")]
            t["ad"].data = t["ad"].data * 0
            del t["d"]
            return q + [t.reconstruct(update=True), [n.path for n in t.get_leaf_nodes()]]
        return go

    def x_fswaverecn(self):
        f = pywt.fswavedecn(self.x, self.wname, "symmetric", levels=2)
        C, sl = np.array(f.coeffs), f.coeff_slices
        w = self.wname

        def go():
            f = pywt.FswavedecnResult(C, sl, [pywt.Wavelet(w)] * 2, [pywt.Modes.symmetric] * 2, (0, 1))
            return [pywt.fswaverecn(f), f.approx, [f[k] for k in f.detail_keys()]]
        return go

    def x_padarr(self):
        x, pw = self.x, np.array([[1, 2], [3, 0]])
        return lambda: pywt.pad(x, pw, "reflect")

    def x_shapes(self):
        L = pywt.wavedecn(self.x, self.wname, level=2)
        return lambda: [pywt.wavedecn_size(L)]

    def x_packs(self):
        L = [np.array(v) for v in pywt.wavedec(self.x[0], self.wname, level=3)]

        def go():
            a, s = pywt.coeffs_to_array(L)
            v, s2, sh = pywt.ravel_coeffs(L)
            return [a, v, pywt.array_to_coeffs(a, s, "wavedec"), pywt.unravel_coeffs(v, s2, sh, "wavedec")]
        return go

    def x_packs2(self):
        L = pywt.wavedec2(self.x, self.wname, level=2)

        def go():
            a, s = pywt.coeffs_to_array(L)
            v, s2, sh = pywt.ravel_coeffs(L)
            return [a, v, pywt.array_to_coeffs(a, s, "wavedec2"), pywt.unravel_coeffs(v, s2, sh, "wavedec2")]
        return go

    def x_cscales(self):
        x, s = self.x, np.array([1.0, 3.0, 4.5])
        n = str(self.r.choice(p_dom.CONTN))
        return lambda: list(pywt.cwt(x, s, n, axis=0))

    def x_freqs(self):
        s = np.array([.1, .25, .5])
        n = str(self.r.choice(p_dom.CONTN))
        return lambda: [pywt.scale2frequency(n, s), pywt.frequency2scale(n, s)]


EXTRAS = [k[2:] for k in dir(Extra) if k.startswith("x_")]


def builder(q, seed):
    return (Extra(q["fn"], seed) if "extra" in q else Req(q["fn"], q["a"], seed)).build()


# ------------------------------------------------------------------ arguments in place
def cells(f):
    return [c for c in (f.__closure__ or ()) if not isinstance(c.cell_contents, (Req, Extra, type))]


def leaves(o, acc):
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "fciub":
            acc.append(o)
    elif isinstance(o, dict):
        for v in o.values():
            leaves(v, acc)
    elif isinstance(o, (list, tuple)):
        for v in o:
            leaves(v, acc)
    return acc


def swap(o, f):
    """the same structure with every array replaced"""
    if isinstance(o, np.ndarray):
        return f(o) if o.dtype.kind in "fciub" else o
    if isinstance(o, dict):
        return {k: swap(v, f) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(swap(v, f) for v in o)
    return o


class Given:
    """every array argument of a request laid out by its plan (or handed over as another kind of object)"""

    def __init__(self, f, plans, share, end, fill):
        self.f, self.blocks, self.shared = f, [], {}
        self.plans, self.share, self.end, self.fill, self.n = plans, share, end, fill, 0
        self.logical = []
        for c in cells(f):
            if not isinstance(c.cell_contents, pywt.Wavelet):
                c.cell_contents = swap(c.cell_contents, self.put)
        for b in self.blocks:
            b.seal()
        self.before = [(c, digest(c.cell_contents)) for c in cells(f)]

    def put(self, a):
        plans = self.plans.get(a.ndim)
        k = (a.shape, a.dtype.str)
        if a.ndim == 0 or plans is None:
            return a
        if self.share is not None:
            if k not in self.shared:
                p = mem.Placed(a.shape, a.dtype, plans[0], 16, self.share, self.end, self.fill)
                r = np.random.default_rng(a.size)
                p.cells[...] = np.round(r.standard_normal(p.cells.shape) * 20)
                self.blocks.append(p)
                self.shared[k] = [p, 0]
            p, j = self.shared[k]
            self.shared[k][1] = (j + 1) % 16
            return p.given(j)
        plan = plans[self.n % len(plans)]
        self.n += 1
        p = mem.Placed(a.shape, a.dtype, plan, 1, 0, self.end, self.fill)
        p.views[0][...] = a
        self.blocks.append(p)
        return p.given()

    def untouched(self):
        if not all(b.same() for b in self.blocks):
            return "the memory of an array argument was changed"
        for c, d in self.before:
            if digest(c.cell_contents) != d:
                return "an argument was changed"
        return None


def plainly(f):
    """the same values as independent ordinary arrays"""
    for c in cells(f):
        if not isinstance(c.cell_contents, pywt.Wavelet):
            c.cell_contents = swap(c.cell_contents, lambda a: np.array(np.asarray(a), dtype=a.dtype.newbyteorder("="), order="C", subok=False))
    return f


class Conv:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


SEQ = dict(seq=lambda a: a.tolist(), tup=lambda a: totup(a.tolist()), rows=lambda a: list(a), conv=Conv, memview=lambda a: memoryview(np.ascontiguousarray(a)),
           fixed=lambda a: array.array("d", a.tolist()) if a.ndim == 1 and a.dtype == np.float64 else a)
# functions documented to take array_like data, and the closure variable that holds it
LIKE = dict(dwt="x", dwt2="x", dwtn="x", wavedec="x", wavedec2="x", wavedecn="x", fswavedecn="x", downcoef="x", upcoef="x", idwt="AD", swt="x", swt2="x", swtn="x",
            mra="x", mra2="x", mran="x", threshold="x", threshold_firm="x", pad="x", cwt="x", qmf="f")


def totup(o):
    return tuple(totup(v) for v in o) if isinstance(o, list) else o


def approx_same(a, b, path=""):
    """None when equal; rounding apart"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} instead of {b.shape}"
        if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
            return f"{path}: {a.dtype} instead of {b.dtype}"
        if a.tobytes() == b.tobytes() or not a.size:
            return None
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in "fc":
            return None if np.array_equal(a, b) else f"{path}: other values"
        m = float(np.max(np.abs(b[np.isfinite(b)]), initial=0))
        tol = (1e-12 if a.dtype.name in ("float64", "complex128", "longdouble") else 1e-5) * max(m, 1e-300)
        with np.errstate(all="ignore"):
            ok = (np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))
        return None if ok.all() else f"{path}: {a.ravel()[~ok.ravel()][0]} instead of {b.ravel()[~ok.ravel()][0]} at {np.argwhere(~ok)[0].tolist()}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(a)} instead of {sorted(b)}"
        return next((e for k in a if (e := approx_same(a[k], b[k], f"{path}.{k}"))), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items instead of {len(b)}"
        return next((e for i, (u, v) in enumerate(zip(a, b)) if (e := approx_same(u, v, f"{path}[{i}]"))), None)
    if isinstance(a, (float, np.floating)):
        return None if a == b or abs(a - b) <= 1e-10 * abs(b) or a != a and b != b else f"{path}: {a} instead of {b}"
    return None if repr(a) == repr(b) else f"{path}: {a!r} instead of {b!r}"


def result(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return copied(f()), None
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"[:200]


def copied(o):
    if isinstance(o, np.ndarray):
        return np.array(o, dtype=o.dtype.newbyteorder("="), subok=False)
    if isinstance(o, dict):
        return {k: copied(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [copied(v) for v in o]
    return o


def seed_of(*q):
    return int(hashlib.sha1((json.dumps(q, sort_keys=True) + str(SEED)).encode()).hexdigest()[:8], 16)


NOSHARE = ("cwt", "cscales", "contin", "freqs")      # scales have to stay positive


def lay_case(it):
    """one request, plainly and in the given layouts"""
    q, seed, plans, share = it
    mem.release()
    bad, n = [], 0
    g = Given(builder(q, seed), {len(p["kinds"]): [p] for p in []}, None, True, None)     # arguments as they are
    ref0, err0 = result(g.f)
    what = g.untouched()
    n += 1
    if what:
        bad.append(("mutated", "plain", what + (f" by a call that raises {err0}" if err0 else "")))
    if q["v"] != "A" or not cells(g.f):
        return bad, n
    for p in plans:
        rank = {len(k["kinds"]): [k] for k in p["plans"]}
        outs = []
        for end, fill in ((True, None), (False, 7e9)):
            g = Given(builder(q, seed), rank, share if p["share"] else None, end, fill)
            if not g.blocks:
                break
            try:
                r, err = result(g.f)
                what = g.untouched()
                n += 1
                if what:
                    bad.append(("mutated", p, what))
                h = plainly(g.f)
                ref, rerr = result(h)
            finally:
                pass
            if (err is None) != (rerr is None):
                bad.append(("layout", p, f"{err or 'accepted'}, but for plain arrays: {rerr or 'accepted'}"))
            elif err is None and (w := approx_same(r, ref)):
                bad.append(("layout", p, w))
            del g, r, ref, h
            if end and (seed + len(str(p))) & 1:
                break
    names = LIKE.get(q["fn"])
    if names:
        for kind in SEQ:
            f = builder(q, seed)
            ref, rerr = result(plainly(builder(q, seed)))
            vs = dict(zip(f.__code__.co_freevars, f.__closure__))
            if not all(v in vs and isinstance(vs[v].cell_contents, np.ndarray) and vs[v].cell_contents.ndim and vs[v].cell_contents.dtype in (np.float64, np.complex128) for v in names):
                break
            if q.get("a", {}).get("level") == "zero" and kind == "conv":
                pass
            for v in names:
                vs[v].cell_contents = SEQ[kind](vs[v].cell_contents)
            b = [digest(c.cell_contents) for c in f.__closure__ if not isinstance(c.cell_contents, Req)]
            r, err = result(f)
            n += 1
            if b != [digest(c.cell_contents) for c in f.__closure__ if not isinstance(c.cell_contents, Req)]:
                bad.append(("mutated", kind, "an argument was changed"))
            if (err is None) != (rerr is None):
                bad.append(("layout", kind, f"{err or 'accepted'}, but for plain arrays: {rerr or 'accepted'}"))
            elif err is None and (w := approx_same(r, ref)):
                bad.append(("layout", kind, w))
    return bad, n


def layouts(chk):
    r = mc.layout_model(chk)
    ps = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"LAY ')]
    if len(ps) < 100:
        raise MachineryError(f"{len(ps)} layouts")
    by = collections.defaultdict(list)
    for p in sorted(ps, key=lambda p: json.dumps(p, sort_keys=True)):
        by[len(p["kinds"])].append(p)
    return by


def pname(p):
    return p if isinstance(p, str) else "+".join(layname(k) for k in p["plans"]) + (":shared" if p["share"] else "")


@prop("C21")
def c21(chk):
    by = layouts(chk)
    rng = rng_for(chk)
    # 1. exact values through memory: the specification reads the arguments out of the recorded blocks
    cs = []
    N = pick(110, 900)
    for _ in range(N):
        r = lambda: int(rng.integers(1, 4))
        b = lambda: rand_bank(rng, int(rng.choice([2, 4, 6])), 2)
        m = lambda: MODES[rng.integers(9)]
        n = int(rng.integers(2, 14))
        sh = rshape(rng, r(), 2, 6, 60)
        cs.append(c_dwt(rng, n, b(), m()))
        ax = int(rng.integers(len(sh)))
        cs.append(c_dwt(rng, sh[ax], b(), m(), shape=sh, axis=ax))
        cs.append(c_downcoef(rng, n, b(), m(), "ad"[rng.integers(2)], int(rng.integers(1, 3))))
        cs.append(c_idwt(rng, int(rng.integers(6, 12)), b(), m(), drop=[None, None, "a", "d"][rng.integers(4)]))
        cs.append(c_idwt(rng, 6, b(), m(), shape=(6, 2), axis=0))
        cs.append(c_upcoef(rng, int(rng.integers(3, 10)), b(), "ad"[rng.integers(2)], int(rng.integers(1, 3)), int(rng.integers(0, 8))))
        cs.append(c_dwtn(rng, sh))
        cs.append(c_idwtn(rng, rshape(rng, int(rng.integers(1, 3)), 3, 5, 25)))
        cs.append(c_wavedec(rng, sh, ax, int(rng.integers(1, 3)), b(), m()))
        cs.append(c_waverec(rng, (*rshape(rng, 1, 6, 12), 2)[:int(rng.integers(1, 3))], 0, int(rng.integers(1, 3)), b(), m()))
        cs.append(c_wavedecn(rng, sh, 1))
        cs.append(c_waverecn(rng, rshape(rng, 2, 5, 7, 49), 1))
        cs.append(c_swt(rng))
        cs.append(c_iswt(rng))
        cs.append(c_pad(rng, sh, m(), [[int(v) for v in rng.integers(0, 4, 2)] for _ in sh], "pairs"))
    cs = [c for c in cs if c]
    for k, c in enumerate(cs):
        c = cs[k] = dict(c, var=dict(c["var"]))
        if c["var"].get("dt") in ("mix",):
            c["var"]["dt"] = "f8"
        ranks = collections.Counter(a.ndim for a in leaves(c["in"], []))
        R = ranks.most_common(1)[0][0] if ranks else 1
        if R not in by:
            c["var"]["lay"] = "C"
            c["extra"] = dict(c.get("extra", {}), views=[])
            continue
        plan = by[R][rng.integers(len(by[R]))]
        c["var"]["lay"] = plan
        reps = [i for i, kd in enumerate(plan["kinds"]) if kd == "rep"]
        if reps:         # a repeated axis holds equal values
            def same(a):
                if a.ndim == R:
                    for i in reps:
                        a = np.repeat(a.take([0], axis=i), a.shape[i], axis=i) if a.shape[i] else a
                return a
            c["in"] = swap(c["in"], same)
    validate(chk, cs, "calls through memory", clauses=("value", "raised", "length", "layout", "mutated"), module="MemTrace")

    # 2. every function in every layout, against the same values laid out plainly
    reqs = requests(chk, 2)
    acc = collections.defaultdict(list)
    for q in reqs:
        acc[q["fn"]].append(q)
    items = []
    one = [by[k] for k in (1, 2, 3)]

    def some(n):
        out = []
        for _ in range(n):
            out.append(dict(plans=[v[rng.integers(len(v))] for v in one], share=False))
        return out
    for fn, qs in sorted(acc.items()):
        good = [q for q in qs if q["v"] == "A"]
        if not any(leaves(c.cell_contents, []) for q in good[:3] for c in cells(builder(q, 1))):
            continue
        take = [good[i] for i in rng.permutation(len(good))[:pick(40, 400)]] + [p_plain(reqs, fn)] * pick(10, 60)
        for k, q in enumerate(take):
            items.append((q, seed_of(q, k), some(pick(5, 12)) + ([dict(plans=[dict(v[0], item="native", kinds=["plain"] * (i + 1), perm=list(range(1, i + 2))) for i, v in enumerate(one)], share=True)] if fn not in NOSHARE else []),
                          int([0, 0, 1, 2, 5][rng.integers(5)])))
    for fn in EXTRAS:
        for k in range(pick(8, 60)):
            items.append((dict(extra=1, fn=fn, v="A"), seed_of(fn, k), some(pick(6, 12)), 0))
    # 3. arguments are left alone by every request, also by those that raise
    for q in reqs:
        if q["v"] != "A":
            items.append((q, seed_of(q), [], 0))
    rng.shuffle(items)
    total = collections.Counter()
    for (q, seed, plans, share), (_, st, v) in zip(items, supervised(lay_case, items, limit=60)):
        name = q["fn"] + (":" + ",".join(f"{f}={c}" for f, c in sorted(q["a"].items()) if c != p_dom.PLAIN(reqs, q["fn"])[f]) if "a" in q else "")
        rep = dict(request=q, seed=seed, share=share)
        if st in ("hang", "crash"):
            chk.violate(name, f"{st} ({v}) in one of the layouts {[pname(p) for p in plans]} (memory next to the arguments cannot be read)", rep)
            continue
        if st != "ok":
            raise MachineryError(str(v))
        bad, n = v
        total["runs"] += n
        total[q["v"]] += 1
        chk.cov["traces_validated_against_impl"] += n
        for clause, p, w in bad[:2]:
            chk.violate(f"{name}:{pname(p)}", f"{clause}: {w}", dict(rep, layout=p))
    chk.note("functions in memory layouts", requests=len(items), **total)


def p_plain(reqs, fn):
    pl = p_dom.PLAIN(reqs, fn)
    return next(q for q in reqs if q["fn"] == fn and q["a"] == pl)
