"""C20: the documented domain.  spec/Domain.tla enumerates requests (function x class of each argument) with their
verdict and canonical form; here each one is made concrete, executed under supervision, and its outcome compared."""
import ctypes, hashlib
from registry import prop
from core import *
from gen import *
import mc

DISC = [n for n in pywt.wavelist(kind="discrete") if not n.startswith("coif")]     # single-precision coiflet tables are not the rounded doubles
SHORT = [n for n in DISC if pywt.Wavelet(n).dec_len <= 8]
TINY = [n for n in DISC if pywt.Wavelet(n).dec_len <= 4]
CONTN = ["morl", "mexh", "gaus1", "gaus4", "cgau2", "shan1.5-1.0", "fbsp2-1.5-1.0", "cmor1.5-0.8"]
OLD = dict(zip(["zero", "constant", "symmetric", "periodic", "smooth", "periodization"], ["zpd", "cpd", "sym", "ppd", "sp1", "per"]))


class Junk:
    pass


def rebuilt(name):
    w = pywt.Wavelet(name)
    v = pywt.Wavelet(name, filter_bank=w.filter_bank)
    v.orthogonal, v.biorthogonal = w.orthogonal, w.biorthogonal
    return v


def wval(c, name, k, r):
    """wavelet of class c standing for the built-in `name`, k transformed axes"""
    bad = dict(unknown=str(r.choice(["db0", "db39", "nope", "haar2", "sym1", "db2 "])), cont=str(r.choice(["morl", "mexh", "gaus3", "cmor1.5-1.0"])), wnone=None,
               wint=int(r.integers(0, 4)), blank="", pair=(name, name))
    count = (name,) * (k + 1 + int(r.integers(2)))
    if c == "mixbad":
        q = [name] * max(k, 2)
        q[int(r.integers(len(q)))] = ["nope", None, "morl", 3][r.integers(4)]
        return q if k > 1 else ["nope"]
    if c in bad:
        return bad[c]
    return dict(name=lambda: name, upper=lambda: name.upper(), obj=lambda: pywt.Wavelet(name), rebuilt=lambda: rebuilt(name), each=lambda: (name,) * k,
                eachlist=lambda: [pywt.Wavelet(name)] * k, alone=lambda: [name], count=lambda: count, contobj=lambda: pywt.ContinuousWavelet("mexh"))[c]()


def mval(c, mode, k, r):
    if c == "mixbad":
        q = [mode] * max(k, 2)
        q[int(r.integers(len(q)))] = ["nope", None, 9, -1][r.integers(4)]
        return q if k > 1 else ["nope"]
    return dict(name=lambda: mode, int=lambda: int(MODEINT[mode]), enum=lambda: getattr(pywt.Modes, mode), old=lambda: OLD.get(mode, mode), each=lambda: (mode,) * k,
                eachint=lambda: [MODEINT[mode]] * k, alone=lambda: [mode], count=lambda: [mode] * (k + 1 + int(r.integers(2))), mpair=lambda: (mode, mode),
                mbad=lambda: str(r.choice(["nope", "periodisation", "symetric", "sym2"])), mneg=lambda: -1 - int(r.integers(3)), mbig=lambda: 9 + int(r.integers(3)), mnone=lambda: None,
                mblank=lambda: "", mcase=lambda: mode.upper())[c]()


def xval(c, x):
    if c == "plain":
        return x
    if c == "list":
        return x.tolist()
    if c == "odd" or c == "empty":
        return x                     # the shape was chosen accordingly
    return dict(ints=lambda: x.astype(int), cplx=lambda: x + 1j * x[::-1], half=lambda: x.astype(np.float16), single=lambda: x.astype(np.float32), none=lambda: None,
                str=lambda: "abc", ragged=lambda: [[1.0, 2.0], [3.0]], objs=lambda: np.where(x > 0, "a", None), scalar=lambda: 3.5)[c]()


def axval(c, ax, rank, r):
    return dict(pos=lambda: ax, neg=lambda: ax - rank, np=lambda: np.int64(ax), over=lambda: rank + int(r.integers(3)), under=lambda: -rank - 1 - int(r.integers(3)))[c]()


def axesval(c, axes, rank, r):
    k = len(axes)
    if c == "over":
        return (*axes[:-1], rank + int(r.integers(3)))
    if c == "under":
        return (*axes[:-1], -rank - 1 - int(r.integers(3)))
    return dict(pos=lambda: tuple(axes), neg=lambda: tuple(a - rank for a in axes), mixed=lambda: tuple(a - rank if i % 2 else a for i, a in enumerate(axes)), axlist=lambda: list(axes),
                all=lambda: None, swapped=lambda: tuple(axes[::-1]), one=lambda: (axes[0],), three=lambda: (*axes, 0), dup=lambda: (axes[0],) * max(k, 2))[c]()


def resize(a, ax, k):
    """a copy of a with k more (or fewer) entries along ax"""
    if k > 0:
        return np.concatenate([a, np.ones([k if i == ax else n for i, n in enumerate(a.shape)])], axis=ax)
    return np.delete(a, range(-k), axis=ax)


def bykey(fn):
    return {"packet": 1, "packet2": 2, "packetn": 3}[fn]


class Req:
    """concrete form of one request; every random choice is drawn in the same order whatever the classes are"""

    def __init__(self, fn, a, seed):
        self.fn, self.a = fn, a
        r = self.r = np.random.default_rng(seed)
        self.bad = np.random.default_rng(seed + 1)
        nd = fn.endswith("n") and fn not in ("contin",) or fn in ("toarray", "ravel", "shapes", "fromarray", "unravel")
        two = fn.endswith("2")
        self.k = None
        many = two or nd
        sw = fn in ("swt", "swt2", "swtn", "iswt", "iswt2", "iswtn", "mra", "mra2", "mran")
        pk = fn.startswith("packet")
        rank = int(r.integers(2, 4)) if many else int(r.integers(1, 4))
        if fn in ("downcoef", "upcoef"):
            rank = 1
        if fn == "cwt" and a["axis"] in ("over", "under"):
            rank = max(rank, 2)         # one-dimensional data has one axis, whatever is asked for
        if a.get("c") == "lane":
            rank = max(rank, 3 if two else 2)      # at least one axis is not transformed
        k = 2 if two else (int(r.integers(1, rank + 1)) if nd else 1)
        if a.get("axes") == "all" or fn == "packetn" and a.get("axes") == "pos" and False:
            k = rank
        if a.get("c") == "lane" and nd:
            k = min(k, rank - 1)
        axes = [int(v) for v in r.permutation(rank)[:rank]]
        self.axes = axes[:k]
        if a.get("axes") == "all":
            self.axes = list(range(rank))
        self.rank = rank
        if a.get("c") in ("partial", "shortkey", "badkey") and nd and k == 1:
            self.axes = axes[:2]
        k = len(self.axes)
        base = r.integers(0, 1 << 30)
        self.wname = str((TINY if pk or sw else SHORT)[int(base) % len(TINY if pk or sw else SHORT)])
        if a.get("level") in ("deep",) or a.get("levels") == "deep":
            ms = [m for m in MODES if m not in ("reflect", "antireflect")]
        else:
            ms = MODES
        self.mode = ms[int(r.integers(len(ms)))]
        if fn in ("mra", "mra2", "mran"):
            self.mode = "periodization" if a["tr"] != "dwt" or r.random() < .3 else self.mode
        if sw:
            sizes = [int(v) * 4 for v in r.integers(2, 6, rank)]
        elif pk:
            sizes = [int(v) for v in r.integers(13, 20, rank)]
        elif "c" in a or "level" in a or "levels" in a or fn in ("fromarray", "unravel"):
            sizes = [int(v) for v in r.integers(14, 22, rank)]
        else:
            sizes = [int(v) for v in r.integers(5, 15, rank)]
        if rank == 3:
            other = [i for i in range(3) if i not in self.axes]
            for i in other:
                sizes[i] = min(sizes[i], 3)
        if a.get("x") == "empty":
            sizes[self.axes[int(r.integers(k))]] = 0
        if a.get("x") == "odd":
            sizes[self.axes[int(r.integers(k))]] += 1 + 2 * int(r.integers(2))
        self.shape = tuple(sizes)
        self.x = np.round(r.standard_normal(self.shape) * 50)
        self.rr = np.random.default_rng(seed + 2)

    # -- argument values
    def X(self):
        return xval(self.a["x"], self.x)

    def W(self):
        return wval(self.a["w"], self.wname, len(self.axes), self.bad)

    def M(self):
        return mval(self.a["m"], self.mode, len(self.axes), self.bad)

    def ax(self):
        return axval(self.a["axis"], self.axes[0], self.rank, self.bad)

    def AX(self):
        return axesval(self.a["axes"], self.axes, self.rank, self.bad)

    def pax(self):
        """the axes as the request means them, for preparing coefficients"""
        ax = tuple(self.axes)
        return ax[::-1] if self.a.get("axes") == "swapped" else ax

    def maxlev(self):
        n = min([self.shape[i] for i in self.axes] or [0])
        return pywt.dwt_max_level(n, self.wname) if n else 0

    def level(self):
        c = self.a["level"]
        top = self.maxlev()
        if self.fn in ("swt", "swt2", "swtn") or self.a.get("tr") == "swt":
            ns = [self.shape[i] for i in self.axes]
            top = min(pywt.swt_max_level(n) if n else 0 for n in ns)
            st = dict(zero=0, one=1).get(self.a.get("start"), 0)
            top = max(top - st, 1)
        return dict(max=top, lnone=None, one=1, two=2, zero=0, deep=top + 1 + int(self.bad.integers(3)), minus=-1, minus2=-2 - int(self.bad.integers(3)))[c]

    def start(self):
        ns = [self.shape[i] for i in self.axes]
        top = min(pywt.swt_max_level(n) if n else 0 for n in ns)
        return dict(zero=0, one=1, deep=top + int(self.bad.integers(3)), minus=-1)[self.a["start"]]

    # -- coefficients
    def dec1(self):
        return [np.array(v) for v in pywt.wavedec(self.x, self.wname, self.mode, level=2, axis=self.axes[0])]

    def off(self, how, big=2):
        v = big + int(self.bad.integers(2))
        return v if how == "longer" else -v

    def lane(self, v):
        """the array with another size along an axis which is not transformed (the same change for every array of the request)"""
        if self.k is None:
            other = [i for i in range(self.rank) if i not in self.axes]
            self.k = (other[int(self.bad.integers(len(other)))] if other else self.axes[0], int(self.bad.choice([1, 2, -1, -2])))
        return resize(v, *self.k)

    def build(self):
        return getattr(self, "f_" + self.fn)()

    def f_dwt(self):
        x, w, m, ax = self.X(), self.W(), self.M(), self.ax()
        return lambda: pywt.dwt(x, w, m, ax)

    def f_idwt(self):
        A, D = pywt.dwt(self.x, self.wname, self.mode, self.axes[0])
        c = self.a["c"]
        if c in ("longer", "shorter"):
            D = resize(D, self.axes[0], 1 if c == "longer" else -1)
        elif c == "lane":
            if self.bad.random() < .5:
                A = self.lane(A)
            else:
                D = self.lane(D)
        elif c == "rank":
            D = np.stack([D, D], -1)
        elif c in ("anone", "nones"):
            A = None
        if c in ("dnone", "nones"):
            D = None
        w, m, ax = self.W(), self.M(), self.ax()
        return lambda: pywt.idwt(A, D, w, m, ax)

    def f_downcoef(self):
        part = dict(a="a", d="d", pbad=str(self.bad.choice(["x", "A", "ad", "aa"])), pnone=None, pblank="")[self.a["part"]]
        x, w, m, lv = self.X(), self.W(), self.M(), self.level()
        return lambda: pywt.downcoef(part, x, w, m, lv)

    def f_upcoef(self):
        part = dict(a="a", d="d", pbad=str(self.bad.choice(["x", "A", "ad", "aa"])), pnone=None, pblank="")[self.a["part"]]
        x, w, lv = self.X(), self.W(), self.level()
        take = dict(zero=0, some=1 + int(self.rr.integers(9)), long=10 ** 4, minus=-1 - int(self.bad.integers(4)))[self.a["take"]]
        return lambda: pywt.upcoef(part, x, w, lv, take)

    def f_dwt2(self):
        x, w, m, ax = self.X(), self.W(), self.M(), self.AX()
        return lambda: pywt.dwt2(x, w, m, ax)

    def f_dwtn(self):
        x, w, m, ax = self.X(), self.W(), self.M(), self.AX()
        return lambda: pywt.dwtn(x, w, m, ax)

    def f_idwt2(self):
        A, (H, V, D) = pywt.dwt2(self.x, self.wname, self.mode, self.pax())
        c = self.a["c"]
        t = [H, V, D]
        i = int(self.bad.integers(3))
        if c in ("longer", "shorter"):
            t[i] = resize(t[i], self.axes[int(self.bad.integers(2))], 1 if c == "longer" else -1)
        elif c == "lane":
            t[i] = self.lane(t[i])
        elif c == "nonedetail":
            t[i] = None
        elif c == "partial":
            t[i] = t[(i + 1) % 3] = None
        elif c == "two":
            t = t[:2]
        elif c == "anone":
            A = None
        w, m, ax = self.W(), self.M(), self.AX()
        return lambda: pywt.idwt2((A, tuple(t)), w, m, ax)

    def f_idwtn(self):
        d = pywt.dwtn(self.x, self.wname, self.mode, self.pax())
        c = self.a["c"]
        ks = sorted(d)
        i = ks[int(self.bad.integers(len(ks)))]
        if c == "missing":
            del d[i]
        elif c == "nonedetail":
            d[i] = None
        elif c == "badkey":
            d["x" + ks[0][1:]] = d[i]
        elif c == "shortkey":
            d["a" * (len(ks[0]) + (1 if self.bad.random() < .5 else -1))] = d[i]
        elif c in ("longer", "shorter"):
            d[i] = resize(d[i], self.axes[int(self.bad.integers(len(self.axes)))], 1 if c == "longer" else -1)
        elif c == "lane":
            d[i] = self.lane(d[i])
        elif c == "allnone":
            d = {k: None for k in ks}
        w, m, ax = self.W(), self.M(), self.AX()
        return lambda: pywt.idwtn(d, w, m, ax)

    def f_wavedec(self):
        x, w, m, ax, lv = self.X(), self.W(), self.M(), self.ax(), self.level()
        return lambda: pywt.wavedec(x, w, m, lv, ax)

    def f_wavedec2(self):
        x, w, m, ax, lv = self.X(), self.W(), self.M(), self.AX(), self.level()
        return lambda: pywt.wavedec2(x, w, m, lv, ax)

    def f_wavedecn(self):
        x, w, m, ax, lv = self.X(), self.W(), self.M(), self.AX(), self.level()
        return lambda: pywt.wavedecn(x, w, m, lv, ax)

    def f_shapes(self):
        w, m, ax, lv = self.W(), self.M(), self.AX(), self.level()
        return lambda: pywt.wavedecn_shapes(self.shape, w, m, lv, ax)

    def f_fswavedecn(self):
        x, w, m, ax = self.X(), self.W(), self.M(), self.AX()
        k = len(self.axes)
        tops = [pywt.dwt_max_level(self.shape[i], self.wname) if self.shape[i] else 0 for i in self.pax()]
        lv = dict(max=lambda: tuple(tops), lnone=lambda: None, one=lambda: 1, zero=lambda: 0, each=lambda: [1] * k, count=lambda: [1] * (k + 1 + int(self.bad.integers(2))),
                  minus=lambda: -1 if self.bad.random() < .5 else [1] * (k - 1) + [-1])[self.a["levels"]]()

        def go():
            z = pywt.fswavedecn(x, w, m, lv, ax)
            return [z.coeffs, [[(s.start, s.stop) for s in q] for q in z.coeff_slices]]
        return go

    def f_waverec(self):
        c, L = self.a["c"], self.dec1()
        i = 1 + int(self.bad.integers(len(L) - 1))
        if c == "apponly":
            L = L[:1]
        elif c == "nothing":
            L = []
        elif c == "nonedetail":
            L[i] = None
        elif c in ("longer", "shorter"):
            L[i] = resize(L[i], self.axes[0], self.off(c))
        elif c == "lane":
            L[i] = self.lane(L[i])
        elif c == "rank":
            L[i] = np.stack([L[i]] * 2, -1)
        elif c == "tuple":
            L = tuple(L)
        w, m, ax = self.W(), self.M(), self.ax()
        return lambda: pywt.waverec(L, w, m, ax)

    def f_waverec2(self):
        c = self.a["c"]
        L = [v if i == 0 else list(v) for i, v in enumerate(pywt.wavedec2(self.x, self.wname, self.mode, 2, self.pax()))]
        i, j = 1 + int(self.bad.integers(len(L) - 1)), int(self.bad.integers(3))
        ax = self.axes[int(self.bad.integers(2))]
        if c == "apponly":
            L = L[:1]
        elif c == "nothing":
            L = []
        elif c == "nonedetail":
            L[i] = [None, None, None]
        elif c == "partial":
            L[i][j] = None
        elif c == "two":
            L[i] = L[i][:2]
        elif c in ("longer", "shorter"):
            o = self.off(c)
            L[i] = [resize(v, ax, o) if self.bad.random() < .7 or n == j else v for n, v in enumerate(L[i])]
        elif c == "lane":
            L[i] = [self.lane(v) if self.bad.random() < .7 or n == j else v for n, v in enumerate(L[i])]
        L = [v if n == 0 else tuple(v) for n, v in enumerate(L)]
        if c == "tuple":
            L = tuple(L)
        w, m, ax = self.W(), self.M(), self.AX()
        return lambda: pywt.waverec2(L, w, m, ax)

    def decn(self):
        return [v if i == 0 else dict(v) for i, v in enumerate(pywt.wavedecn(self.x, self.wname, self.mode, 2, self.pax()))]

    def f_waverecn(self):
        c, L = self.a["c"], self.decn()
        i = 1 + int(self.bad.integers(len(L) - 1))
        ks = sorted(L[i])
        k = ks[int(self.bad.integers(len(ks)))]
        if c == "apponly":
            L = L[:1]
        elif c == "nothing":
            L = []
        elif c == "missing":
            if len(ks) > 1:
                del L[i][k]
        elif c == "nonedetail":
            L[i][k] = None
        elif c == "emptylevel":
            L[i] = {}
        elif c == "badkey":
            L[i]["x" + ks[0][1:]] = L[i][k]
        elif c in ("longer", "shorter"):
            o, ax = self.off(c), self.axes[int(self.bad.integers(len(self.axes)))]
            L[i] = {q: resize(v, ax, o) if self.bad.random() < .7 or q == k else v for q, v in L[i].items()}
        elif c == "lane":
            L[i] = {q: self.lane(v) if self.bad.random() < .7 or q == k else v for q, v in L[i].items()}
        elif c == "tuple":
            L = tuple(L)
        w, m, ax = self.W(), self.M(), self.AX()
        return lambda: pywt.waverecn(L, w, m, ax)

    def swtargs(self):
        return dict(trim_approx=self.a["trim"] == "yes", norm=self.a["norm"] == "yes")

    def f_swt(self):
        x, w, ax, lv, st = self.X(), self.W(), self.ax(), self.level(), self.start()
        return lambda: pywt.swt(x, w, lv, st, ax, **self.swtargs())

    def f_swt2(self):
        x, w, ax, lv, st = self.X(), self.W(), self.AX(), self.level(), self.start()
        return lambda: pywt.swt2(x, w, lv, st, ax, **self.swtargs())

    def f_swtn(self):
        x, w, ax, lv, st = self.X(), self.W(), self.AX(), self.level(), self.start()
        return lambda: pywt.swtn(x, w, lv, st, ax, **self.swtargs())

    def f_iswt(self):
        c, trim = self.a["c"], self.a["trim"] == "yes"
        L = pywt.swt(self.x, self.wname, 2, axis=self.axes[0], trim_approx=trim)
        L = [np.array(v) if isinstance(v, np.ndarray) else list(v) for v in L]
        i = int(self.bad.integers(2)) + (1 if trim else 0)
        ch = dict(longer=lambda v: resize(v, self.axes[0], self.off(c)), shorter=lambda v: resize(v, self.axes[0], self.off(c)), rank=lambda v: np.stack([v, v], -1), lane=self.lane).get(c, lambda v: v)
        if trim:
            L[i] = ch(L[i])
        else:
            L[i][1] = ch(L[i][1])
            L = [tuple(v) for v in L]
        L = [] if c == "nothing" else tuple(L) if c == "tuple" else L
        w, ax = self.W(), self.ax()
        return lambda: pywt.iswt(L, w, self.a["norm"] == "yes", ax)

    def f_iswt2(self):
        c, trim = self.a["c"], self.a["trim"] == "yes"
        L = pywt.swt2(self.x, self.wname, 2, axes=self.pax(), trim_approx=trim)
        i = int(self.bad.integers(2)) + (1 if trim else 0)
        t = list(L[i] if trim else L[i][1])
        ax, j = self.axes[int(self.bad.integers(2))], int(self.bad.integers(3))
        if c in ("longer", "shorter", "onelonger"):
            o = self.off("longer" if c == "onelonger" else c)
            t = [resize(v, ax, o) if c != "onelonger" or n == j else v for n, v in enumerate(t)]
        elif c == "lane":
            t = [self.lane(v) if self.bad.random() < .7 or n == j else v for n, v in enumerate(t)]
        elif c == "two":
            t = t[:2]
        L[i] = tuple(t) if trim else (L[i][0], tuple(t))
        L = [] if c == "nothing" else tuple(L) if c == "tuple" else L
        w, ax = self.W(), self.AX()
        return lambda: pywt.iswt2(L, w, self.a["norm"] == "yes", ax)

    def f_iswtn(self):
        c, trim = self.a["c"], self.a["trim"] == "yes"
        L = pywt.swtn(self.x, self.wname, 2, axes=self.pax(), trim_approx=trim)
        i = int(self.bad.integers(2)) + (1 if trim else 0)
        ks = [q for q in sorted(L[i]) if "d" in q]
        k = ks[int(self.bad.integers(len(ks)))]
        ax = self.axes[int(self.bad.integers(len(self.axes)))]
        if c in ("longer", "shorter", "onelonger"):
            o = self.off("longer" if c == "onelonger" else c)
            L[i] = {q: resize(v, ax, o) if q in ks and (c != "onelonger" or q == k) else v for q, v in L[i].items()}
        elif c == "lane":
            many = self.bad.random() < .5
            L[i] = {q: self.lane(v) if q in ks and (many or q == k) else v for q, v in L[i].items()}
        elif c == "badkey":
            L[i]["x" * len(ks[0])] = L[i].pop(k)
        L = [] if c == "nothing" else tuple(L) if c == "tuple" else L
        w, ax = self.W(), self.AX()
        return lambda: pywt.iswtn(L, w, ax, self.a["norm"] == "yes")

    def tr(self, n):
        return dict(dwt="dwt" + n, swt="swt" + n, tbad=str(self.bad.choice(["foo", "dwt3", "DWT", ""])))[self.a["tr"]]

    def f_mra(self):
        x, w, m, ax, lv, tr = self.X(), self.W(), self.M(), self.ax(), self.level(), self.tr("")
        return lambda: pywt.mra(x, w, lv, ax, tr, m)

    def f_mra2(self):
        x, w, m, ax, lv, tr = self.X(), self.W(), self.M(), self.AX(), self.level(), self.tr("2")
        return lambda: pywt.mra2(x, w, lv, ax, tr, m)

    def f_mran(self):
        x, w, m, ax, lv, tr = self.X(), self.W(), self.M(), self.AX(), self.level(), self.tr("n")
        return lambda: pywt.mran(x, w, lv, ax, tr, m)

    def packet(self, cls, parts, kw):
        x, w, m = self.X(), self.W(), self.M()
        c = self.a
        n = min(self.shape[i] for i in self.axes)
        top = pywt.dwt_max_level(n, self.wname)
        lv = dict(one=1, two=2, deep=top + 1 + int(self.bad.integers(2)))[c["level"]]
        o = dict(natural="natural", freq="freq", obad="foo")[c["ord"]]
        k = len(self.axes)
        part = parts[int(self.rr.integers(len(parts)))] if parts else "ad"[int(self.rr.integers(2))] * k
        path = dict(pfit=part, pchar=part[:-1] + "x", pdeep=part * (top + 1), ptype=3)[c["path"]]

        def go():
            t = cls(x, w, m, **kw)
            if cls is pywt.WaveletPacket or cls is pywt.WaveletPacket2D:
                q = t.get_level(lv, o)
                q = [u for v in q for u in (v if isinstance(v, list) else [v])]
            else:
                if o == "foo":
                    raise ValueError("no orders here")
                q = t.get_level(lv)
            return [[u.path for u in q], [np.asarray(u.data) for u in q], t[path].data]
        return go

    def f_packet(self):
        return self.packet(pywt.WaveletPacket, ["a", "d"], dict(axis=self.ax()))

    def f_packet2(self):
        return self.packet(pywt.WaveletPacket2D, ["a", "h", "v", "d"], dict(axes=self.AX()))

    def f_packetn(self):
        return self.packet(pywt.WaveletPacketND, None, dict(axes=self.AX()))

    def cname(self):
        n = CONTN[int(self.rr.integers(len(CONTN)))]
        return dict(name=lambda: n, upper=lambda: n.upper(), obj=lambda: pywt.ContinuousWavelet(n), rebuilt=lambda: pickle_copy(pywt.ContinuousWavelet(n)), unknown=lambda: "nope", discrete=lambda: "db2",
                    discobj=lambda: pywt.Wavelet("db2"), wnone=lambda: None, wint=lambda: 3, blank=lambda: "", pair=lambda: (n, n),
                    badparam=lambda: str(self.bad.choice(["cmor1.5", "cmor1.5-", "shan1-", "fbsp1-1", "cmora-b", "cmor1-1-1"])))[self.a["cw"]]()

    def f_cwt(self):
        x, ax = self.X(), self.ax()
        w = self.cname()
        sc = np.array([1.0, 2.5, float(self.rr.integers(1, 12))])
        s = dict(arr=sc, list=sc.tolist(), tuple=tuple(sc.tolist()), scalar=float(sc[2]), zero=[2.0, 0.0], minus=[1.0, -2.0], snone=None, sstr="ab", nan=[1.0, np.nan], tiny=[1e-4])[self.a["scales"]]
        me = dict(conv="conv", fft="fft", methbad="foo")[self.a["meth"]]
        return lambda: pywt.cwt(x, s, w, method=me, axis=ax)

    def f_threshold(self):
        x = self.X()
        md = dict(thbad="foo", thnone=None).get(self.a["th"], self.a["th"])
        v = dict(pos=11, zero=0, vnone=None, vstr="a")[self.a["val"]]
        return lambda: pywt.threshold(x, v, md)

    def f_threshold_firm(self):
        x = self.X()
        lo, hi = dict(ordered=(3, 20), equal=(7, 7), fromzero=(0, 9), reversed=(9, 3), minus=(-1, 4), vnone=(None, 4))[self.a["lims"]]
        return lambda: pywt.threshold_firm(x, lo, hi)

    def f_pad(self):
        x = self.X()
        m = mval(self.a["pm"], self.mode, 1, self.bad)
        n = self.rank
        k = int(self.rr.integers(1, 5))
        pw = dict(wpairs=[(k, 2)] * n, wpair=(k, 2), wint=k, wzero=0, wminus=(-1, 2), wtriple=(1, 2, 3), wmany=[(1, 2)] * (n + 1 if n > 0 else 2), wstr="ab")[self.a["pw"]]
        return lambda: pywt.pad(x, pw, m)

    def f_maxleveln(self):
        w, ax = self.W(), self.AX()
        return lambda: pywt.dwtn_max_level(self.shape, w, ax)

    def f_maxlevel(self):
        n = dict(fit=int(self.rr.integers(8, 200)), short=1, nminus=-5, nstr="a")[self.a["n"]]
        F = pywt.Wavelet(self.wname).dec_len
        f = dict(flen=F, wobj=pywt.Wavelet(self.wname), wname=self.wname, fone=1, fzero=0, fminus=-4, fbad="nope", fcont="morl")[self.a["flt"]]
        return lambda: pywt.dwt_max_level(n, f)

    def f_coefflen(self):
        n = dict(fit=int(self.rr.integers(8, 200)), short=1, nzero=0, nminus=-5, nstr="a")[self.a["n"]]
        F = pywt.Wavelet(self.wname).dec_len
        f = dict(flen=F, fone=1, fzero=0, fminus=-4, fbad="nope")[self.a["flt"]]
        m = self.M()
        return lambda: pywt.dwt_coeff_len(n, f, m)

    def f_wavelet(self):
        w = self.W()

        def go():
            if isinstance(w, pywt.Wavelet):
                return [w.filter_bank, w.dec_len, w.orthogonal]
            v = pywt.Wavelet(w)
            return [v.filter_bank, v.dec_len, v.orthogonal]
        return go

    def f_wavefun(self):
        w, lv = self.W(), self.level()
        return lambda: (w if isinstance(w, pywt.Wavelet) else pywt.Wavelet(w)).wavefun(lv)

    def f_contin(self):
        w = self.cname()

        def go():
            v = w if isinstance(w, pywt.ContinuousWavelet) else pywt.ContinuousWavelet(w)
            return list(v.wavefun(6)) + [v.lower_bound, v.upper_bound]
        return go

    def prec(self):
        return dict(eight=8, four=4, pzero=0, pminus=-1)[self.a["prec"]]

    def f_integrate(self):
        w, p = self.W(), self.prec()
        return lambda: pywt.integrate_wavelet(w, p)

    def f_centfreq(self):
        w, p = self.W(), self.prec()
        return lambda: pywt.central_frequency(w, p)

    def f_scale2freq(self):
        w, p = self.W(), self.prec()
        return lambda: pywt.scale2frequency(w, 3.5, p)

    def f_freq2scale(self):
        w, p = self.W(), self.prec()
        return lambda: pywt.frequency2scale(w, .25, p)

    def packc(self):
        c, L = self.a["c"], self.decn()
        i = 1 + int(self.bad.integers(len(L) - 1))
        if c == "apponly":
            L = L[:1]
        elif c == "nothing":
            L = []
        elif c == "anone":
            L[0] = None
        elif c == "partial":
            ks = [q for q in sorted(L[i])]
            del L[i][ks[int(self.bad.integers(len(ks)))]]
        elif c == "tuple":
            pass
        return tuple(L) if False else L

    def f_toarray(self):
        L, ax = self.packc(), self.AX()
        return lambda: [pywt.coeffs_to_array(L, axes=ax)[0]]

    def f_ravel(self):
        L, ax = self.packc(), self.AX()
        return lambda: [pywt.ravel_coeffs(L, axes=ax)[0]]

    def fmt(self):
        return dict(fdec="wavedecn", fbad="foo", fnone=None)[self.a["fmt"]]

    def f_fromarray(self):
        arr, sl = pywt.coeffs_to_array(self.decn(), axes=self.pax())
        sl = dict(slfit=sl, slempty=[], slnone=None)[self.a["sl"]]
        f = self.fmt()
        return lambda: pywt.array_to_coeffs(arr, sl, f)

    def f_unravel(self):
        arr, sl, sh = pywt.ravel_coeffs(self.decn(), axes=self.pax())
        c = self.a["sl"]
        if c == "slcount":
            sh = sh[:-1] if self.bad.random() < .5 else sh + sh[-1:]
        elif c == "slshape":
            sh = [tuple(v + 1 for v in sh[0])] + list(sh[1:])
        sl = [] if c == "slempty" else None if c == "slnone" else sl
        f = self.fmt()
        return lambda: pywt.unravel_coeffs(arr, sl, sh, f)

    def f_wavelist(self):
        fam = dict(famnone=None, fam="sym", fambad="nope", famint=3)[self.a["fam"]]
        k = dict(kall="all", kdisc="discrete", kcont="continuous", kbad="foo")[self.a["kind"]]
        return lambda: pywt.wavelist(fam, k)

    def f_modes(self):
        m = self.M()
        return lambda: int(pywt.Modes.from_object(m))


def pickle_copy(w):
    import pickle
    return pickle.loads(pickle.dumps(w))


def digest(o, h=None, top=True):
    """a value's structure, shapes, types and bytes"""
    h = h or hashlib.sha1()
    if isinstance(o, np.ndarray):
        h.update(f"A{o.shape}{o.dtype.str}".encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            h.update(f"K{k}".encode())
            digest(o[k], h, False)
    elif isinstance(o, (list, tuple)):
        h.update(f"{type(o).__name__}{len(o)}".encode())
        for v in o:
            digest(v, h, False)
    else:
        h.update(f"{type(o).__name__}{o!r}".encode())
    return h.hexdigest() if top else None


def requests(chk, budget):
    r = mc.domain_model(chk, budget)
    out = []
    for l in r.out.splitlines():
        if l.startswith('"REQ '):
            out.append(json.loads(json.loads(l)[4:]))
    if len(out) != r.distinct:
        raise MachineryError(f"{len(out)} requests for {r.distinct} states")
    out.sort(key=lambda q: json.dumps(q, sort_keys=True))
    return out


_libc = ctypes.CDLL(None)


def outcome(fn, a, seed, fill=0):
    """('ok', digest) or ('exc', type name, message); fresh memory is filled with something that depends on `fill`"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = Req(fn, a, seed).build()
        if fill:
            _libc.mallopt(-6, fill)          # M_PERTURB
            junk = [np.full(n, fill * 1e3) for n in range(1, 128)]     # small blocks come from numpy's own cache
            del junk
        try:
            return ("ok", digest(f()))
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:160], isinstance(e, (SystemError, RecursionError, UnboundLocalError, NameError, BufferError)))


@prop("C20")
def c20(chk):
    size_cases(chk)
    reqs = requests(chk, pick(2, 3))
    reps = pick(1, 1)
    items = [(q, rep) for q in reqs for rep in range(reps)]

    def one(it):
        q, rep = it
        seed = int(hashlib.sha1(f"{q['fn']}{json.dumps(q['a'], sort_keys=True)}{rep}{SEED}".encode()).hexdigest()[:8], 16)
        try:
            r = outcome(q["fn"], q["a"], seed, 0x11)
            c = outcome(q["fn"], q["canon"], seed, 0x5e) if q["v"] == "A" and r[0] == "ok" else None
        except Exception:
            import traceback
            raise MachineryError("building " + json.dumps(q) + "\n" + traceback.format_exc())
        return r, c, seed
    count = dict(A=0, R=0, F=0)
    for (q, rep), (_, st, v) in zip(items, supervised(one, items, limit=30)):
        count[q["v"]] += 1
        dev = {f: c for f, c in q["a"].items() if c != PLAIN(reqs, q["fn"])[f]}
        key = q["fn"] + ":" + ",".join(f"{f}={c}" for f, c in sorted(dev.items()))
        rep_ = dict(request=q, seed=None if st != "ok" else v[2])
        if st in ("hang", "crash"):
            chk.violate(key, f"{st} ({v})", rep_)
            continue
        if st != "ok":
            raise MachineryError(str(v))
        r, c, seed = v
        if r[0] == "exc" and r[3]:
            chk.violate(key, f"not an ordinary exception: {r[1]}: {r[2]}", rep_)
        elif q["v"] == "A" and r[0] != "ok":
            chk.violate(key, f"a documented request raises {r[1]}: {r[2]}", rep_)
        elif q["v"] == "R" and r[0] == "ok":
            chk.violate(key, "an invalid request is accepted", rep_)
        elif q["v"] == "A" and c != r:
            chk.violate(key, f"differs from the same request in its plain spelling ({q['canon']}): {c}", rep_)
        else:
            chk.cov["traces_validated_against_impl"] += 1
    chk.note("requests", requests=len(items), accepted=count["A"], rejected=count["R"], open=count["F"], functions=len({q["fn"] for q in reqs}))


def size_cases(chk):
    """the requests walked by spec/MC_Sizes.tla: same verdict, same lengths"""
    r = mc.sizes_model(chk)
    reqs = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"SIZ ')]
    if not reqs:
        raise MachineryError("no sizes")
    byF = collections.defaultdict(list)
    for n in DISC:
        byF[pywt.Wavelet(n).dec_len].append(n)

    def one(q):
        h = int(hashlib.sha1(json.dumps(q, sort_keys=True).encode() + bytes([SEED % 256])).hexdigest()[:8], 16)
        rng = np.random.default_rng(h)
        ws = byF[q["F"]]
        w, m, k, a = ws[h % len(ws)], q["mode"], q["kind"], q["asked"]
        z = lambda n: rng.standard_normal(n)
        out = []

        def run(f, want):
            try:
                g = f()
                out.append((True, g == want, f"lengths {g}, expected {want}"))
            except Exception as e:
                out.append((False, isinstance(e, (SystemError, RecursionError)), f"{type(e).__name__}: {e}"[:150]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "wavedec":
                if a["n"] == 0 and a["level"] == 0:
                    return []
                want = ([q["made"][0]] if q["made"] else [a["n"]]) + list(q["made"])
                run(lambda: [len(c) for c in pywt.wavedec(z(a["n"]), w, m, a["level"])], want)
                run(lambda: [c.shape[1] for c in pywt.wavedec(z((2, a["n"])), w, m, a["level"])], want)
                run(lambda: [c.shape[0] for c in pywt.wavedec(z((a["n"], 3)), w, m, a["level"], axis=0)], want)
                run(lambda: [c.shape[1] for c in [v if isinstance(v, np.ndarray) else v["d"] for v in pywt.wavedecn(z((2, a["n"])), w, m, a["level"], axes=(1,))]], want)
                if a["n"] and a["level"] >= 0:
                    sq = z((a["n"], a["n"]))
                    run(lambda: [c.shape[1] for c in [v if isinstance(v, np.ndarray) else v[0] for v in pywt.wavedec2(sq, w, m, a["level"])]], want)
            elif k == "downcoef":
                want = q["made"][:1]
                run(lambda: [len(pywt.downcoef("ad"[h % 2], z(a["n"]), w, m, a["level"]))], want)
            elif k == "swt":
                kw = dict(level=a["level"], start_level=a["start"])
                run(lambda: [len(c[1]) for c in pywt.swt(z(a["n"]), w, **kw)], list(q["made"]))
                run(lambda: [c[1].shape[0] for c in pywt.swt(z((a["n"], 2)), w, axis=0, **kw)], list(q["made"]))
                if a["level"] != 0:
                    run(lambda: [c["d"].shape[1] for c in pywt.swtn(z((2, a["n"])), w, axes=(-1,), **kw)], list(q["made"]))
                    run(lambda: [c[1][0].shape[1] for c in pywt.swt2(z((8, a["n"])), w, **kw)] if a["start"] + a["level"] <= 3 else [a["n"]] * a["level"] if q["ok"] else 1 // 0, list(q["made"]))
            elif k in ("waverec", "idwt"):
                ds = a["d"]
                f = (lambda s: pywt.idwt(z(s(a["n"])), z(s(ds[0])), w, m, axis=0)) if k == "idwt" else (lambda s: pywt.waverec([z(s(a["n"]))] + [z(s(d)) for d in ds], w, m, axis=0))
                run(lambda: [f(lambda n: n).shape[0]], [q["n"]])
                if q["ok"]:
                    run(lambda: [f(lambda n: (n, 2)).shape[0]], [q["n"]])
                    if k == "waverec":
                        if a["n"] == ds[0]:
                            run(lambda: [pywt.waverecn([z((2, a["n"]))] + [dict(d=z((2, d))) for d in ds], w, m, axes=(1,)).shape[1]], [q["n"]])
                        run(lambda: list(pywt.waverec2([z((a["n"], a["n"]))] + [tuple(z((d, d)) for _ in range(3)) for d in ds], w, m).shape), [q["n"]] * 2)
            elif k == "iswt":
                ds = a["d"]
                want = [a["n"]]
                run(lambda: [len(pywt.iswt([z(a["n"])] + [z(d) for d in ds], w))], want)
                run(lambda: [pywt.iswt([z((a["n"], 2))] + [z((d, 2)) for d in ds], w, axis=0).shape[0]], want)
                run(lambda: [pywt.iswtn([z((2, a["n"]))] + [dict(d=z((2, d))) for d in ds], w, axes=(1,)).shape[1]], want)
                run(lambda: list(pywt.iswt2([z((a["n"], a["n"]))] + [tuple(z((d, d)) for _ in range(3)) for d in ds], w).shape), want * 2)
        return out
    for q, (_, st, v) in zip(reqs, supervised(one, reqs, limit=30)):
        key = "sizes:" + q["kind"] + ":" + json.dumps(q["asked"], sort_keys=True).replace('"', "") + f",F={q['F']},{q['mode']}"
        if st in ("hang", "crash"):
            chk.violate(key, f"{st} ({v})", dict(request=q))
            continue
        if st != "ok":
            raise MachineryError(str(v))
        for j, (ok, flag, what) in enumerate(v):
            if ok != q["ok"]:
                chk.violate(key, ("an invalid request is accepted: " if ok else "a documented request raises ") + what + f" [form {j}]", dict(request=q))
            elif ok and not flag:
                chk.violate(key, what + f" [form {j}]", dict(request=q))
            elif not ok and flag:
                chk.violate(key, "not an ordinary exception: " + what, dict(request=q))
            else:
                chk.cov["traces_validated_against_impl"] += 1
    chk.note("sizes", requests=len(reqs))


_plain = {}


def PLAIN(reqs, fn):
    if not _plain:
        for q in reqs:      # the request fewest of whose classes are rare is the plain one
            _plain.setdefault(q["fn"], collections.defaultdict(collections.Counter))
            for f, c in q["a"].items():
                _plain[q["fn"]][f][c] += 1
        for g in _plain:
            _plain[g] = {f: n.most_common(1)[0][0] for f, n in _plain[g].items()}
    return _plain[fn]
