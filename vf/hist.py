"""Runs histories of calls in processes of their own.  usage: hist.py JOBS OUT  (pickled); nothing here calls the
library before a history starts, so that a history's first call is the first one its process makes."""
import sys, os, pathlib, pickle, threading, random, warnings, gc, copy, io
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import numpy as np
import pywt
from core import *

PKG = str(pathlib.Path(pywt.__file__).parent)

# ----------------------------------------------------------------- the caller's objects
R2 = 2 ** .5
Q4 = [v / 35 ** .5 / 1.0 for v in (1.0, 3.0, 4.0, 3.0)]
BANK = {1: [[.6, .8, .1, -.2], [-.2, -.1, .8, -.6], [-.2, .1, .8, .6], [-.6, .8, -.1, -.2]],
        2: [[.1, .7, .7, .1], [.3, -.7, .6, -.2], [.2, .6, .7, .3], [.1, -.7, .7, -.1]],
        3: [[.1, -.1, .7, .7, .2, .05], [.1, .3, -.7, .6, -.2, .1], [.2, .6, .7, .3, .1, .2], [.2, .1, -.7, .7, -.1, .3]]}


class Shaky:
    """data that cannot be turned into an array"""
    def __array__(self, dtype=None, copy=None):
        raise RuntimeError("no data")
    def __len__(self):
        raise RuntimeError("no data")
    @property
    def shape(self):
        raise RuntimeError("no data")
    ndim = dtype = shape


class Wav:
    """a wavelet slot: a discrete wavelet, a pair of them, two continuous wavelets"""
    def __init__(self, slot):
        self.slot, self.c = slot, 0
        self.name = "db2"
        if slot == 1:
            self.d = pywt.Wavelet("db2")
            self.e = pywt.Wavelet("bior2.2")
        else:
            self.d = pywt.Wavelet("db2", BANK[1])
            self.e = pywt.Wavelet("bior2.2", BANK[3])
        self.k = pywt.ContinuousWavelet("cmor1.5-1.0")
        self.g = pywt.ContinuousWavelet("gaus3")
        self.f = pywt.ContinuousWavelet("fbsp2-1.0-0.5")
        if slot == 2:
            self.k.bandwidth_frequency = 2.5
            self.g.lower_bound, self.g.upper_bound = -6., 7.
            self.f.fbsp_order = 3

    def turn(self):
        """objects that can change in place do, others are replaced (at the same address, usually)"""
        self.c = 1 - self.c
        if self.c:
            self.d = self.e = None
            if self.slot == 1:
                self.d = pywt.Wavelet("db2", BANK[2])
                self.e = pywt.Wavelet("bior2.2", BANK[1])
            else:
                self.d = pywt.Wavelet("db2", BANK[3])
                self.e = pywt.Wavelet("bior2.2")
                self.e.orthogonal, self.e.biorthogonal = True, False
            self.k.center_frequency = .7
            self.g.lower_bound, self.g.upper_bound = -3., 4.
            self.f.center_frequency = .8
        else:
            k, g, f = self.k, self.g, self.f
            self.d = self.e = None
            Wav.__init__(self, self.slot)
            k.center_frequency = 1.0
            f.center_frequency = .5
            g.lower_bound, g.upper_bound = self.g.lower_bound, self.g.upper_bound
            self.k, self.g, self.f = k, g, f

    def arg(self, v):
        """a name where the content has one"""
        return self.name if v and self.slot == 1 and self.c == 0 else self.d

    def objects(self):
        return [self.d, self.e, self.k, self.g, self.f]


SH = dict(x=(26,), x2=(9, 10), x3=(4, 6, 5), s=(32,), s2=(8, 12), s3=(4, 8, 4))
BIG = dict(x=(40001,), x2=(230, 301), x3=(30, 40, 35), s=(1 << 15,), s2=(256, 128), s3=(32, 16, 32))


class Dat:
    """a data slot: arrays whose content changes in place"""
    def __init__(self, slot, big=False):
        self.slot, self.c, self.big = slot, 0, big
        sh = BIG if big else SH
        for n, s in sh.items():
            setattr(self, n, np.empty(s))
            setattr(self, "z" + n, np.empty(s, complex))
            setattr(self, "f" + n, np.empty(s, np.float32))
            setattr(self, "i" + n, np.empty(s, np.int16))
        self.fill()

    def fill(self):
        r = np.random.default_rng(100 * self.slot + self.c + (1000 if self.big else 0))
        for n in (BIG if self.big else SH):
            a = getattr(self, n)
            a[...] = r.standard_normal(a.shape)
            a.flat[2::11] = 0           # a few samples are exactly zero
            z = getattr(self, "z" + n)
            z[...] = a - 1j * r.standard_normal(a.shape)
            z.flat[2::11] = 0
            getattr(self, "f" + n)[...] = a * 2
            getattr(self, "i" + n)[...] = r.integers(-99, 99, a.shape)

    def poke(self):
        self.c = 1 - self.c
        self.fill()


class Broken:
    """slots whose content no call can use"""
    def __init__(self, how, w, d):
        self.how, self.w_, self.d_ = how, w, d
    def wav(self):
        return BadW() if self.how in (0, 2) else self.w_
    def dat(self):
        return BadD(self.how) if self.how in (1, 2) else self.d_


class BadW:
    slot, c, name = 3, 0, "nope"
    d = e = k = g = f = "nope"
    def arg(self, v):
        return "nope"
    def objects(self):
        return []


class BadD:
    slot, c = 3, 0
    def __init__(self, how):
        self.how = how
    def __getattr__(self, n):
        return Shaky() if self.how == 1 else np.zeros((0, 0, 0, 0))


# ----------------------------------------------------------------- the calls
P = pywt
MO = [("symmetric", "periodization"), ("smooth", "antireflect"), ("periodic", "reflect")]
def m_(v):
    return MO[0][v]
def m2(v):
    return ["constant", "antisymmetric"][v]
LVL = [2, 1]
def scaled(c, k=1.5):
    """coefficients somebody worked on"""
    if isinstance(c, np.ndarray):
        return c * k
    if isinstance(c, dict):
        return {q: scaled(x, k) for q, x in c.items()}
    return type(c)(scaled(x, k + .25) for x in c)

def theirs(o, w):
    """an object of the library's as it is, one of the caller's by value"""
    return value(o) if any(o is q for q in w.objects()) else o

def tree1(w, d, v):
    t = P.WaveletPacket(d.x, w.arg(v), m_(v), maxlevel=3)
    return [n.data for n in t.get_level(2, "freq" if v else "natural")] + [theirs(t.wavelet, w), t.maxlevel, t.mode]
def tree1r(w, d, v):
    t = P.WaveletPacket(d.x, w.arg(v), m_(v), maxlevel=3)
    for n in t.get_level(2):
        n.data = n.data * 2
    del t["ad" if v else "da"]
    return [t.reconstruct(False), [n.path for n in t.get_leaf_nodes()]]
def tree2(w, d, v):
    t = P.WaveletPacket2D(d.x2, w.arg(v), m_(v), maxlevel=2)
    return [[n.data for n in (row if isinstance(row, list) else [row])] for row in t.get_level(1 + v, "freq")] + [theirs(t.wavelet, w)]
def tree2r(w, d, v):
    t = P.WaveletPacket2D(d.x2, w.arg(v), m_(v), maxlevel=2)
    t.get_leaf_nodes(decompose=True)
    del t["h" if v else "vd"]
    return [t.reconstruct(False), [n.path for n in t.get_leaf_nodes()]]
def treen(w, d, v):
    t = P.WaveletPacketND(d.x3, w.arg(v), m_(v), maxlevel=1, axes=(0, 1, 2) if v else (2, 0))
    return [n.data for n in t.get_level(1)] + [theirs(t.wavelet, w), t.axes]
def treenr(w, d, v):
    t = P.WaveletPacketND(d.zx2, w.arg(v), m_(v), maxlevel=2)
    for n in t.get_leaf_nodes(decompose=True):
        n.data = n.data - 1
    return [t.reconstruct(bool(v)), sorted(n.path for n in t.get_leaf_nodes())]
def fsr(w, d, v):
    r = P.fswavedecn(d.x2, [w.arg(v), w.e][:: 1 - 2 * v] if v else w.arg(1), m_(v), levels=2)
    return [r.coeffs, r.coeff_slices, [theirs(q, w) for q in r.wavelets], r.modes, r.axes, r.levels, r.detail_keys(), r.approx, r[r.detail_keys()[0]]]
def fsrec(w, d, v):
    r = P.fswavedecn(d.x3 if v else d.zx2, w.arg(v), m2(v), levels=1 + v)
    r.coeffs = r.coeffs * 2
    return [P.fswaverecn(r), r.approx]
def packs(w, d, v):
    c = P.wavedecn(d.x3, w.arg(v), m_(v), level=1)
    a, s = P.coeffs_to_array(c, padding=v)
    q, s2, sh = P.ravel_coeffs(c)
    return [a, s, q, s2, sh]
def unpacks(w, d, v):
    c = P.wavedec2(d.x2, w.arg(v), m_(v), level=2 - v)
    a, s = P.coeffs_to_array(c)
    q, s2, sh = P.ravel_coeffs(c)
    return [P.array_to_coeffs(a * 2, s, "wavedec2"), P.unravel_coeffs(q * 3, s2, sh, "wavedec2")]
def cat(w, d, v):
    out = [P.wavelist(kind=["all", "discrete"][v]), P.families(bool(v)), P.wavelist("bior" if v else "gaus")]
    return out
def names(w, d, v):
    return [P.Wavelet(n) for n in (["db3", "rbio1.3", "dmey"] if v else ["DB2", "coif1", "haar"])] + [P.ContinuousWavelet("shan0.5-1" if v else "cgau2")]
def attrs(w, d, v):
    q = w.e if v else w.d
    return [value(q), q.filter_bank, q.dec_lo, str(q), q.inverse_filter_bank, len(q), q.rec_len]
def cattrs(w, d, v):
    return [value(w.k if v else w.g), str(w.g), P.DiscreteContinuousWavelet("mexh" if v else "db1")]
def modes(w, d, v):
    return [list(P.Modes.modes), int(P.Modes.from_object("zpd" if v else "smooth")), int(P.Modes.from_object(P.Modes.reflect))]
def sizes(w, d, v):
    return [P.dwt_max_level(1000 + v, w.d), P.dwt_coeff_len(33, w.d, m_(v)), P.dwtn_max_level((40, 60), w.arg(v)), P.swt_max_level(48 << v),
            P.wavedecn_shapes((20, 13), w.arg(v), m_(v), level=1 + v), P.wavedecn_size(P.wavedecn_shapes((9, 8), w.arg(v), level=1))]
def banks(w, d, v):
    return [P.qmf(d.x[:6 + 2 * v]), P.orthogonal_filter_bank(d.x[:4 + 2 * v])]
def scales(w, d, v):
    q = [w.g, w.k][v]
    return [P.central_frequency(q, precision=6 + v), P.scale2frequency(q, np.array([1, 2 + v])), P.frequency2scale(q, .25)]
def data(w, d, v):
    return [P.data.ecg(), P.data.nino()] if v else [P.data.ascent(), P.data.camera(), P.data.aero()]
def demo(w, d, v):
    return [P.data.demo_signal("Bumps", 64 + v), P.data.demo_signal("doppler", 33), P.data.demo_signal("sineoneoverx")[:5], P.data.demo_signal("list")]
def idwt1(w, d, v):
    n = 8
    return P.idwt(None if v == 2 else d.x[:n], d.x[n:2 * n], w.arg(v), m_(v))
def swtd(w, d, v):
    return [P.swt(d.s, w.arg(v), level=2, start_level=v, norm=bool(v)), P.swt(d.zx2[:, :8], w.d, 1, axis=1, trim_approx=True)]
def iswtd(w, d, v):
    c = scaled(P.swt(d.zs if v else d.s, w.arg(v), level=3 - v, trim_approx=bool(v)))
    return P.iswt(c, w.arg(v), norm=bool(v))
def iswt2d(w, d, v):
    return P.iswt2(scaled(P.swt2(d.s2, w.arg(v), level=2, trim_approx=bool(v)), 2), w.arg(v), norm=not v)
def iswtnd(w, d, v):
    return P.iswtn(scaled(P.swtn(d.s3, w.arg(v), level=1 + v, axes=(0, 1, 2))), w.arg(v), axes=(0, 1, 2))
def packed(f):
    return lambda w, d, v: f(w, d, v)

KINDS = {
    "dwt": lambda w, d, v: P.dwt(d.fx if v else d.x, w.arg(v), m_(v)),
    "dwtaxis": lambda w, d, v: P.dwt(d.zx3 if v else d.x3, w.arg(v), m2(v), axis=v),
    "idwt": idwt1,
    "idwtaxis": lambda w, d, v: P.idwt(d.x3 if v else d.zx3, None if v else d.x3, w.arg(v), m2(v), axis=1),
    "downcoef": lambda w, d, v: P.downcoef("ad"[v], d.zx if v else d.x, w.arg(v), m2(v), level=2),
    "upcoef": lambda w, d, v: P.upcoef("da"[v], d.fx if v else d.x, w.arg(v), level=1 + v, take=20),
    "dwt2": lambda w, d, v: P.dwt2(d.x2 if v else d.zx2, w.arg(v), m_(v)),
    "idwt2": lambda w, d, v: P.idwt2((d.x2, (d.x2 + 1, None if v else d.x2 - 2, d.x2 * 2)), w.arg(v), m_(v)),
    "dwtn": lambda w, d, v: P.dwtn(d.x3, w.arg(v), m_(v), axes=(0, 2) if v else None),
    "idwtn": lambda w, d, v: P.idwtn({"aa": d.x2, "ad": d.x2 * 2, "da": d.zx2 if v else d.x2, "dd": d.x2 - 1}, w.arg(v), m2(v)),
    "wavedec": lambda w, d, v: P.wavedec(d.zx if v else d.x, w.arg(v), m_(v), level=LVL[v]),
    "waverec": lambda w, d, v: P.waverec(scaled(P.wavedec(d.fx if v else d.x, w.arg(v), m_(v), level=2)), w.arg(v), m_(v)),
    "wavedec2": lambda w, d, v: P.wavedec2(d.x2 if v else d.fx2, w.arg(v), m2(v), level=LVL[v]),
    "waverec2": lambda w, d, v: P.waverec2(scaled(P.wavedec2(d.x2, w.arg(v), m2(v), level=2 - v)), w.arg(v), m2(v)),
    "wavedecn": lambda w, d, v: P.wavedecn(d.x3, w.arg(v), m_(v), level=1, axes=(2, 1) if v else None),
    "waverecn": lambda w, d, v: P.waverecn(scaled(P.wavedecn(d.zx3 if v else d.x3, w.arg(v), m_(v), level=2)), w.arg(v), m_(v)),
    "fswavedecn": fsr, "fswaverecn": fsrec, "pack": packs, "unpack": unpacks,
    "swt": swtd, "iswt": iswtd,
    "swt2": lambda w, d, v: P.swt2(d.s2, w.arg(v), level=2, start_level=0, trim_approx=bool(v), norm=bool(v)), "iswt2": iswt2d,
    "swtn": lambda w, d, v: P.swtn(d.s3 if v else d.zs2, w.arg(v), level=2, norm=bool(v)), "iswtn": iswtnd,
    "mra": lambda w, d, v: P.mra(d.x if v else d.s, w.arg(v), level=2, transform="dwt" if v else "swt", mode="periodization"),
    "mra2": lambda w, d, v: P.mra2(d.s2, w.arg(v), level=1, transform="dwt2" if v else "swt2", mode="periodization"),
    "mran": lambda w, d, v: P.mran(d.s3 if v else d.s2, w.arg(v), level=1, transform="dwtn" if v else "swtn", mode="periodization"),
    "imra": lambda w, d, v: [P.imra([d.x, d.x * 2]), P.imra2([d.x2, (d.x2, d.x2, d.x2 + v)]), P.imran([d.x2, {"ad": d.x2 * 2}])],
    "threshold": lambda w, d, v: [P.threshold(d.zx if v else d.x, .5, ["soft", "garrote"][v]), P.threshold(d.x2, .2, ["hard", "less"][v], substitute=v), P.threshold_firm(d.x2 if v else d.x, .2, .7 + v), P.threshold_firm(d.zx, .1 + v, 1.5 + v)],
    "pad": lambda w, d, v: P.pad(d.x2 if v else d.x3, (2, 3) if v else 4, m2(v)),
    "cwt": lambda w, d, v: P.cwt(d.x, [1, 2.5, 4 + v], [w.g, w.k][v], sampling_period=.5, method=["conv", "fft"][v]),
    "cwt2": lambda w, d, v: P.cwt(d.x2 if v else d.fx2, [3, 1.5], ["mexh", "cgau2"][v], method=["fft", "conv"][v], axis=0),
    "cwtf": lambda w, d, v: P.cwt(d.zx if v else d.x, 3. + v, w.f),
    "wavefun": lambda w, d, v: [(w.e if v else w.d).wavefun(level=3 + v), (w.d if v else w.e).wavefun(level=4)],
    "cwavefun": lambda w, d, v: [w.k.wavefun(length=40) if v else w.k.wavefun(level=5), w.g.wavefun(length=33 + v), w.f.wavefun(level=4)],
    "integrate": lambda w, d, v: [list(P.integrate_wavelet(q, precision=5 + v)) for q in (w.d, w.e, w.g, w.k)],
    "scales": scales, "attrs": attrs, "cattrs": cattrs, "names": names, "catalogue": cat, "modes": modes, "sizes": sizes, "banks": banks,
    "tree1": tree1, "tree1r": tree1r, "tree2": tree2, "tree2r": tree2r, "treen": treen, "treenr": treenr,
    "data": data, "demo": demo,
}
# C26's own: one loader or signal each
DEMO = ["Blocks", "Bumps", "HeaviSine", "Doppler", "Ramp", "HiSine", "LoSine", "LinChirp", "TwoChirp", "QuadChirp", "MishMash", "WernerSorrows", "HypChirps", "LinChirps",
        "Chirps", "Gabor", "sineoneoverx", "Piece-Regular", "Piece-Polynomial", "Riemann"]


def one_demo(s):
    fixed = s in ("Gabor", "sineoneoverx")
    return lambda w, d, v: P.data.demo_signal(s.upper() if v else s, None if fixed else 64 + 32 * v)


LOADERS = {n: (lambda n: lambda w, d, v: getattr(P.data, n)())(n) for n in ("ascent", "aero", "camera", "ecg", "nino")}
LOADERS["demolist"] = lambda w, d, v: P.data.demo_signal("LIST" if v else "list")
LOADERS.update({f"demo{i}": one_demo(s) for i, s in enumerate(DEMO)})
KINDS.update(LOADERS)


def call(f, w, d):
    n, v = f.rsplit("/", 1)
    return KINDS[n](w, d, int(v))


# ----------------------------------------------------------------- values
def flat(o, acc):
    if isinstance(o, np.ndarray):
        acc.append(o)
    elif isinstance(o, dict):
        acc.append("{" + ",".join(map(str, o)))
        for k in o:
            flat(o[k], acc)
    elif isinstance(o, (list, tuple)):
        if type(o) is tuple and any(isinstance(v, slice) for v in o):
            acc.append(repr(o))
            return acc
        acc.append(type(o).__name__ + str(len(o)))
        for v in o:
            flat(v, acc)
    elif isinstance(o, pywt.Wavelet):
        flat([o.name, o.dec_lo, o.dec_hi, o.rec_lo, o.rec_hi, o.orthogonal, o.biorthogonal, o.symmetry, o.family_name, o.short_family_name, o.vanishing_moments_psi, o.number], acc)
    elif isinstance(o, pywt.ContinuousWavelet):
        flat([o.name, o.lower_bound, o.upper_bound, o.center_frequency, o.bandwidth_frequency, o.fbsp_order, o.complex_cwt, o.symmetry, o.family_name, str(o.dt)], acc)
    elif isinstance(o, (float, complex, np.floating, np.complexfloating)):
        acc.append(np.asarray(o))
    else:
        acc.append(repr(o))
    return acc


def value(o):
    return [np.array(v) if isinstance(v, np.ndarray) else v for v in flat(o, [])]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return False
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype:
                return False
            if x.tobytes() != y.tobytes():
                if x.dtype.kind not in "fc":
                    return False
                eps = 2e-5 if x.dtype.itemsize // (2 if x.dtype.kind == "c" else 1) <= 4 else 1e-11
                with np.errstate(all="ignore"):
                    top = np.max(np.abs(y), initial=0)
                    if not np.allclose(x, y, rtol=0, atol=eps * (top if np.isfinite(top) else 1), equal_nan=True):
                        return False
        elif x != y:
            return False
    return True


def spoil(o, mine, depth=0):
    """the caller overwrites what it got; mine: its own objects, which it keeps as they are"""
    if any(o is q for q in mine):
        return
    if isinstance(o, np.ndarray):
        if o.flags.writeable and not any(isinstance(q, np.ndarray) and np.shares_memory(o, q) for q in mine):
            o[...] = -77 if o.dtype.kind in "iu" and o.dtype.kind == "i" else 77
    elif isinstance(o, dict):
        for k in list(o):
            spoil(o[k], mine)
        o.clear()
    elif isinstance(o, (list, tuple)):
        for v in o:
            spoil(v, mine)
        if isinstance(o, list):
            o[:] = ["spoiled"]
    elif isinstance(o, pywt.Wavelet):
        o.orthogonal, o.biorthogonal = not o.orthogonal, not o.biorthogonal
    elif isinstance(o, pywt.ContinuousWavelet):
        o.lower_bound, o.upper_bound, o.center_frequency, o.bandwidth_frequency, o.fbsp_order = -1.5, 1.25, 3.5, 2.25, 4
        o.orthogonal, o.biorthogonal, o.complex_cwt = 1, 1, 1 - o.complex_cwt


def process():
    """what a call has no business changing in its process"""
    return (tuple(sorted(np.geterr().items())), np.random.get_state()[1].tobytes(), np.random.get_state()[2:], random.getstate()[1][:20], os.getcwd(),
            tuple(map(str, warnings.filters)), str(np.get_printoptions()), threading.active_count(), sys.getrecursionlimit(),
            tuple(sorted((k, id(v)) for k, v in pywt.__dict__.items() if not isinstance(v, type(sys)))), tuple(pywt.Modes.modes), tuple(sorted(pywt.data.__dict__)))


def own(w, d):
    return [q for s in w.values() for q in s.objects()] + [a for s in d.values() for a in vars(s).values() if isinstance(a, np.ndarray)]


# ----------------------------------------------------------------- control of threads and faults at Python lines of the library
class Cut(BaseException):
    pass


def traced(fn, hook):
    """fn() with hook() called before every line of the library's Python code"""
    def local(frame, event, arg):
        if event == "line":
            hook()
        return local

    def top(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(top)
    try:
        return fn()
    finally:
        sys.settrace(old)


def lines(fn):
    n = [0]
    def hook():
        n[0] += 1
    r = traced(fn, hook)
    return r, n[0]


class Baton:
    """threads whose steps follow a schedule"""
    def __init__(self, plan):
        self.plan, self.i, self.cv = plan, 0, threading.Condition()     # plan: [(thread, lines)]
        self.used, self.over = 0, set()

    def settle(self):
        while self.i < len(self.plan) and (self.plan[self.i][0] in self.over or self.used >= self.plan[self.i][1]):
            self.i, self.used = self.i + 1, 0
        self.cv.notify_all()

    def turn(self, t, n=1):
        with self.cv:
            self.settle()
            while self.i < len(self.plan) and self.plan[self.i][0] != t:
                if not self.cv.wait(20):
                    raise MachineryError("schedule stuck")
            if self.i < len(self.plan):
                self.used += n

    def done(self, t):
        with self.cv:
            self.over.add(t)
            self.settle()


# ----------------------------------------------------------------- one history
class Hist:
    def __init__(self, fresh, big=False):
        """fresh: key -> (class, value)"""
        self.fresh = fresh
        self.w = {s: Wav(s) for s in (1, 2)}
        self.d = {s: Dat(s, big) for s in (1, 2)}
        self.held, self.steps, self.key = {}, [], {}
        self.used = set()
        self.env = process()

    def keyof(self, ev):
        return (ev["f"], ev["w"], self.w[ev["w"]].c, ev["d"], self.d[ev["d"]].c)

    def klass(self, k):
        key = self.key[k]
        self.used.add(key)
        v = value(self.held[k])
        if same(v, self.fresh[key][1]):
            return self.fresh[key][0]
        for q, (c, u) in self.fresh.items():
            if q[0] == key[0] and same(v, u):
                self.used.add(q)
                return c
        return -1

    def look(self, ev):
        ev["got"] = [[k, self.klass(k)] for k in sorted(self.held)]
        now = process()
        ev["env"] = 0 if now == self.env else 1
        self.env = now
        self.steps.append(ev)

    def do(self, ev):
        ev = dict(ev)
        e = ev["e"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if e == "call":
                self.key[ev["k"]] = self.keyof(ev)
                try:
                    self.held[ev["k"]] = call(ev["f"], self.w[ev["w"]], self.d[ev["d"]])
                except Exception as x:
                    ev["raised"] = f"{type(x).__name__}: {x}"[:200]
            elif e == "turn":
                self.w[ev["w"]].turn()
            elif e == "poke":
                self.d[ev["d"]].poke()
            elif e == "spoil":
                spoil(self.held.pop(ev["k"], None), own(self.w, self.d))
            elif e == "fail":
                self.fail(ev)
        self.look(ev)

    def fail(self, ev):
        how = ev.pop("how")
        w, d = self.w[ev["w"]], self.d[ev["d"]]
        if how < 3:
            b = Broken(how, w, d)
            try:
                call(ev["f"], b.wav(), b.dat())
            except Exception:
                pass
            return
        # interrupted somewhere
        n = [0]
        _, total = lines(lambda: call(ev["f"], w, d)) if how == 3 else (0, 0)
        at = ev.pop("at", .5) * total

        def hook():
            n[0] += 1
            if n[0] > at:
                sys.settrace(None)
                raise Cut
        try:
            traced(lambda: call(ev["f"], w, d), hook)
        except Cut:
            pass
        finally:
            sys.settrace(None)
            np.seterr(**dict(self.env[0]))       # the interruption may have come while a with statement was being left

    def record(self):
        return dict(steps=self.steps, all=True, fresh=[list(k) + [self.fresh[k][0]] for k in sorted(self.used)])

    # two calls at once, step by step
    def pair(self, evs, sched, stages):
        n = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for t, ev in evs.items():
                n[t] = ev.pop("n")
        plan = []
        for t in sched:
            seen = sum(1 for q in plan if q[0] == t)
            plan.append((t, (seen + 1) * n[t] // stages - seen * n[t] // stages))
        plan = [p for p in plan if p[1]]
        b = Baton(plan)
        out, err = {}, {}

        def body(t, ev):
            try:
                b.turn(t, 0)
                out[t] = traced(lambda: call(ev["f"], self.w[ev["w"]], self.d[ev["d"]]), lambda: b.turn(t))
            except BaseException as x:
                err[t] = x
            finally:
                b.done(t)
        for t, ev in evs.items():
            self.steps.append(dict(ev, open=1, got=[[k, self.klass(k)] for k in sorted(self.held)], env=0))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            th = [threading.Thread(target=body, args=(t, ev)) for t, ev in evs.items()]
            for q in th:
                q.start()
            for q in th:
                q.join()
        for t, ev in evs.items():
            if isinstance(err.get(t), MachineryError):
                raise err[t]
        for t, ev in evs.items():
            if t in out:
                self.key[ev["k"]], self.held[ev["k"]] = self.keyof(ev), out[t]
            e = dict(e="done", k=ev["k"])
            if t in err:
                e["raised"] = f"{type(err[t]).__name__}: {err[t]}"[:200]
            self.look(e)


def clean_globals():
    gc.disable()


def do_fresh(job):
    """the value of a call that is the first thing its process does"""
    key, big = job
    f, ws, wc, ds, dc = key
    w, d = Wav(ws), Dat(ds, big)
    if wc:
        w.turn()
    if dc:
        d.poke()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return value(call(f, w, d))


def in_child(fn, job):
    """fn(job) in a process of its own"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                b = pickle.dumps(("ok", fn(job)))
            except Exception:
                b = pickle.dumps(("exc", traceback.format_exc()))
            with os.fdopen(wr, "wb") as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if not b:
        os.kill(os.getpid(), signal.SIGKILL)     # as the call did
    return pickle.loads(b)


FRESH, BIGFRESH = {}, {}


def do_history(job):
    h = Hist(FRESH)
    for ev in job["events"]:
        h.do(ev)
        if any("raised" in s for s in h.steps[-1:]):
            break
    return h.record()


def do_pairs(job):
    """several pairs of calls, each in a number of schedules"""
    h = Hist(FRESH)
    n = {}
    for f, w, d in job["calls"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            n[f, w, d] = lines(lambda: call(f, h.w[w], h.d[d]))[1]
    k = 0
    for (i, j), sched, stages in job["runs"]:
        evs = {}
        for t, c in ((1, job["calls"][i]), (2, job["calls"][j])):
            k += 1
            evs[t] = dict(e="call", t=t, f=c[0], w=c[1], d=c[2], k=k, n=n[tuple(c)])
        h.pair(evs, sched, stages)
        for t in evs:
            h.do(dict(e="spoil", k=evs[t]["k"]))
        if any("raised" in s for s in h.steps[-4:]):
            break
    return h.record()


def do_storm(job):
    """threads that really run at the same time, over shared slots"""
    h = Hist(BIGFRESH if job["big"] else FRESH, job["big"])
    lock = threading.Lock()
    sys.setswitchinterval(1e-6)
    events, values = [], []
    gate = threading.Barrier(len(job["threads"]))

    def body(t, calls):
        gate.wait()
        for q, (f, w, d) in enumerate(calls):
            k = 1000 * t + q
            with lock:
                events.append(dict(e="call", open=1, t=t, f=f, w=w, d=d, k=k))
            e = dict(e="done", k=k)
            try:
                o = call(f, h.w[w], h.d[d])
                key = (f, w, 0, d, 0)
                ok = same(value(o), h.fresh[key][1])
                e["got"] = [[k, h.fresh[key][0] if ok else -1]]
            except Exception as x:
                e["raised"] = f"{type(x).__name__}: {x}"[:200]
                e["got"] = []
            with lock:
                events.append(e)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        th = [threading.Thread(target=body, args=(t + 1, c)) for t, c in enumerate(job["threads"])]
        for q in th:
            q.start()
        for q in th:
            q.join()
    env = process()
    for e in events:
        e.setdefault("got", [])
        e["env"] = 0
        if e["e"] == "call":
            h.used.add((e["f"], e["w"], 0, e["d"], 0))
    if events:
        events[-1]["env"] = 0 if env == h.env else 1
    h.steps = events
    return dict(h.record(), all=False)


DO = dict(fresh=do_fresh, history=do_history, pairs=do_pairs, storm=do_storm)


def main():
    global FRESH, BIGFRESH
    with open(sys.argv[1], "rb") as f:
        J = pickle.load(f)
    FRESH, BIGFRESH = J.get("fresh", {}), J.get("bigfresh", {})
    res = supervised(lambda j: in_child(DO[J["what"]], j), J["jobs"], nproc=J.get("nproc", NCPU), limit=J.get("limit", 100))
    out = []
    for i, s, v in res:
        if s == "ok":
            s, v = v
        out.append((i, s, v))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    try:
        main()
    finally:
        cleanup()
