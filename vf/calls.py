"""Recording real API calls as exact integer trace records for spec/CallTrace.tla."""
import itertools, json, math, warnings
import numpy as np
import pywt
from core import *

MODES = ["zero", "constant", "symmetric", "reflect", "periodic", "smooth", "periodization", "antisymmetric", "antireflect"]
MODEINT = {m: int(getattr(pywt.Modes, m)) for m in MODES}
DT = {"f8": np.float64, "f4": np.float32, "c16": np.complex128, "c8": np.complex64, "f2": np.float16,
      "i8": np.int64, "i4": np.int32, "i2": np.int16, "u1": np.uint8, "b": np.bool_, "g": np.longdouble, "G": np.clongdouble,
      "i1": np.int8, "u4": np.uint32}
REALDT = {"f8", "f4", "f2", "i8", "i4", "i2", "i1", "g"}


# ----------------------------------------------------------------- filter banks
class Bank:
    """Integer taps; a tap's value is taps / 2**ds (decomposition) or / 2**rs (reconstruction)."""
    _w = {}

    def __init__(self, dl, dh, rl, rh, ds=0, rs=0, name="bank", orthogonal=False):
        self.t = [list(map(int, f)) for f in (dl, dh, rl, rh)]
        n = max(map(len, self.t))
        n += n % 2
        self.raw = self.t
        self.t = [f + [0] * (n - len(f)) for f in self.t]
        self.ds, self.rs, self.name = ds, rs, name
        self._obj = None

    def json(self):
        return dict(dl=self.t[0], dh=self.t[1], rl=self.t[2], rh=self.t[3], ds=self.ds, rs=self.rs)

    @property
    def F(self):
        return len(self.t[0])

    def wavelet(self):
        if self._obj is None:
            sc = [2.0 ** -self.ds] * 2 + [2.0 ** -self.rs] * 2
            self._obj = pywt.Wavelet(self.name, filter_bank=[[v * s for v in f] for f, s in zip(self.raw, sc)])
        return self._obj

    def gain(self, which="d"):
        k, s = ((0, 1), self.ds) if which == "d" else ((2, 3), self.rs)
        return max(sum(abs(v) for v in self.t[i]) for i in k)


THIN = [False]


def rand_bank(rng, F, lim=3, name=None):
    if THIN[0]:      # one tap of size one per filter: many levels and axes stay in range
        def f():
            v = np.zeros(F, int)
            v[[0, F - 1, int(rng.integers(F))][rng.integers(3)]] = rng.choice([-1, 1])
            return v.tolist()
        return Bank(f(), f(), f(), f(), name=name or f"thin{F}")

    def f():
        v = rng.integers(-lim, lim + 1, F)
        if F >= 2:
            v[0] = v[0] or 1
            v[-1] = v[-1] or -1
        return v.tolist()
    return Bank(f(), f(), f(), f(), name=name or f"rnd{F}")


# perfect-reconstruction banks with integer taps: synthesis after analysis multiplies by gainK (spec/MC_Bank checks this);
# spline pairs, and orthogonal ones from rotations with rational angles
def _pr(name, dl, dh, rl, rh, K, orth, ds=0, rs=0):
    b = Bank(dl, dh, rl, rh, ds=ds, rs=rs, name=name)
    b.gainK, b.orth = K, orth
    return b


PRB = [
    _pr("haar", [1, 1], [-1, 1], [1, 1], [1, -1], 2, True),
    _pr("lat4", [-9, 12, 16, 12], [-12, 16, -12, -9], [12, 16, 12, -9], [-9, -12, 16, -12], 625, True),
    _pr("lat4b", [36, -48, 20, 15], [-15, 20, 48, 36], [15, 20, -48, 36], [36, 48, 20, -15], 4225, True),
    _pr("lat6", [-2, 4, 3, -1, 4, 2], [-2, 4, 1, 3, -4, -2], [2, 4, -1, 3, 4, -2], [-2, -4, 3, 1, 4, -2], 50, True),
    _pr("lat8", [6, -6, -19, -5, -5, 3, -2, -2], [2, -2, -3, -5, 5, -19, 6, 6], [-2, -2, 3, -5, -5, -19, -6, 6], [6, 6, -19, 5, -5, -3, -2, 2], 500, True),
    _pr("sp22", [0, -1, 2, 6, 2, -1], [0, 1, -2, 1, 0, 0], [0, 1, 2, 1, 0, 0], [0, 1, 2, -6, 2, 1], 16, False),
    _pr("sp13", [-1, 1, 8, 8, 1, -1], [0, 0, -1, 1, 0, 0], [0, 0, 1, 1, 0, 0], [-1, -1, 8, -8, 1, 1], 16, False),
    _pr("sp31", [-1, 3, 3, -1], [-1, 3, -3, 1], [1, 3, 3, 1], [-1, -3, 3, 1], 16, False),
    _pr("sp33", [3, -9, -7, 45, 45, -7, -9, 3], [0, 0, -1, 3, -3, 1, 0, 0], [0, 0, 1, 3, 3, 1, 0, 0], [3, 9, -7, -45, 45, 7, -9, -3], 256, False),
]
# the same with gain one: dyadic taps (exact for signals with enough factors of two)
PRD = [
    _pr("haar2", [1, 1], [-1, 1], [1, 1], [1, -1], 1, False, ds=1),
    _pr("sp22n", [0, -1, 2, 6, 2, -1], [0, 1, -2, 1, 0, 0], [0, 1, 2, 1, 0, 0], [0, 1, 2, -6, 2, 1], 1, False, ds=3, rs=1),
    _pr("sp13n", [-1, 1, 8, 8, 1, -1], [0, 0, -1, 1, 0, 0], [0, 0, 1, 1, 0, 0], [-1, -1, 8, -8, 1, 1], 1, False, ds=3, rs=1),
    _pr("sp31n", [-1, 3, 3, -1], [-1, 3, -3, 1], [1, 3, 3, 1], [-1, -3, 3, 1], 1, False, ds=2, rs=2),
]

# ----------------------------------------------------------------- array variants
GUARD = 1.7e5   # finite guard for integer dtypes


def mk(a, var, keep):
    """the object handed to the library for integer array a; keep collects (buffer, copy) pairs"""
    dt, lay = var.get("dt", "f8"), var.get("lay", "C")
    a = np.asarray(a)
    if dt == "mix":      # arrays of different types in one call, by value so that it is reproducible
        h = hash(a.tobytes()) & 3 if not var.get("single") else (hash(a.tobytes()) & 1) + 4
        dt = {"c": ["c16", "c16", "c16", "c16", "c16", "c8"]}.get(a.dtype.kind, ["f8", "i8", "f8", "i4", "f8", "f4"])[h]
    x = np.asarray(a.astype(DT[dt]))
    if isinstance(lay, dict):
        import mem
        if x.ndim == len(lay["kinds"]):
            return mem.place(x, lay, keep)
        lay = "C"
    if lay == "list":
        o = x.tolist()
        keep.append((o, json.dumps(o, default=str)))
        return o
    if lay == "tuple":
        o = tuple(x.tolist())
        return o
    if lay == "swap":
        x = x.astype(x.dtype.newbyteorder())
        keep.append((x, x.copy()))
        return x
    if lay == "F":
        x = np.asfortranarray(x)
        keep.append((x, x.copy(order="K")))
        return x
    if lay in ("step", "neg", "off", "T"):
        fill = np.nan if x.dtype.kind in "fc" else (1 if x.dtype.kind == "b" else 99)
        if lay == "off":
            base = np.full([n + 5 for n in x.shape], fill, x.dtype)
            sl = tuple(slice(2, 2 + n) for n in x.shape)
        elif lay == "step":
            base = np.full([3 * n + 4 for n in x.shape], fill, x.dtype)
            sl = tuple(slice(2, 2 + 3 * n, 3) for n in x.shape)
        elif lay == "neg":
            base = np.full([n + 4 for n in x.shape], fill, x.dtype)
            sl = tuple(slice(n + 1, 1, -1) for n in x.shape)
        else:
            base = np.full([2 * n + 3 for n in x.shape[::-1]], fill, x.dtype)
            v = base[tuple(slice(1, 1 + 2 * n, 2) for n in x.shape[::-1])].T
            v[...] = x
            keep.append((base, base.copy()))
            return v
        v = base[sl]
        v[...] = x
        keep.append((base, base.copy()))
        return v
    if lay == "ro":
        x = np.array(x)
        x.setflags(write=False)
        return x
    if lay == "sub":
        x = x.view(SubArr)
        return x
    x = np.ascontiguousarray(x) if np.ndim(x) else np.array(x)
    keep.append((x, x.copy()))
    return x


class SubArr(np.ndarray):
    pass


def same_bytes(a, b):
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def unchanged(keep):
    for o, c in keep:
        if hasattr(o, "same"):
            if not o.same():
                return False
        elif isinstance(o, list):
            if isinstance(c, str):
                if json.dumps(o, default=str) != c:
                    return False
            elif not (len(o) == len(c) and all(x is y for x, y in zip(o, c))):
                return False
        elif isinstance(o, dict):
            if not (list(o) == [k for k, _ in c] and all(o[k] is v for k, v in c)):
                return False
        elif isinstance(o, np.ndarray) and not same_bytes(np.asarray(o), np.asarray(c)):
            return False
    return True


def mkstruct(s, var, keep):
    """arrays, None, or lists/tuples/dicts of them"""
    if s is None or isinstance(s, (str, bool, int)):
        return s
    if isinstance(s, dict):
        o = {k: mkstruct(v, var, keep) for k, v in s.items()}
        keep.append((o, list(o.items())))
        return o
    if isinstance(s, (list, tuple)):
        o = [mkstruct(v, var, keep) for v in s]
        if isinstance(s, tuple):
            return tuple(o)
        keep.append((o, list(o)))
        return o
    return mk(s, var, keep)


class NotInt(Exception):
    pass


def to_arr(a, part, scale=1.0):
    a = np.asarray(a)
    if a.dtype.kind == "c":
        a = a.real if part == "re" else a.imag
    elif part == "im":
        raise NotInt("real result for complex input")
    if a.dtype.kind not in "fiub":
        raise NotInt(f"result dtype {a.dtype}")
    a = a.astype(np.float64) if a.dtype.kind == "f" else a
    if scale != 1.0:
        b = a * scale
        r = np.rint(b)
        if not np.all(np.isfinite(b)) or np.any(np.abs(b - r) > 1e-5 * max(1.0, float(np.max(np.abs(b), initial=0)) * 0.1)):
            raise NotInt(f"non-integer value {b.ravel()[:8]}")
        a = r
    if a.dtype.kind == "f":
        if not np.all(np.isfinite(a)):
            raise NotInt(f"non-finite value {a.ravel()[:12].tolist()}")
        r = np.rint(a)
        if not np.array_equal(r, a):
            raise NotInt(f"non-integer value {a.ravel()[:12].tolist()}")
        a = r
    m = np.max(np.abs(a), initial=0)
    if m >= 2 ** 31:
        raise NotInt(f"huge value {m}")
    return dict(s=list(a.shape), d=[int(v) for v in a.ravel().tolist()])


def conv(o, part, scale=1.0):
    if o is None:
        return dict(s=[], d=[])
    if isinstance(o, dict):
        return {k: conv(v, part, scale[k] if isinstance(scale, dict) else scale) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        if isinstance(scale, list):
            return [conv(v, part, s) for v, s in zip(o, scale)]
        return [conv(v, part, scale) for v in o]
    if isinstance(o, (bool, str)):
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    return to_arr(o, part, scale)


def inject(s, part):
    """input structure for the record"""
    if s is None:
        return dict(s=[], d=[])
    if isinstance(s, (str, bool, int)):
        return s
    if isinstance(s, dict):
        return {k: inject(v, part) for k, v in s.items() if v is not None}
    if isinstance(s, (list, tuple)):
        return [inject(v, part) for v in s]
    a = np.asarray(s)
    if a.dtype.kind == "c":
        a = a.real if part == "re" else a.imag
    elif part == "im":
        a = a * 0
    return dict(s=list(a.shape), d=[int(v) for v in a.ravel().tolist()])


def dtypes(o, acc):
    if isinstance(o, np.ndarray):
        acc.append(o.dtype.name if o.dtype.isnative else o.dtype.newbyteorder().name)
    elif isinstance(o, dict):
        for v in o.values():
            dtypes(v, acc)
    elif isinstance(o, (list, tuple)):
        for v in o:
            dtypes(v, acc)
    return acc


def idtypes(o, acc):
    if o is None:
        return acc
    if isinstance(o, dict):
        for v in o.values():
            idtypes(v, acc)
    elif isinstance(o, np.ndarray):
        acc.append(np.dtype(o.dtype.newbyteorder("=")).name)
    elif isinstance(o, (list, tuple)):
        if o and (isinstance(o[0], (list, tuple, dict, np.ndarray)) or any(v is None for v in o)) and not _numeric(o):
            for v in o:
                idtypes(v, acc)
        else:
            acc.append(np.asarray(o).dtype.name)
    return acc


def _numeric(o):
    if isinstance(o, (list, tuple)):
        return all(_numeric(v) for v in o)
    return isinstance(o, (int, float, complex))


# ----------------------------------------------------------------- calling
EX = {}


def op(name):
    def deco(f):
        EX[name] = f
        return f
    return deco


def wav(c):
    """the wavelet argument in the form the case asks for"""
    ws = [b.wavelet() for b in c["banks"]]
    f = c.get("wform", "auto")
    if f == "auto":
        return ws[0] if len(set(map(id, ws))) == 1 else tuple(ws)
    if f == "one":
        return ws[0]
    if f == "list":
        return list(ws)
    if f == "single":
        return [ws[0]]
    return tuple(ws)


def mod(c):
    ms = c["modes"]
    f = c.get("mform", "auto")
    if f == "auto":
        return ms[0] if len(set(ms)) == 1 else tuple(ms)
    if f == "int":
        ms = [MODEINT[m] for m in ms]
        return ms[0] if len(set(ms)) == 1 else ms
    if f == "enum":
        ms = [getattr(pywt.Modes, m) for m in ms]
        return ms[0] if len(set(ms)) == 1 else ms
    if f == "single":
        return [ms[0]]
    return list(ms)


def W1(c):
    return c["banks"][0].wavelet()


def M1(c):
    f = c.get("mform", "auto")
    return c["modes"][0] if f == "auto" else MODEINT[c["modes"][0]] if f == "int" else getattr(pywt.Modes, c["modes"][0])


def kw_axis(c):
    return {} if c.get("noaxes") else dict(axis=c["axes"][0])


def kw_axes(c):
    if c.get("noaxes"):
        return {}
    ax = c["axes"]
    return dict(axes=list(ax) if c.get("axlist") else tuple(ax))


@op("dwt")
def _(c, i):
    a, d = pywt.dwt(i["x"], W1(c), M1(c), **kw_axis(c))
    return dict(a=a, d=d)


@op("downcoef")
def _(c, i):
    return dict(y=pywt.downcoef(c["part"], i["x"], W1(c), M1(c), level=c["level"]))


@op("len")
def _(c, i):
    f = c["F"]
    if c.get("obj"):
        f = pywt.Wavelet("c", filter_bank=[[1.0] * f] * 4)
    return dict(n=pywt.dwt_coeff_len(c["n"], f, c["mode"] if not c.get("asint") else MODEINT[c["mode"]]))


@op("maxlevel")
def _(c, i):
    f = c["F"]
    if c.get("obj"):
        f = pywt.Wavelet("c", filter_bank=[[1.0] * f] * 4)
    return dict(n=pywt.dwt_max_level(c["n"], f))


@op("maxleveln")
def _(c, i):
    ws = [pywt.Wavelet("c", filter_bank=[[1.0] * f] * 4) for f in c["lens"]]
    kw = {} if c.get("noaxes") else dict(axes=c["axes"])
    return dict(n=pywt.dwtn_max_level(tuple(c["shape"]), ws if len(set(c["lens"])) > 1 else ws[0], **kw))


@op("idwt")
def _(c, i):
    return dict(y=pywt.idwt(i.get("a"), i.get("d"), W1(c), M1(c), **kw_axis(c)))


@op("upcoef")
def _(c, i):
    return dict(y=pywt.upcoef(c["part"], i["c"], W1(c), level=c["level"], take=c["take"]))


@op("dwtn")
def _(c, i):
    return dict(c=pywt.dwtn(i["x"], wav(c), mod(c), **kw_axes(c)))


@op("dwt2")
def _(c, i):
    a, (h, v, d) = pywt.dwt2(i["x"], wav(c), mod(c), **kw_axes(c))
    return dict(c=dict(cA=a, cH=h, cV=v, cD=d))


@op("idwtn")
def _(c, i):
    return dict(y=pywt.idwtn(i, wav(c), mod(c), **kw_axes(c)))


@op("idwt2")
def _(c, i):
    return dict(y=pywt.idwt2((i.get("cA"), (i.get("cH"), i.get("cV"), i.get("cD"))), wav(c), mod(c), **kw_axes(c)))


def lev(c):
    return {} if c["level"] < 0 else dict(level=c["level"])


@op("wavedec")
def _(c, i):
    r = pywt.wavedec(i["x"], W1(c), M1(c), **lev(c), **kw_axis(c))
    if not isinstance(r, list):
        raise NotInt("wavedec did not return a list")
    return dict(c=[r[0]] + [dict(d=d) for d in r[1:]])


@op("waverec")
def _(c, i):
    cs = i["c"]
    cs = [cs[0]] + [d.get("d") if d is not None else None for d in cs[1:]]
    if c.get("astuple"):
        cs = tuple(cs)
    return dict(y=pywt.waverec(cs, W1(c), M1(c), **kw_axis(c)))


@op("wavedecn")
def _(c, i):
    ax = kw_axes(c)
    if c.get("axscalar"):
        ax = dict(axes=c["axes"][0])
    return dict(c=pywt.wavedecn(i["x"], wav(c), mod(c), **lev(c), **ax))


@op("waverecn")
def _(c, i):
    ax = kw_axes(c)
    if c.get("axscalar"):
        ax = dict(axes=c["axes"][0])
    return dict(y=pywt.waverecn(i["c"], wav(c), mod(c), **ax))


@op("wavedec2")
def _(c, i):
    r = pywt.wavedec2(i["x"], wav(c), mod(c), **lev(c), **kw_axes(c))
    return dict(c=[r[0]] + [dict(cH=h, cV=v, cD=d) for h, v, d in r[1:]])


@op("waverec2")
def _(c, i):
    cs = i["c"]
    cs = [cs[0]] + [(d.get("cH"), d.get("cV"), d.get("cD")) for d in cs[1:]]
    return dict(y=pywt.waverec2(cs, wav(c), mod(c), **kw_axes(c)))


PARAMS = ("gain", "part", "level", "take", "n", "F", "mode", "shape", "lens", "start", "trim", "norm", "padding", "nopad", "levels", "widths")


def anycomplex(s):
    if isinstance(s, dict):
        return any(anycomplex(v) for v in s.values())
    if isinstance(s, (list, tuple)):
        return any(anycomplex(v) for v in s)
    return isinstance(s, np.ndarray) and s.dtype.kind == "c"


def record(c):
    """run one case; returns the list of trace records (one per real/imaginary channel)"""
    var = c.get("var", {})
    keep = []
    ins = c.get("in", {})
    if isinstance(var.get("lay"), dict):
        import mem
        mem.release()
    given = mkstruct(ins, var, keep)
    w_before = [(b.wavelet(), b.wavelet().filter_bank) for b in c.get("banks", [])]
    base = {k: c[k] for k in PARAMS if k in c}
    base.update(op=c.get("specop", c["op"]), modes=list(c.get("modes", [])), axes=list(c.get("axes", [])),
                banks=[b.json() for b in c.get("banks", [])], **c.get("extra", {}))
    if c.get("types"):
        base["idt"] = sorted(set(idtypes(given, [])))
    parts = ["re", "im"] if (anycomplex(ins) if var.get("dt") == "mix" else DT[var.get("dt", "f8")]().dtype.kind == "c") else ["re"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            raw = EX[c["op"]](c, given)
        except NotInt as e:
            return [dict(base, views=[o.json('re') for o, _ in keep if hasattr(o, 'same')], **{"in": inject(ins, "re")}, out=dict(bad=str(e)), pure=unchanged(keep))]
        except Exception as e:
            return [dict(base, views=[o.json('re') for o, _ in keep if hasattr(o, 'same')], **{"in": inject(ins, "re")}, out=dict(err=type(e).__name__, msg=str(e)[:200]), pure=unchanged(keep))]
    pure = unchanged(keep) and all(w.filter_bank == f for w, f in w_before)
    if c.get("types"):
        base["odt"] = sorted(set(dtypes(raw, [])))
    views = [o for o, _ in keep if hasattr(o, "same")]
    recs = []
    for p in parts:
        if views:
            base["views"] = [v.json(p) for v in views]
        try:
            # (approximations that the inverse does not use may be the only complex ones)
            if p == "im" and var.get("dt") == "mix" and isinstance(raw.get("y"), np.ndarray) and raw["y"].dtype.kind == "f":
                raw = dict(raw, y=raw["y"] + 0j)
            out = conv(raw, p, c.get("scale", 1.0)) if c.get("scalekey") is None else \
                {k: conv(v, p, c["scale"] if k == c["scalekey"] else 1.0) for k, v in raw.items()}
        except NotInt as e:
            out = dict(bad=str(e))
        b = dict(base, padding=0) if p == "im" and "padding" in base else base
        recs.append(dict(b, **{"in": inject(ins, p)}, out=out, pure=pure))
    return recs


def describe(c):
    d = {k: v for k, v in c.items() if k not in ("in", "banks")}
    d["banks"] = [b.name for b in c.get("banks", [])]
    d["F"] = c.get("F", [b.F for b in c.get("banks", [])])
    return d


def layname(l):
    return l if isinstance(l, str) else f"{l['item']}:{'.'.join(l['kinds'])}:{''.join(map(str, l['perm']))}"


def site(c):
    """stable identification of the failing call class"""
    ms = ",".join(c.get("modes", []))
    v = c.get("var", {})
    shp = lambda s: "x".join(map(str, np.shape(s))) if s is not None and not isinstance(s, (dict, list, tuple)) else "*"
    sh = ";".join(f"{k}:{shp(v2)}" for k, v2 in c.get("in", {}).items())
    return f"{c['op']}[{ms}]({sh} F={[b.F for b in c.get('banks', [])]} axes={c.get('axes')} level={c.get('level')} {v.get('dt', 'f8')}/{layname(v.get('lay', 'C'))})".replace(" ", "_")


def validate(chk, cases, name="calls", clauses=("value", "raised", "length", "superposition"), limit=60, module="CallTrace"):
    """record all cases, let TLC judge, report violations of the given clauses"""
    t = time.time()
    res = supervised(record, cases, limit=limit)
    lines, owner = [], []
    bad = []
    for i, st, v in res:
        if st == "ok":
            for r in v:
                r["id"] = len(lines)
                lines.append(json.dumps(r))
                owner.append(i)
        elif st == "exc":
            raise MachineryError(v)
        else:
            bad.append((i, {"hang" if st == "hang" else "crash"}, None))
    trec = time.time() - t
    d = scratch() / "calls.ndjson"
    d.write_text("\n".join(lines) + "\n")
    if lines:
        r = tlc(module, env=dict(TRACE=d), timeout=800)
        judged(chk, r, len(lines) + 16, name)
        chk.add_tlc(name, r)
        for m in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
            k = int(m.group(1))
            bad.append((owner[k], set(re.findall(r'"([^"]+)"', m.group(2))), lines[k]))
        if r.out.count('"BAD"') != sum(1 for b in bad if b[2] is not None):
            raise MachineryError("could not parse TLC verdicts: " + r.out[:3000])
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note(name, records=len(lines), calls=len(cases), record_s=round(trec, 1))
    if lines:
        for k in (0, len(lines) // 2):
            chk.sample(dict(part=name, record=json.loads(lines[k]) if len(lines[k]) < 1500 else lines[k][:1500]))
    seen = {}
    for i, cl, line in bad:
        cl2 = cl & (set(clauses) | {"hang", "crash"})
        if cl2:
            chk.violate(site(cases[i]), f"clauses {sorted(cl2)} case {describe(cases[i])}" +
                        (f" out={json.loads(line)['out']}"[:300] if line else ""),
                        dict(case=describe(cases[i]), inputs=cases[i].get("in"), record=json.loads(line) if line else None,
                             banks=[b.json() for b in cases[i].get("banks", [])]))
    d.unlink()
    return bad
