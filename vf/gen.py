"""Case generators for exact (integer) conformance of the transforms."""
import numpy as np
from calls import *

ALLDT = ["f8", "f4", "c16", "c8", "i8", "i4", "i2", "f2", "g", "u1"]
LAYS = ["C", "list", "F", "step", "neg", "off", "T", "ro", "swap", "sub"]


def extgrow(mode, N, F):
    if mode == "smooth" and N > 1:
        return 2 * F + 1
    if mode == "antireflect" and N > 1:
        return 2 * (F // max(1, N - 1)) + 5
    return 1


def growth(banks, modes, sizes, level, which="d"):
    g = 1.0
    for b, m, N in zip(banks, modes, sizes):
        for _ in range(level):
            g *= max(1, b.gain(which)) * (extgrow(m, N, b.F) if which == "d" else 2)
            N = max(1, (N + b.F - 1) // 2) if m != "periodization" else (N + 1) // 2
    return g


class thin:
    """random banks have one tap per filter"""
    def __enter__(self):
        THIN[0] = True

    def __exit__(self, *a):
        THIN[0] = False


def deep_sizes(rng, count, lo, hi, dense=False):
    """lengths from which many levels can be taken: powers of two times something small, and arbitrary ones"""
    out = []
    for _ in range(count):
        L = int(rng.integers(lo, hi + 1))
        N = 2 ** L * int(rng.integers(1, 4)) + (0 if dense or rng.random() < .5 else int(rng.integers(-3, 4)))
        out.append((N, L))
    return out


def ints(rng, shape, lim, dt="f8"):
    if dt == "u1":
        return rng.integers(0, 2 * lim + 1, shape)
    a = rng.integers(-lim, lim + 1, shape)
    if dt in ("c16", "c8", "G"):
        return a + 1j * rng.integers(-lim, lim + 1, shape)
    return a


def choose_var(rng, g, lim, dts=ALLDT, lays=LAYS):
    """random dtype/layout whose arithmetic stays exact for growth g"""
    dt = dts[rng.integers(len(dts))]
    if dt in ("f4", "c8", "f2") and g * lim >= 2 ** 23:
        dt = {"f4": "f8", "c8": "c16", "f2": "f8"}[dt]
    lay = lays[rng.integers(len(lays))]
    if dt in ("g",) and lay == "swap":
        lay = "C"
    return dict(dt=dt, lay=lay)


INVERSES = ("idwt", "idwtn", "idwt2", "waverec", "waverec2", "waverecn", "iswt")


def mixed(rng, cases, frac=.2):
    """more cases: real and complex, single and double arrays together in one call"""
    def walk(s):
        if isinstance(s, dict):
            return {k: walk(v) for k, v in s.items()}
        if isinstance(s, (list, tuple)):
            return type(s)(walk(v) for v in s)
        if isinstance(s, np.ndarray):
            s = s.real.astype(np.int64)
            return s + 1j * rng.integers(-3, 4, s.shape) if rng.random() < .4 else s
        return s
    out = []
    for c in cases:
        if c is None or c["op"] not in INVERSES or rng.random() > frac or c["var"]["dt"] in ("u1", "b"):
            continue
        out.append(dict(c, var=dict(c["var"], dt="mix", single=c["var"]["dt"] in ("f4", "c8", "f2")), **{"in": walk(c["in"])}))
    return out


def ok_growth(g, lim):
    return g * lim < 2 ** 30


def axes_sign(rng, axes, n):
    return [int(a) - n if rng.random() < 0.4 else int(a) for a in axes]


def c_dwt(rng, N, bank, mode, shape=None, axis=None, var=None, **kw):
    lim = 9
    g = growth([bank], [mode], [N], 1)
    if not ok_growth(g, lim):
        lim = 2
    shape = shape or (N,)
    axis = -1 if axis is None else axis
    var = var or choose_var(rng, g, lim)
    return dict(op="dwt", banks=[bank], modes=[mode], axes=[axis], var=var, mform=["auto", "int", "enum"][rng.integers(3)],
                noaxes=(axis == -1 and rng.random() < .5), **{"in": dict(x=ints(rng, shape, lim, var["dt"]))}, **kw)


def c_downcoef(rng, N, bank, mode, part, level):
    if mode in ("reflect", "antireflect") and any(z < 2 for z in [N] + coeff_sizes(N, bank.F, mode, level)[:-1]):
        return None
    lim = 9
    g = growth([bank], [mode], [N], level)
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim)
    return dict(op="downcoef", banks=[bank], modes=[mode], part=part, level=level, var=var,
                **{"in": dict(x=ints(rng, (N,), lim, var["dt"]))})


def c_idwt(rng, n, bank, mode, shape=None, axis=-1, drop=None):
    lim = 30
    g = 2 * bank.gain("r")
    var = choose_var(rng, g, lim)
    shape = shape or (n,)
    i = dict(a=ints(rng, shape, lim, var["dt"]), d=ints(rng, shape, lim, var["dt"]))
    if drop:
        i[drop] = None
    return dict(op="idwt", banks=[bank], modes=[mode], axes=[axis], var=var, mform=["auto", "int", "enum"][rng.integers(3)],
                **{"in": i})


def c_upcoef(rng, n, bank, part, level, take):
    lim = 9
    g = bank.gain("r") ** level
    if not ok_growth(g, lim):
        return None
    var = choose_var(rng, g, lim)
    return dict(op="upcoef", banks=[bank], part=part, level=level, take=take, var=var,
                **{"in": dict(c=ints(rng, (n,), lim, var["dt"]))})


GIANT_F = (104, 126, 128, 130, 160, 254, 256, 258, 300, 514)      # longer than any built-in filter


def valid_len(N, mode):
    return not (N == 1 and mode in ("reflect", "antireflect"))


def basis(N, k, v=1):
    a = np.zeros(N, int)
    a[k] = v
    return a


# ------------------------------------------------------------------ n-D
def nd_params(rng, rank, per_axis=True, naxes=None, maxF=6):
    n = naxes or int(rng.integers(1, rank + 1))
    axes = rng.permutation(rank)[:n].tolist()
    if per_axis and rng.random() < .6:
        banks = [rand_bank(rng, int(rng.choice([2, 4, 6][:maxF // 2])), 2) for _ in range(n)]
    else:
        banks = [rand_bank(rng, int(rng.choice([2, 4, 6][:maxF // 2])), 2)] * n
    if rng.random() < .6:
        modes = [MODES[rng.integers(9)] for _ in range(n)]
    else:
        modes = [MODES[rng.integers(9)]] * n
    return axes, banks, modes


def rshape(rng, rank, lo=1, hi=7, total=220):
    while True:
        s = rng.integers(lo, hi + 1, rank).tolist()
        if np.prod(s) <= total:
            return tuple(s)


def fix_modes(shape, axes, modes):
    return ["symmetric" if (m in ("reflect", "antireflect") and shape[a] < 2) else m for a, m in zip(axes, modes)]


def forms(rng, c):
    n = len(c["banks"])
    same = len(set(map(id, c["banks"]))) == 1
    c["wform"] = ["auto", "tuple", "list"][rng.integers(3)] if not same else ["auto", "one", "list", "single"][rng.integers(4)]
    if len(set(c["modes"])) == 1:
        c["mform"] = ["auto", "int", "enum", "single", "list"][rng.integers(5)]
    else:
        c["mform"] = ["auto", "int", "enum", "list"][rng.integers(4)]
    return c


def c_dwtn(rng, shape, op2=False):
    rank = len(shape)
    axes, banks, modes = nd_params(rng, rank, naxes=2 if op2 else None)
    modes = fix_modes(shape, axes, modes)
    sizes = [shape[a] for a in axes]
    lim = 5
    g = growth(banks, modes, sizes, 1)
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim)
    c = dict(op="dwt2" if op2 else "dwtn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=var,
             axlist=bool(rng.integers(2)), **{"in": dict(x=ints(rng, shape, lim, var["dt"]))})
    if (op2 and axes == [rank - 2, rank - 1]) or (not op2 and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    return forms(rng, c)


def c_idwtn(rng, shape, op2=False):
    rank = len(shape)
    axes, banks, modes = nd_params(rng, rank, naxes=2 if op2 else None)
    n = len(axes)
    # coefficient length must give a positive result length
    modes = [m if m == "periodization" or 2 * shape[a] - b.F + 2 > 0 else "periodization" for a, b, m in zip(axes, banks, modes)]
    lim = 5
    g = 1
    for b in banks:
        g *= 2 * b.gain("r")
    var = choose_var(rng, g, lim)
    keys = ["".join(k) for k in itertools.product("ad", repeat=n)]
    drop = set(k for k in keys if rng.random() < [0, .3, .6][rng.integers(3)])
    if len(drop) == len(keys):
        drop.discard(keys[rng.integers(len(keys))])
    name = (lambda k: {"aa": "cA", "da": "cH", "ad": "cV", "dd": "cD"}[k]) if op2 else (lambda k: k)
    i = {}
    for k in rng.permutation(keys).tolist():
        if k in drop:
            if rng.random() < .5 or op2:
                i[name(k)] = None
        else:
            i[name(k)] = ints(rng, shape, lim, var["dt"])
    c = dict(op="idwt2" if op2 else "idwtn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=var,
             axlist=bool(rng.integers(2)), **{"in": i})
    if (op2 and axes == [rank - 2, rank - 1]) or (not op2 and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    return forms(rng, c)


# ------------------------------------------------------------------ multilevel (coefficients for the inverses come
# from shape prediction by running the forward transform is avoided: shapes are derived from dwt_coeff_len's documented formula)
def dlen(N, F, mode):
    return (N + 1) // 2 if mode == "periodization" else (N + F - 1) // 2


def c_wavedec(rng, shape, axis, level, bank, mode, default=False):
    rank = len(shape)
    N = shape[axis]
    lim = 5
    g = growth([bank], [mode], [N], max(level, 0))
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    if mode in ("reflect", "antireflect"):
        n = N
        for _ in range(level):
            if n < 2:
                return None
            n = dlen(n, bank.F, mode)
    var = choose_var(rng, g, lim)
    if level == 0 and var["lay"] in ("list", "tuple"):
        var["lay"] = "C"
    c = dict(op="wavedec", banks=[bank], modes=[mode], axes=axes_sign(rng, [axis], rank), var=var,
             level=-1 if default else level, mform=["auto", "int", "enum"][rng.integers(3)],
             **{"in": dict(x=ints(rng, shape, lim, var["dt"]))})
    if axis == rank - 1:
        c["noaxes"] = bool(rng.integers(2))
    return c


def maxlev(N, F):
    L = 0
    while N >= F - 1 and (F - 1) * 2 ** (L + 1) <= N:
        L += 1
    return L


def coeff_sizes(N, F, mode, level):
    """approximation sizes per level, finest first"""
    out = []
    for _ in range(level):
        N = dlen(N, F, mode)
        out.append(N)
    return out


def c_waverec(rng, shape, axis, level, bank, mode, pnone=.2):
    rank = len(shape)
    sizes = coeff_sizes(shape[axis], bank.F, mode, level)
    if any(2 * n - bank.F + 2 < 1 for n in sizes) and mode != "periodization":
        return None
    lim = 5
    g = (2 * bank.gain("r")) ** level
    if not ok_growth(g, lim):
        return None
    var = choose_var(rng, g, lim, lays=[l for l in LAYS if l not in ("list",)])
    mkshape = lambda n: tuple(n if a == axis else s for a, s in enumerate(shape))
    cs = [ints(rng, mkshape(([shape[axis]] + sizes)[-1]), lim, var["dt"])]
    for j, n in enumerate(reversed(sizes)):
        # a missing detail leaves the size to the approximation, which must then fit the following ones
        nxt = list(reversed(sizes))[j + 1] if j + 1 < level else None
        full = 2 * n if mode == "periodization" else 2 * n - bank.F + 2
        if rng.random() < pnone and (nxt is None or full in (nxt, nxt + 1)):
            cs.append({"d": None})
        else:
            cs.append({"d": ints(rng, mkshape(n), lim, var["dt"])})
    # if a detail after a None is one shorter the approximation is trimmed; if the None one should have been trimmed
    # the sizes may drift: keep only consistent lists
    cur = ([shape[axis]] + sizes)[-1]
    if level and cs[1]["d"] is not None and pnone and rng.random() < .12:
        cs[0] = None   # no approximation counts as zeros
    for j, n in enumerate(reversed(sizes)):
        if j == 0 and cs[0] is None:
            cur = n
        elif cs[j + 1]["d"] is None:
            pass
        elif cur == n + 1:
            cur = n
        elif cur != n:
            return None
        cur = 2 * cur if mode == "periodization" else 2 * cur - bank.F + 2
    c = dict(op="waverec", banks=[bank], modes=[mode], axes=axes_sign(rng, [axis], rank), var=var,
             astuple=bool(rng.integers(2)), mform=["auto", "int", "enum"][rng.integers(3)], **{"in": dict(c=cs)})
    if axis == rank - 1:
        c["noaxes"] = bool(rng.integers(2))
    return c


def c_wavedecn(rng, shape, level, kind="n", default=False):
    rank = len(shape)
    axes, banks, modes = nd_params(rng, rank, naxes=2 if kind == "2" else None, maxF=4 if level > 1 else 6)
    modes = fix_modes(shape, axes, modes)
    sizes = [shape[a] for a in axes]
    if default:
        level = min(maxlev(n, b.F) for n, b in zip(sizes, banks))
    for n, b, m in zip(sizes, banks, modes):
        if m in ("reflect", "antireflect") and any(z < 2 for z in [n] + coeff_sizes(n, b.F, m, level)[:-1]):
            return None
    lim = 3
    g = growth(banks, modes, sizes, level)
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim)
    if level == 0 and var["lay"] in ("list", "tuple"):
        var["lay"] = "C"
    c = dict(op="wavedec2" if kind == "2" else "wavedecn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=var,
             level=-1 if default else level, axlist=bool(rng.integers(2)), **{"in": dict(x=ints(rng, shape, lim, var["dt"]))})
    if (kind == "2" and axes == [rank - 2, rank - 1]) or (kind == "n" and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    if kind == "n" and len(axes) == 1 and not c.get("noaxes"):
        c["axscalar"] = bool(rng.integers(2))
    return forms(rng, c)


def c_waverecn(rng, shape, level, kind="n", pnone=.15):
    rank = len(shape)
    axes, banks, modes = nd_params(rng, rank, naxes=2 if kind == "2" else None, maxF=4)
    modes = fix_modes(shape, axes, modes)
    n = len(axes)
    per = [coeff_sizes(shape[a], b.F, m, level) for a, b, m in zip(axes, banks, modes)]
    for p, b, m in zip(per, banks, modes):
        if m != "periodization" and any(2 * z - b.F + 2 < 1 for z in p):
            return None
    lim = 2
    g = 1.0
    for b in banks:
        g *= (2 * b.gain("r")) ** level
    if not ok_growth(g, lim):
        lim = 1
        if not ok_growth(g, lim):
            return None
    var = choose_var(rng, g, lim, lays=[l for l in LAYS if l not in ("list",)])

    def shp(j):   # j = 0 finest
        s = list(shape)
        for a, p in zip(axes, per):
            s[a] = p[j] if p else shape[a]
        return tuple(s)
    keys = ["".join(k) for k in itertools.product("ad", repeat=n)][1:]
    name = (lambda k: {"da": "cH", "ad": "cV", "dd": "cD"}[k]) if kind == "2" else (lambda k: k)
    anone = level and rng.random() < .1
    cs = [None if anone else ints(rng, shp(level - 1), lim, var["dt"])]
    for j in range(level - 1, -1, -1):
        D = {}
        for k in rng.permutation(keys).tolist():
            if rng.random() < pnone:
                if kind == "2":
                    D[name(k)] = None
            else:
                D[name(k)] = ints(rng, shp(j), lim, var["dt"])
        if not any(v is not None for v in D.values()) and (anone or j != 0 or True):
            D[name(keys[-1])] = ints(rng, shp(j), lim, var["dt"])
        cs.append(D)
    if kind == "2" and cs[0] is None:
        cs[0] = ints(rng, shp(level - 1), lim, var["dt"])
    c = dict(op="waverec2" if kind == "2" else "waverecn", banks=banks, modes=modes, axes=axes_sign(rng, axes, rank), var=var,
             axlist=bool(rng.integers(2)), **{"in": dict(c=cs)})
    if (kind == "2" and axes == [rank - 2, rank - 1]) or (kind == "n" and axes == list(range(rank))):
        c["noaxes"] = bool(rng.integers(2))
    if kind == "n" and len(axes) == 1 and not c.get("noaxes"):
        c["axscalar"] = bool(rng.integers(2))
    return forms(rng, c)
