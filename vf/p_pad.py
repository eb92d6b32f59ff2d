"""C17: pad."""
from registry import prop
from gen import *
from p_dwt import rng_for, rsig, judge_real, NAMES, DTS, is_single
import optable as OT
import mc


@op("pad")
def _(c, i):
    return dict(y=pywt.pad(i["x"], c["wobj"], c["modes"][0]))


@op("padint")
def _(c, i):
    """the single-level transform of a padded signal, its interior only"""
    w, m, W = W1(c), c["modes"][0], c["pw"]
    ax = c["axes"][0]
    x = np.asarray(i["x"])
    wd = [(0, 0)] * x.ndim
    wd[ax] = (W, W + c["more"])
    N = x.shape[ax]
    n = pywt.dwt_coeff_len(N, w, m)
    F = w.dec_len
    if m == "periodization":
        o = (F // 2 + W - 1) // 2
    else:
        o = W // 2
    if m == "periodization":     # other axes keep their parity out of it
        xp = np.apply_along_axis(lambda v: pywt.pad(v, (W, W + c["more"]), m), ax, x)
    else:
        xp = pywt.pad(x, wd, m)
    a, d = pywt.dwt(xp, w, c["how"], axis=ax)
    sl = [slice(None)] * x.ndim
    sl[ax] = slice(o, o + n)
    return dict(a=a[tuple(sl)], d=d[tuple(sl)])


def padgrow(mode, N, w):
    if mode == "smooth":
        return 2 * w + 1
    if mode == "antireflect":
        return 2 * (w // max(N - 1, 1) + 2) + 1
    return 1


def mm_ok(mode, N, w):
    """the values of the growing modes stay small"""
    return padgrow(mode, N, max(w)) * 30 < 2 ** 22


def c_pad(rng, shape, mode, widths, form):
    g = 1
    for a, n in enumerate(shape):
        w = max(widths[a if len(widths) > 1 else 0])
        g *= padgrow(mode, n, w)
    var = dict(choose_var(rng, max(g, 1), 30))
    if var["dt"] in ("u1", "b", "i1", "i2", "f2", "u4") and mode in ("smooth", "antireflect", "antisymmetric"):
        var["dt"] = "i4" if var["dt"] != "f2" else "f4"    # integer types keep their type and would wrap
    wobj = dict(pairs=lambda: [tuple(p) for p in widths], array=lambda: np.array(widths), int=lambda: widths[0][0], one=lambda: (widths[0][0],), pair=lambda: tuple(widths[0]), tup=lambda: tuple(map(tuple, widths)))[form]()
    return dict(op="pad", modes=[mode], widths=[list(map(int, p)) for p in widths], wobj=wobj, var=var, **{"in": dict(x=ints(rng, shape, 30, var["dt"]))})


@prop("C17")
def c17(chk):
    mc.ext_model(chk)
    mc.conv_loops(chk)
    rng = rng_for(chk)
    cs = []
    for m in MODES:
        for N in range(1, pick(9, 14)):
            ws = [(0, 0), (0, 3), (4, 0), (1, 1), (N, N), (N - 1, N + 1), (2 * N, 2 * N + 1), (5 * N + 2, 3 * N), (1, 7 * N)]
            ws += [tuple(int(v) for v in rng.integers(0, 40, 2)) for _ in range(pick(2, 10))]
            for w in ws:
                cs.append(c_pad(rng, (N,), m, [w], ["pairs", "pair", "array", "tup"][rng.integers(4)]))
            k = int(rng.integers(0, 3 * N))
            cs.append(c_pad(rng, (N,), m, [(k, k)], ["int", "one"][rng.integers(2)]))
        for N, w in ((3, (700, 40)), (2, (0, 1500)), (4000, (1, 900)), (600, (3000, 2)), (7, (int(rng.integers(200, 5000)), int(rng.integers(200, 5000))))):
            if mm_ok(m, N, w):
                cs.append(c_pad(rng, (N,), m, [w], ["pairs", "pair"][rng.integers(2)]))
        for s, w in (((300, 2), [(1, 2), (0, 1)]), ((2, 280), [(0, 300), (2, 1)]), ((1, 1, 2, 1, 2), [(1, 0), (0, 1), (2, 1), (1, 1), (0, 2)])):
            cs.append(c_pad(rng, s, m, w, "pairs"))
        for N in (50, 101, 256):
            w = tuple(int(v) for v in rng.integers(0, 300, 2))
            cs.append(c_pad(rng, (N,), m, [w], "pairs"))
        for _ in range(pick(40, 300)):
            rank = int(rng.integers(2, 5))
            s = rshape(rng, rank, 1, 6, 80)
            hi = {2: 9, 3: 5, 4: 3}[rank]
            if rng.random() < .6:
                w = [tuple(int(v) for v in rng.integers(0, hi, 2)) for _ in range(rank)]
                form = ["pairs", "array", "tup"][rng.integers(3)]
            elif rng.random() < .5:
                k = int(rng.integers(0, hi))
                w, form = [(k, k)], ["int", "one"][rng.integers(2)]
            else:
                w, form = [tuple(int(v) for v in rng.integers(0, hi, 2))], ["pair", "pairs", "array"][rng.integers(3)]
            cs.append(c_pad(rng, s, m, w, form))
        for rank in (2, 3):     # wide padding of thin arrays
            for _ in range(pick(4, 20)):
                s = rshape(rng, rank, 1, 3, 12)
                cs.append(c_pad(rng, s, m, [tuple(int(v) for v in rng.integers(0, 10, 2)) for _ in range(rank)], "pairs"))
    # interior of the transform of the padded signal = the transform in that mode
    for m in MODES:
        for F in (2, 4, 6, 8, 10):
            for N in sorted({1, 2, 3, F - 1, F, F + 1, 2 * F + 1, int(rng.integers(1, 30))} - {0}):
                if not valid_len(N, m):
                    continue
                b = rand_bank(rng, F, 2)
                W = F + F % 4 + 2 * int(rng.integers(0, 3))
                if m == "periodization" and (F // 2 + W) % 2 == 0:
                    W += 1
                s, ax = [((N,), 0), ((N, 2), 0), ((3, N), 1)][rng.integers(3)]
                how = [q for q in MODES if q != "periodization"][rng.integers(8)]
                g = b.gain("d") * padgrow(m, N, W) * 4
                if how in ("smooth", "antireflect"):
                    g *= 4 * F
                var = choose_var(rng, g, 20, dts=[d for d in ("f8", "c16", "f4")], lays=["C", "step", "F"])
                if not ok_growth(g, 20):
                    continue
                cs.append(dict(op="padint", specop="dwt", banks=[b], modes=[m], axes=[ax], pw=W, more=int(rng.integers(0, 3)), how=how, var=var,
                               **{"in": dict(x=ints(rng, s, 20, var["dt"]))}))
    validate(chk, cs, "pad, integer-exact", clauses=("value", "raised", "length", "superposition", "mutated"))
    # built-in wavelets: interior equality in real arithmetic
    items, reqs = [], []
    for n in NAMES:
        F = pywt.Wavelet(n).dec_len
        for m in [MODES[k] for k in rng.permutation(9)[:pick(3, 9)]]:
            N = int(rng.integers(2, 2 * F + 4))
            items.append((n, m, N, int(rng.integers(4)), int(rng.integers(1 << 30))))
            reqs.append(dict(kind="ana", mode=m, N=N, F=F))
    OT.load(chk, reqs)

    def one(it):
        n, m, N, dti, seed = it
        dt = DTS[dti]
        r = np.random.default_rng(seed)
        x = rsig(r, N, dt)
        w = pywt.Wavelet(n)
        F = w.dec_len
        W = F + F % 4
        if m == "periodization" and (F // 2 + W) % 2 == 0:
            W += 1
        o = (F // 2 + W - 1) // 2 if m == "periodization" else W // 2
        xp = pywt.pad(x, W, m)
        a, d = pywt.dwt(xp, n, "zero")
        k = pywt.dwt_coeff_len(N, F, m)
        for lab, got, h in (("cA", a, w.dec_lo), ("cD", d, w.dec_hi)):
            v, mg = OT.ana(m, N, h, x)
            ok, msg = OT.close(got[o:o + k], v, mg + np.abs(x).max() * (4 * W if m in ("smooth", "antireflect") else 1), is_single(dt), F)
            if not ok:
                return f"{lab}: {msg}"
        return ""
    judge_real(chk, one, items, "interior, built-in filters")
