"""C01-C03: the single-level transform."""
from registry import prop
from gen import *
import optable as OT
import mc


def rng_for(chk, salt=0):
    return np.random.default_rng([SEED, int(chk.prop[1:]), salt])


NAMES = pywt.wavelist(kind="discrete")


def lengths_small(F):
    """lengths around every boundary of the filter: shorter, equal, longer, odd and even, several multiples"""
    return sorted({1, 2, 3, 4, 5, 6, 7, 8, 9, F - 2, F - 1, F, F + 1, F + 2, 2 * F - 1, 2 * F, 2 * F + 1, 3 * F + 1} - {0, -1, -2})


def real_cases(rng, names, modes, lens, dts):
    for n in names:
        for m in modes:
            for N in lens:
                for dt in dts:
                    yield n, m, N, dt


def rsig(rng, shape, dt):
    x = rng.standard_normal(shape)
    if np.dtype(dt).kind == "c":
        x = x + 1j * rng.standard_normal(shape)
    return x.astype(dt)


def is_single(dt):
    return np.dtype(dt) in (np.float32, np.complex64)


DTS = [np.float64, np.float32, np.complex128, np.complex64]


def judge_real(chk, fn, items, name):
    """fn(item) -> '' or a description of the disagreement with the symbolic operator"""
    res = supervised(fn, items)
    for i, st, v in res:
        if st == "ok":
            if v:
                chk.violate(f"{name}:{items[i]}".replace(" ", ""), v, dict(part=name, item=items[i]))
        elif st == "exc":
            chk.violate(f"{name}:{items[i]}".replace(" ", ""), "raised " + v.strip().splitlines()[-1], dict(part=name, item=items[i], trace=v))
        else:
            chk.violate(f"{name}:{items[i]}".replace(" ", ""), st, dict(part=name, item=items[i]))
    chk.cov["traces_validated_against_impl"] += len(items)
    chk.note(name, calls=len(items))
    if items:
        chk.sample(dict(part=name, item=str(items[len(items) // 2])))


@prop("C01")
def c01(chk):
    mc.dwt_model(chk)
    rng = rng_for(chk)
    cs = []
    for F in pick((2, 4, 6, 8, 10, 14), (2, 4, 6, 8, 10, 12, 14, 18, 20, 24)):
        for N in lengths_small(F):
            for m in MODES:
                if valid_len(N, m):
                    for _ in range(pick(1, 3)):
                        cs.append(c_dwt(rng, N, rand_bank(rng, F), m))
    # odd filter lengths are zero-padded to even
    for F in (1, 3, 5, 7, 9):
        for m in MODES:
            for N in rng.choice(np.arange(2, 20), 3, replace=False):
                cs.append(c_dwt(rng, int(N), rand_bank(rng, F), m))
    # long filters and long signals
    for _ in range(pick(60, 400)):
        F = int(rng.choice([16, 18, 20, 30, 38, 40, 62, 76, 102]))
        N = int(rng.choice([rng.integers(1, 40), rng.integers(1, 200), rng.integers(60, 130)]))
        m = MODES[rng.integers(9)]
        if valid_len(N, m):
            cs.append(c_dwt(rng, N, rand_bank(rng, F, 1), m))
    for F in [GIANT_F[k] for k in rng.integers(len(GIANT_F), size=pick(16, 120))]:
        N = int(rng.choice([rng.integers(1, 9), rng.integers(1, 200), rng.integers(F - 4, F + 40)]))
        m = MODES[rng.integers(9)]
        if valid_len(N, m):
            cs.append(c_dwt(rng, N, rand_bank(rng, F, 1), m))
    for N in (255, 256, 257, 500, 1023, 1024, 1025, 2049, 4098) + pick((), (2000, 4096, 4097, 8191)):
        for m in MODES:
            cs.append(c_dwt(rng, N, rand_bank(rng, int(rng.choice([2, 4, 6, 8, 12]))), m))
    for m in MODES if not QUICK else rng.choice(MODES, 3, replace=False).tolist():
        for dt in ("f8", "f4") if not QUICK else (["f8", "f4", "c16", "c8"][rng.integers(4)],):
            cs.append(c_dwt(rng, int(rng.integers(65000, 70000)), rand_bank(rng, int(rng.choice([2, 4, 6, 8]))), m, var=dict(dt=dt, lay="C")))
    for s, ax in (((300, 5), 1), ((5, 300), 0), ((2, 3, 270), 0), ((270, 2, 3), 2), ((3, 600), 1), ((600, 3), 0), ((4, 66000), 0), ((66000, 4), 1)):
        for _ in range(pick(1, 6) if max(s) < 6000 else 1):
            cs.append(c_dwt(rng, s[ax], rand_bank(rng, int(rng.choice([2, 4, 6])), 2), MODES[rng.integers(9)], shape=s, axis=ax))
    for _ in range(pick(30, 200)):      # many axes
        rank = int(rng.integers(5, 9))
        s = rshape(rng, rank, 1, 3, 400)
        ax = int(rng.integers(rank))
        m = fix_modes(s, [ax], [MODES[rng.integers(9)]])[0]
        cs.append(c_dwt(rng, s[ax], rand_bank(rng, int(rng.choice([2, 4, 6]))), m, shape=s, axis=ax - rank * int(rng.integers(2))))
    with thin():
        for N, L in deep_sizes(rng, pick(30, 200), 5, 11):
            cs.append(c_downcoef(rng, max(N, 2), rand_bank(rng, int(rng.choice([2, 4, 6]))), MODES[rng.integers(9)], "ad"[rng.integers(2)], L))
    # n-dimensional input along one axis
    for _ in range(pick(250, 1500)):
        rank = int(rng.integers(2, 5))
        s = rshape(rng, rank, 1, 8, 260)
        ax = int(rng.integers(rank))
        m = fix_modes(s, [ax], [MODES[rng.integers(9)]])[0]
        cs.append(c_dwt(rng, s[ax], rand_bank(rng, int(rng.choice([2, 4, 6, 8, 10]))), m, shape=s,
                        axis=ax if rng.random() < .5 else ax - rank))
    # unit impulses (localise index errors) in every position
    for m in MODES:
        for F, N in ((4, 6), (6, 5), (8, 3), (2, 5)):
            b = rand_bank(rng, F)
            for k in range(N):
                c = c_dwt(rng, N, b, m, var=dict(dt="f8", lay="C"))
                c["in"] = dict(x=basis(N, k))
                cs.append(c)
    # downcoef
    for m in MODES:
        for part in "ad":
            for F in (2, 4, 6, 8):
                for N in [int(v) for v in rng.choice(np.arange(1, 28), pick(3, 8), replace=False)]:
                    level = int(rng.integers(1, 5))
                    if m in ("reflect", "antireflect") and (N < 2 or any(z < 2 for z in coeff_sizes(N, F, m, level)[:-1])):
                        continue
                    cs.append(c_downcoef(rng, N, rand_bank(rng, F, 2), m, part, level))
    # lengths
    for m in MODES:
        for N in list(range(1, pick(20, 40))) + [99, 100, 1000, 1001, 10**6 + 1]:
            for F in list(range(1, 13)) + [38, 76, 102]:
                if (N + F) % 2 or N > 12 or F < 5:
                    cs.append(dict(op="len", n=N, F=F, mode=m, obj=F % 2 == 0 and F < 12, asint=N % 2 == 0))
    validate(chk, [c for c in cs if c], "integer-exact dwt/downcoef")
    # every built-in filter, through the symbolic operator
    items = []
    reqs = []
    for n in NAMES:
        F = pywt.Wavelet(n).dec_len
        for m in MODES:
            Ns = [int(rng.integers(2, F + 2)), int(rng.integers(F, 3 * F + 4))]
            for N in Ns:
                items.append((n, m, N, int(rng.integers(4)), int(rng.integers(1 << 30))))
                reqs.append(dict(kind="ana", mode=m, N=N, F=F))
    OT.load(chk, reqs)

    def one(it):
        n, m, N, dti, seed = it
        dt = DTS[dti]
        r = np.random.default_rng(seed)
        x = rsig(r, N, dt)
        w = pywt.Wavelet(n)
        a, d = pywt.dwt(x, n if seed % 2 else w, m)
        pa = pywt.downcoef("a", x, n, m)
        pd = pywt.downcoef("d", x, n, m)
        for lab, got, h in (("cA", a, w.dec_lo), ("cD", d, w.dec_hi), ("downcoef a", pa, w.dec_lo), ("downcoef d", pd, w.dec_hi)):
            v, mg = OT.ana(m, N, h, x)
            ok, msg = OT.close(got, v, mg, is_single(dt), w.dec_len)
            if not ok:
                return f"{lab}: {msg}"
        return ""
    judge_real(chk, one, items, "built-in filters")


@prop("C02")
def c02(chk):
    mc.idwt_model(chk)
    rng = rng_for(chk)
    cs = []
    for F in pick((2, 4, 6, 8, 10, 12, 14), (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 30)):
        for n in sorted({1, 2, 3, 4, 5, 6, 7, 8, 9, F // 2, F // 2 + 1, F - 1, F, F + 1, 2 * F + 1}):
            for m in MODES:
                if m == "periodization" or 2 * n - F + 2 > 0:
                    for drop in pick([[None, "a", "d"][rng.integers(3)], None], [None, None, "a", "d"]):
                        cs.append(c_idwt(rng, n, rand_bank(rng, F), m, drop=drop))
    for _ in range(pick(60, 400)):
        F = int(rng.choice([16, 18, 20, 30, 38, 40, 62, 76, 102]))
        n = int(rng.integers(F // 2, F + 40))
        m = MODES[rng.integers(9)]
        if m == "periodization":
            n = int(rng.integers(1, 60))
        cs.append(c_idwt(rng, n, rand_bank(rng, F, 2), m, drop=[None, "a", "d"][rng.integers(3)]))
    for F in [GIANT_F[k] for k in rng.integers(len(GIANT_F), size=pick(16, 120))]:
        m = MODES[rng.integers(9)]
        n = int(rng.choice([1, 2, 3, rng.integers(1, 90), F // 2 + 1])) if m == "periodization" else int(rng.integers(F // 2, F // 2 + 30))
        cs.append(c_idwt(rng, n, rand_bank(rng, F, 1), m, drop=[None, "a", "d"][rng.integers(3)]))
        cs.append(c_upcoef(rng, int(rng.integers(1, 20)), rand_bank(rng, F, 1), "ad"[rng.integers(2)], int(rng.integers(1, 3)), int(rng.choice([0, 0, 7, F]))))
    for _ in range(pick(250, 1500)):
        rank = int(rng.integers(2, 5))
        s = rshape(rng, rank, 1, 8, 260)
        ax = int(rng.integers(rank))
        F = int(rng.choice([f for f in (2, 4, 6, 8) if 2 * s[ax] - f + 2 > 0]))
        cs.append(c_idwt(rng, s[ax], rand_bank(rng, F), MODES[rng.integers(9)], shape=s,
                         axis=ax if rng.random() < .5 else ax - rank, drop=[None, None, "a", "d"][rng.integers(4)]))
    for n in (257, 1025, 2050, 4099) + ((int(rng.integers(33000, 36000)),) if rng.random() < pick(.3, 1) else ()):
        for m in ("symmetric", "periodization"):
            F = int(rng.choice([2, 4, 6, 8]))
            cs.append(c_idwt(rng, n, rand_bank(rng, F), m, drop=[None, "a", "d"][rng.integers(3)]))
    huge = [((2, 66000), 0), ((66000, 2), 1)]
    for s, ax in [((300, 5), 1), ((5, 300), 0), ((2, 4, 270), 1), ((270, 4, 3), 1), ((3, 600), 1), ((600, 3), 0)] + pick([huge[rng.integers(2)]], huge):
        for _ in range(pick(1, 6) if max(s) < 6000 else 1):
            cs.append(c_idwt(rng, s[ax], rand_bank(rng, int(rng.choice([2, 4])), 2), MODES[rng.integers(9)], shape=s, axis=ax, drop=[None, None, "a", "d"][rng.integers(4)]))
    for _ in range(pick(30, 200)):      # many axes
        rank = int(rng.integers(5, 9))
        s = rshape(rng, rank, 1, 3, 400)
        ax = int(rng.integers(rank))
        cs.append(c_idwt(rng, s[ax], rand_bank(rng, 2), MODES[rng.integers(9)], shape=s, axis=ax - rank * int(rng.integers(2)), drop=[None, None, "a", "d"][rng.integers(4)]))
    with thin():
        for _ in range(pick(30, 200)):
            level, F, n = int(rng.integers(5, 10)), int(rng.choice([2, 4, 6])), int(rng.integers(1, 5))
            full = n
            for _ in range(level):
                full = 2 * full + F - 2
            cs.append(c_upcoef(rng, n, rand_bank(rng, F), "ad"[rng.integers(2)], level, int(rng.choice([0, full, full - 1, int(rng.integers(1, full + 1))]))))
    # mixed precision of the two arguments: same values expected
    for _ in range(pick(60, 300)):
        n = int(rng.integers(3, 12))
        b = rand_bank(rng, int(rng.choice([2, 4, 6])))
        c = c_idwt(rng, n, b, MODES[rng.integers(9)], shape=(n,) if rng.random() < .5 else (n, 3), axis=0)
        c["mix"] = [["f8", "f4", "i4", "f2"][rng.integers(4)] for _ in range(2)]
        c["var"] = dict(dt="f8", lay="C")
        c["in"] = {k: np.asarray(v).real.astype(int) for k, v in c["in"].items()}
        c["op"], c["specop"] = "idwtmix", "idwt"
        cs.append(c)
    for part in "ad":
        for F in pick((2, 4, 6, 8, 10), (2, 4, 6, 8, 10, 12, 20)):
            for n in range(1, pick(7, 14)):
                level = int(rng.integers(1, 5))
                full = n
                for _ in range(level):
                    full = 2 * full + F - 2
                for take in {0, int(rng.integers(1, full + 1)), int(rng.integers(1, full + 1)), full, full - 1, full + 3, 1}:
                    cs.append(c_upcoef(rng, n, rand_bank(rng, F, 1), part, level, int(take)))
    cs += mixed(rng, cs)
    validate(chk, [c for c in cs if c], "integer-exact idwt/upcoef")
    items, reqs = [], []
    for n in NAMES:
        F = pywt.Wavelet(n).rec_len
        for m in MODES:
            N = int(rng.integers(F // 2, F + 12)) if m != "periodization" else int(rng.integers(1, F + 12))
            items.append((n, m, N, int(rng.integers(4)), int(rng.integers(1 << 30))))
            reqs.append(dict(kind="syn", mode=m if m == "periodization" else "x", N=N, F=F))
    OT.load(chk, reqs)

    def one(it):
        n, m, N, dti, seed = it
        dt = DTS[dti]
        r = np.random.default_rng(seed)
        a, d = rsig(r, N, dt), rsig(r, N, dt)
        w = pywt.Wavelet(n)
        va, ma = OT.syn(m, N, w.rec_lo, a)
        vd, md = OT.syn(m, N, w.rec_hi, d)
        for lab, got, v, mg in (("both", pywt.idwt(a, d, n, m), va + vd, ma + md), ("cA only", pywt.idwt(a, None, n, m), va, ma),
                                ("cD only", pywt.idwt(None, d, w, m), vd, md)):
            ok, msg = OT.close(got, v, mg, is_single(dt), w.rec_len)
            if not ok:
                return f"{lab}: {msg}"
        return ""
    judge_real(chk, one, items, "built-in filters")


@op("idwtmix")
def _(c, i):
    a, d = i["a"], i["d"]
    if a is not None:
        a = a.astype(DT[c["mix"][0]])
    if d is not None:
        d = d.astype(DT[c["mix"][1]])
    return dict(y=pywt.idwt(a, d, W1(c), M1(c), **kw_axis(c)))


@prop("C03")
def c03(chk):
    mc.pr_model(chk)
    rng = rng_for(chk)
    items = []
    for n in NAMES:
        F = pywt.Wavelet(n).dec_len
        for m in MODES:
            Ns = {1, 2, 3, int(rng.integers(2, F + 3)), int(rng.integers(F, 3 * F)), F, F + 1, int(rng.integers(100, 300))}
            for N in sorted(Ns) if not QUICK else rng.choice(sorted(Ns), 4, replace=False).tolist():
                if valid_len(N, m):
                    items.append((n, m, int(N), int(rng.integers(4)), int(rng.integers(1 << 30)), int(rng.integers(4))))
    for m in MODES:      # long signals
        for N in pick((1000, 4099), (1000, 4099, 65537)):
            items.append((NAMES[rng.integers(len(NAMES))], m, N, int(rng.integers(4)), int(rng.integers(1 << 30)), 0))
    measure_roundtrip(chk, items)
    # integer banks: exact equality
    cs = []
    for b in PRB:
        for m in MODES:
            for N in sorted({1, 2, 3, b.F - 1, b.F, b.F + 1, 2 * b.F + 1} | set(rng.integers(1, 40, pick(3, 12)).tolist())):
                if valid_len(N, m):
                    g = b.gain("d") * 2 * b.gain("r") * extgrow(m, N, b.F)
                    lim = 30 if ok_growth(g, 30) else 1
                    if not ok_growth(g, lim):
                        continue
                    sh, ax = [((N,), -1), ((N, 2), 0), ((3, N), 1), ((2, N, 2), -2)][rng.integers(4)]
                    var = choose_var(rng, g, lim)
                    cs.append(dict(op="pr1", specop="pr", gain=b.gainK, banks=[b], modes=[m], axes=[ax], var=var, **{"in": dict(x=ints(rng, sh, lim, var["dt"]))}))
    validate(chk, cs, "integer-exact round trips")


@op("pr1")
def _(c, i):
    w, m = W1(c), M1(c)
    ax = c["axes"][0]
    a, d = pywt.dwt(i["x"], w, m, axis=ax)
    return dict(y=pywt.idwt(a, d, w, m, axis=ax), parts=[pywt.idwt(a, None, w, m, axis=ax), pywt.idwt(None, d, w, m, axis=ax)])


def measure_roundtrip(chk, items):
    """Records (length, excess, error in units of the rounding bound) of real round trips; spec/Measure.tla judges."""
    def one(it):
        n, m, N, dti, seed, lay = it
        dt = DTS[dti]
        r = np.random.default_rng(seed)
        w = pywt.Wavelet(n)
        shape, axis = [((N,), -1), ((N, 3), 0), ((2, N), -1), ((2, N, 2), 1)][lay if N < 400 else 0]
        x = rsig(r, shape, dt)
        a, d = pywt.dwt(x, n, m, axis=axis)
        y = pywt.idwt(a, d, n, m, axis=axis)
        ya = pywt.idwt(a, None, n, m, axis=axis)
        yd = pywt.idwt(None, d, n, m, axis=axis)
        sl = tuple(slice(0, k) for k in x.shape)
        eps = 2.0 ** -23 if is_single(dt) else 2.0 ** -52
        A = max(np.abs(w.dec_lo).sum(), np.abs(w.dec_hi).sum()) * (np.abs(w.rec_lo).sum() + np.abs(w.rec_hi).sum())
        g = extgrow(m, N, w.dec_len)
        unit = eps * (w.dec_len + 4) * A * g * max(float(np.abs(x).max()), 1e-3) + WTOL.get(n, 0) * 2 * g * float(np.abs(x).max())
        err = float(np.abs(y[sl] - x).max()) if all(p >= q for p, q in zip(y.shape, x.shape)) else float("inf")
        err2 = float(np.abs(ya + yd - y).max()) if ya.shape == y.shape == yd.shape else float("inf")
        u = lambda e: int(min(1e6, np.ceil(e / unit * 100))) if np.isfinite(e) else 10 ** 6
        ax = axis % x.ndim
        return dict(op="roundtrip", N=N, M=int(y.shape[ax]), others=bool([s for k, s in enumerate(y.shape) if k != ax] == [s for k, s in enumerate(x.shape) if k != ax]),
                    err=u(err), err2=u(err2), odt=str(y.dtype), idt=str(np.dtype(dt)))
    measured(chk, one, items, "round trips")


# published tables are not all correct to the last bit: residual of the bank identities (see C15), in absolute terms
WTOL = {'bior4.4': 3.4e-12,
        'bior5.5': 3.9e-12,
        'bior6.8': 7.3e-13,
        'dmey': 0.009,
        'rbio4.4': 3.4e-12,
        'rbio5.5': 3.9e-12,
        'rbio6.8': 7.3e-13,
        'sym2': 2.3e-12,
        'sym3': 1.9e-11,
        'sym4': 2e-12,
        'sym5': 6.9e-13,
        'sym6': 3.1e-12,
        'sym7': 2.8e-12,
        'sym8': 7e-13,
        'sym9': 6.6e-15,
        'sym10': 8.7e-14,
        'sym11': 1e-13,
        'sym12': 1.8e-13,
        'sym13': 3.5e-13,
        'sym14': 1e-12,
        'sym15': 1.6e-12,
        'sym16': 7.2e-12,
        'sym17': 4.8e-12,
        'sym18': 1.7e-11,
        'sym19': 9.3e-12,
        'sym20': 5.7e-11}


def measured(chk, one, items, name, module="MeasureTrace"):
    """one(item) -> record for spec/Measure.tla (integers only)"""
    res = supervised(one, items)
    lines, owner = [], []
    for i, st, v in res:
        if st == "ok":
            for r in (v if isinstance(v, list) else [v]):
                r["id"] = len(lines)
                lines.append(json.dumps(r))
                owner.append(i)
        else:
            chk.violate(f"{name}:{items[i]}".replace(" ", ""), (v.strip().splitlines()[-1] if st == "exc" else st), dict(part=name, item=items[i], trace=v))
    if not lines:
        return
    p = scratch() / "measure.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc(module, env=dict(TRACE=p))
    judged(chk, r, len(lines) + 16, name)
    chk.add_tlc(name, r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note(name, records=len(lines))
    chk.sample(dict(part=name, item=str(items[len(items) // 2]), record=json.loads(lines[len(lines) // 2])))
    for mm in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        k = int(mm.group(1))
        it = items[owner[k]]
        chk.violate(f"{name}:{it}".replace(" ", ""), f"clauses {mm.group(2)}: {lines[k][:400]}", dict(part=name, item=it, record=json.loads(lines[k])))
    p.unlink()
