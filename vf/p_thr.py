"""C14: thresholding against the table of exact results emitted by TLC from spec/Threshold.tla"""
from registry import prop
from gen import *
from p_dwt import rng_for
import mc

INF = 1000000
SUB = 7.0


def val(re_, im, den, cplx):
    if den == 0:
        return re_ * np.inf
    v = complex(re_, im) if cplx else float(re_)
    return v / den


@prop("C14")
def c14(chk):
    tabs = mc.threshold_tables(chk)
    rng = rng_for(chk)
    groups = {}
    for k in ("real", "cplx", "firm"):
        for row in tabs[k]:
            kk = k if k != "firm" else ("firmc" if row[2] else "firm")
            groups.setdefault((kk, row[0]), []).append(row)
    n = sum(map(len, tabs.values()))
    jobs = []

    def add(kind, mode, rows, how):
        jobs.append((kind, mode, rows, how, int(rng.integers(1 << 30))))
    for (kind, mode), rows in groups.items():
        by = {}
        for r in rows:
            by.setdefault((r[4], r[5], r[6]), []).append(r)
        for key, rs in by.items():          # one threshold, every element
            rs = [rs[i] for i in rng.permutation(len(rs))]
            add(kind, mode, rs, "scalar")
            if rng.random() < pick(.5, 1):
                add(kind, mode, rs[:int(rng.integers(1, len(rs) + 1))], "scalar")
                if rng.random() < pick(.05, .3):
                    add(kind, mode, [rs[i] for i in rng.integers(0, len(rs), int(rng.integers(300, 12000)))], "scalar")
        if not mode == "firm":
            for s in (False, True):         # one threshold per element
                rs = [r for r in rows if r[6] == s]
                for _ in range(pick(12, 80)):
                    m = int(rng.integers(1, 60))
                    add(kind, mode, [rs[i] for i in rng.integers(0, len(rs), m)], "array")
                if rs:
                    add(kind, mode, [rs[i] for i in rng.integers(0, len(rs), int(rng.integers(300, 12000)))], "array")
        for _ in range(pick(60, 400)):
            add(kind, mode, [rows[rng.integers(len(rows))]], "one")

    def one(job):
        kind, mode, rows, how, seed = job
        r = np.random.default_rng(seed)
        cplx = kind in ("cplx", "firmc")
        firm = mode == "firm"
        inf = any(x[3] == INF or x[4] == INF for x in rows)
        k = len(rows)
        dts = ["c16", "c16", "c8"] if cplx else ["f8", "f8", "f4"] + ([] if inf else ["i8", "i4", "i2"])
        dt = dts[r.integers(len(dts))]
        sc = 2.0 ** int(r.integers(-60, 60)) if dt in ("f8", "c16") else 2.0 ** int(r.integers(-8, 8)) if dt in ("f4", "c8") else 1.0
        if r.random() < .5:
            sc = 1.0
        data = np.array([val(x[1], x[2], 0 if x[3] == INF else 1, cplx) for x in rows])
        want = np.array([SUB if x[10] else sc * val(x[7], x[8], x[9], cplx) for x in rows])
        exact = np.array([x[10] or x[9] in (0, 1) for x in rows])
        data = data * sc
        th = lambda v: np.inf if v == INF else v * sc
        # arrange
        shape = (k,)
        if how == "one":
            shape = [(), (1,), (1, 1)][r.integers(3)]
        elif r.random() < .5:
            f = [q for q in range(1, k + 1) if k % q == 0]
            a = f[r.integers(len(f))]
            g = [q for q in range(1, k // a + 1) if (k // a) % q == 0]
            b = g[r.integers(len(g))]
            shape = [(a, k // a), (a, b, k // a // b)][r.integers(2)]
        keep = []
        lay = ["C", "list", "F", "step", "neg", "off", "T", "ro", "swap"][r.integers(9)]
        x = data.reshape(shape)
        if shape == ():
            lay = ["C", "list", "ro"][r.integers(3)]
        obj = mk(x, dict(dt=dt, lay=lay), keep)
        if how == "one" and shape == () and r.random() < .5:
            obj = data[0].item() if dt in ("f8", "c16") else DT[dt](data[0])
        if firm:
            args = (th(rows[0][4]), th(rows[0][5]))
            got = pywt.threshold_firm(obj, *args)
        else:
            t = th(rows[0][4]) if how != "array" else np.array([th(x[4]) for x in rows]).reshape(shape)
            if how != "array" and np.isfinite(t) and sc == 1 and r.random() < .3:
                t = int(t)
            if how == "array":
                keep.append((t, t.copy()))
            kw = {}
            if rows[0][6] or r.random() < .3:
                kw["substitute"] = SUB if rows[0][6] else 0
            if mode == "soft" and r.random() < .3:
                got = pywt.threshold(obj, t, **kw)
            elif "substitute" in kw and r.random() < .5:
                got = pywt.threshold(obj, t, mode, kw["substitute"])
            else:
                got = pywt.threshold(obj, t, mode=mode, **kw)
        if not unchanged(keep):
            return "input modified"
        got = np.asarray(got)
        want = want.reshape(shape)
        if got.shape != want.shape:
            return f"shape {got.shape} instead of {want.shape}"
        g, w = got.ravel().astype(complex if cplx else float, casting="unsafe") if cplx or got.dtype.kind != "c" else got.ravel(), want.ravel()
        eps = 2.0 ** -23 if dt in ("f4", "c8") else 2.0 ** -52
        for i in range(k):
            if np.isinf(w[i]):
                ok = g[i] == w[i]
            else:
                # a relative error of a few roundings of the unshrunk value
                ok = abs(g[i] - w[i]) <= (0 if exact[i] and not (mode in ("soft", "garrote", "garotte", "firm") and w[i] != 0 and not rows[i][10]) else 6 * eps * abs(data[i]))
            if not ok:
                x = rows[i]
                return f"{mode}(x={x[1]}{x[2]:+}i scale {sc}, t={x[4]},{x[5]} sub={x[6]}) = {g[i]!r}, want {w[i]!r} [{dt} {lay} {shape} {how}]"
        return ""
    res = supervised(one, jobs)
    cells = 0
    for i, s, v in res:
        cells += len(jobs[i][2])
        if s == "ok" and not v:
            continue
        kind, mode, rows, how, seed = jobs[i]
        chk.violate(f"threshold:{mode}:{kind}:{how}:{rows[0][4]}:{rows[0][5]}:{rows[0][6]}", v if s == "ok" else s + ": " + str(v)[-400:],
                    dict(mode=mode, kind=kind, how=how, rows=rows[:50], seed=seed))
    # entries that are the same for an empty array
    for mode in ("soft", "hard", "garrote", "greater", "less"):
        for sh in ((0,), (3, 0)):
            if pywt.threshold(np.zeros(sh), 1, mode).shape != sh:
                chk.violate(f"threshold:{mode}:empty", "shape of an empty array")
    chk.cov["traces_validated_against_impl"] += len(jobs)
    chk.note("replay of the table", table_rows=n, calls=len(jobs), elements=cells)
    chk.sample(dict(part="table", rows=tabs["real"][:3] + tabs["firm"][:3]))
