"""C26: demo signals and datasets (spec/Signals.tla), and histories of their calls."""
import hashlib
from registry import prop
from core import *
from gen import *
import mc
from p_dwt import rng_for, measured
from p_cont import evaluate, units, LD, CLD
import p_hist


def signal(spec):
    """the samples an entry of the specification describes, with their magnitudes"""
    n, eps = spec["n"], LD(2) ** -53
    out, mag = np.zeros(n, LD), np.zeros(n, LD)
    im, mim = np.zeros(n, LD), np.zeros(n, LD)
    cplx = False
    for l in spec["layers"]:
        if l["lo"] > l["hi"]:
            continue
        i = np.arange(l["lo"], l["hi"] + 1).astype(LD)
        par = dict(i=i, before=(out.copy(), mag.copy()))
        sl = slice(l["lo"] - 1, l["hi"])
        out[sl], mag[sl] = evaluate(l["re"], None, par, eps)
        if "im" in l:
            cplx = True
            im[sl], mim[sl] = evaluate(l["im"], None, par, eps)
    if spec["finish"] != "none":
        mean = out.sum() / n
        mag = mag + np.abs(out) + (mag.sum() + np.abs(out).sum() * np.ceil(np.log2(n + 1))) / n + abs(mean)
        out = out - mean if spec["finish"] == "center" else mean - out
    mag = mag + np.abs(out)
    return (out + CLD(1j) * im, mag + mim + np.abs(im)) if cplx else (out, mag)


def spelled(rng, s):
    k = rng.integers(4)
    return s if k == 0 else s.lower() if k == 1 else s.upper() if k == 2 else "".join(c.upper() if rng.integers(2) else c.lower() for c in s)


@prop("C26")
def c26(chk):
    rng = rng_for(chk)
    free = [n for n in pywt.data.demo_signal("list")]
    lens = sorted({int(v) for v in list(range(1, pick(36, 200))) + [500, 512, 1000, 1024, 1280] + list(rng.integers(36, pick(700, 3000), pick(24, 150))) + [2 ** int(rng.integers(5, 13))]})
    ask = [dict(name=s, n=n) for s in free for n in ([dict(Gabor=512).get(s, 1024)] if s in ("Gabor", "sineoneoverx") else lens)]
    r, told = mc.signals_model(chk, ask)
    byname = {f"{sp['name']}/{sp['n']}": (k, sp) for k, sp in enumerate(told["signals"])}
    # 1. every signal at every length asked for
    def one(key):
        k, sp = byname[key]
        q = np.random.default_rng(SEED * 1000003 + k)
        nm = spelled(q, sp["name"])
        fixed = sp["name"] in ("Gabor", "sineoneoverx")
        n = None if fixed else sp["n"] if q.integers(3) else np.int64(sp["n"])
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = pywt.data.demo_signal(nm) if fixed and q.integers(2) else pywt.data.demo_signal(nm, n)
            want, mag = signal(sp)
        rec = dict(op="signal", name=sp["name"], n=sp["n"], M=list(np.shape(got)), N=[sp["n"]], odt=str(np.asarray(got).dtype), want="complex128" if np.iscomplexobj(want) else "float64", err=0)
        if list(np.shape(got)) == [sp["n"]] and not sp["loose"]:
            rec["err"] = units(np.abs(got - want), mag * LD(2) ** -52 + 1e-300)
        elif sp["loose"] and not np.all(np.isfinite(got)):
            rec["err"] = 10 ** 6
        return rec
    measured(chk, one, list(byname), "signals")
    # 2. requests
    def req(k):
        q = told["requests"][k]
        a = q["n"]
        n = None if not a else a[0] if a[1] == 1 else a[0] / a[1]
        nm = spelled(np.random.default_rng(k), q["name"])
        try:
            v = pywt.data.demo_signal(nm, n)
            ans = "names" if isinstance(v, list) else "signal"
            if ans == "names" and v != told["listed"]:
                ans = "othernames"
        except ValueError:
            ans = "ValueError"
        return dict(op="answer", name=q["name"], n=a, got=ans, want=q["answer"])
    measured(chk, req, list(range(len(told["requests"]))), "requests")
    # 3. datasets
    def dat(k):
        d = told["datasets"][k // 2]
        import importlib.resources
        raw = np.load(str(importlib.resources.files("pywt.data").joinpath(d["file"] + ".npz")))["data"]
        got = getattr(pywt.data, d["name"])()
        out = []
        got = got if isinstance(got, tuple) else (got,)
        want = [raw]
        if d["name"] == "nino":
            years = raw.shape[0] // 12
            x = raw[:12 * years, 4].astype(LD)
            x = (x[0::3] + x[1::3] + x[2::3]) / 3
            m = x.sum() / len(x)
            x = (x - m) / np.sqrt(((x - m) ** 2).sum() / (len(x) - 1))
            f, per = told["quarters"]
            want = [f + np.arange(len(x)) / LD(per), x]
        for g, w, a in zip(got, want, d["arrays"]):
            same = list(np.shape(g)) == list(w.shape)
            err = units(np.abs(np.asarray(g, LD) - w.astype(LD)), (np.abs(w.astype(LD)) + 100) * LD(2) ** -52) if same else 0
            out.append(dict(op="dataset", name=d["name"], M=list(np.shape(g)), N=a["shape"], odt=str(g.dtype), want=a["dtype"], err=err, own=bool(g.flags.owndata and g.flags.writeable), count=len(got) == len(d["arrays"])))
            g[...] = 7
        return out
    measured(chk, dat, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], "datasets")
    # 4. histories of loaders and signals, with the caller's changes between the calls
    short, rest = p_hist.shapes(chk)
    K = ["ascent", "aero", "camera", "ecg", "nino", "demo", "demolist"] + [f"demo{i}" for i in range(len(told["listed"]))]
    keys = [(f"{k}/{v}", w, c, d, e) for k in K for v in (0, 1) for w in (1, 2) for c in (0, 1) for d in (1, 2) for e in (0, 1)]
    fresh = p_hist.firsts(chk, keys)
    if fresh is None:
        return
    jobs = []
    for k in K:
        ev, n = [], 0
        sh = [short[i] for i in rng.permutation(len(short))[:pick(12, 200)]] + [rest[i] for i in rng.permutation(len(rest))[:pick(6, 200)]]
        for h in sh:
            p = k if rng.random() < .6 else K[rng.integers(len(K))]
            v = int(rng.integers(2))
            e, n = p_hist.instance(h, f"{k}/{v}", f"{p}/{1 - v if p == k else int(rng.integers(2))}", n, rng)
            ev += e
        jobs.append(dict(events=ev))
    for _ in range(pick(10, 100)):
        jobs.append(dict(events=p_hist.walk(rng, K, pick(40, 100))))
    p_hist.judge(chk, "history", jobs, p_hist.run("history", jobs, fresh=fresh), "histories of loaders")
