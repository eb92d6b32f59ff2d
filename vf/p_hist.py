"""C23: histories and schedules of calls that TLC generates (spec/MC_History.tla, spec/MC_Threads.tla), replayed in
processes of their own by hist.py and judged by spec/HistoryTrace.tla."""
import hashlib, pickle
from registry import prop
from core import *
import mc


def run(what, jobs, env=None, **kw):
    """hist.py in a process that has made no call yet"""
    d = scratch()
    (d / "jobs.pkl").write_bytes(pickle.dumps(dict(what=what, jobs=jobs, **kw)))
    e = dict(os.environ, **(env or {}))
    p = subprocess.run([sys.executable, "-B", str(VERIF / "vf" / "hist.py"), str(d / "jobs.pkl"), str(d / "out.pkl")], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=850)
    if p.returncode or not (d / "out.pkl").exists():
        raise MachineryError("hist.py: " + p.stdout.decode("utf-8", "replace")[-3000:])
    out = pickle.loads((d / "out.pkl").read_bytes())
    (d / "out.pkl").unlink()
    return out


def judge(chk, what, jobs, res, name):
    lines, own = [], []
    for i, s, v in res:
        if s == "ok":
            v = dict(v, id=len(lines))
            lines.append(json.dumps(v))
            own.append(i)
        else:
            chk.violate(f"{name}:{tag(jobs[i])}", v if isinstance(v, str) and s == "exc" else s, dict(part=what, job=jobs[i], trace=str(v)))
    if not lines:
        return
    p = scratch() / "hist.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc("HistoryTrace", env=dict(TRACE=p), timeout=pick(600, 1500))
    judged(chk, r, len(lines) + 16, name)
    chk.add_tlc(name, r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    recs = None
    steps = 0
    for l in lines:
        steps += l.count('"e":')
    chk.note(name, histories=len(lines), events=steps)
    chk.sample(dict(part=name, first=lines[len(lines) // 2][:600]))
    for m in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        k = int(m.group(1))
        v = json.loads(lines[k])
        at = int(re.search(r"(\d+):", m.group(2)).group(1))
        near = v["steps"][max(0, at - 5):at]
        e = v["steps"][at - 1]
        f = next((s["f"] for s in reversed(v["steps"][:at]) if "f" in s), "?")
        chk.violate(f"{name}:{f}:{re.sub(r'[^a-z]+', '', m.group(2))}", f"clauses {m.group(2)} after {json.dumps(near)[:700]}", dict(part=what, job=jobs[own[k]], events=v["steps"][:at]))


def tag(j):
    return hashlib.sha1(repr(j).encode()).hexdigest()[:8]


def kinds():
    """names of the calls, without importing hist (it imports the library, which is harmless, but not its first call)"""
    import hist
    return [k for k in hist.KINDS if k not in hist.LOADERS]


def shapes(chk):
    out = {}
    for ln, faults in ((3, 2), (pick(3, 4), 1)):
        r = mc.history_model(chk, ln, faults)
        told, allD = {}, set()
        for l in r.out.splitlines():
            if l.startswith('"HIS '):
                o = json.loads(json.loads(l)[4:])
                told.setdefault(json.dumps(o["design"], sort_keys=True), []).append(o["history"])
            elif l.startswith('"DES '):
                o = json.loads(json.loads(l)[4:])
                allD.add((json.dumps(o["design"], sort_keys=True), o["sound"]))
        uns = {d for d, s in allD if not s}
        if set(told) != uns or not uns:
            raise MachineryError("designs no short history tells: " + str(uns - set(told)))
        for d, hs in told.items():
            m = min(map(len, hs))
            for h in hs:
                k = json.dumps(h)
                out[k] = out.get(k, False) or len(h) == m
        if ln == pick(3, 4):
            break
    short = [json.loads(k) for k, v in sorted(out.items()) if v]
    rest = [json.loads(k) for k, v in sorted(out.items()) if not v]
    return short, rest


def instance(h, f1, f2, k0, rng):
    """a history of the specification with its two calls named, its results numbered from k0"""
    ev = []
    for e in h:
        e = dict(e)
        if "f" in e:
            e["f"] = (f1, f2)[e["f"] - 1]
        if "k" in e:
            e["k"] += k0
        if e["e"] == "fail":
            e["how"] = int(rng.integers(4))
            if e["how"] == 3:
                e["at"] = float(rng.random())
        ev.append(e)
    n = sum(1 for e in h if e["e"] == "call")
    # the caller lets go of everything and turns its objects back
    for i in range(n):
        if not any(e["e"] == "spoil" and e["k"] == i + 1 for e in h):
            ev.append(dict(e="spoil", k=k0 + i + 1))
    for s in (1, 2):
        for what, fld in (("turn", "w"), ("poke", "d")):
            if sum(1 for e in h if e["e"] == what and e[fld] == s) % 2:
                ev.append({"e": what, fld: s})
    return ev, k0 + n


def firsts(chk, keys):
    """the value each call has when it is the first thing a process does: key -> (class, value)"""
    import hist
    res = run("fresh", [(k, False) for k in keys])
    bad = [(keys[i], v) for i, s, v in res if s != "ok"]
    for k, v in {k[0]: (k, v) for k, v in bad}.values():
        chk.violate(f"fresh:{k[0]}", str(v)[-400:], dict(key=k))
    if bad:
        return None
    fresh, classes = {}, {}
    for i, s, v in res:
        c = classes.setdefault(keys[i][0], [])
        for n, u in c:
            if hist.same(v, u):
                break
        else:
            n = sum(map(len, classes.values())) + 1
            c.append((n, v))
        fresh[keys[i]] = (n, v)
    chk.note("values of first calls", calls=len(keys), classes=sum(map(len, classes.values())))
    return fresh


@prop("C23")
def c23(chk):
    short, rest = shapes(chk)
    rng = np.random.default_rng(SEED + 23)
    K = kinds()
    heavy = {"data"}
    keys = [(f"{k}/{v}", w, wc, d, dc) for k in K for v in (0, 1) for w in (1, 2) for wc in (0, 1) for d in (1, 2) for dc in (0, 1)]
    fresh = firsts(chk, keys)
    if fresh is None:
        return
    # 1. every history the specification finds telling, for every call with itself and with others
    jobs = []
    for k in K:
        ev, n = [], 0
        light = k in heavy
        partners = [k] * 2 + [K[i] for i in rng.permutation(len(K))[:pick(2 if light else 8, 20)]]
        for p in partners:
            sh = short if not light else short[:6]
            if p == k and not light:
                sh = sh + [rest[i] for i in rng.permutation(len(rest))[:pick(40, 250)]]
            else:
                sh = sh + [rest[i] for i in rng.permutation(len(rest))[:pick(4, 12)]]
            for h in sh:
                v = int(rng.integers(2))
                f1, f2 = f"{k}/{v}", f"{p}/{1 - v if p == k else int(rng.integers(2))}"
                e, n = instance(h, f1, f2, n, rng)
                ev += e
                if len(ev) > 500:
                    jobs.append(dict(events=ev))
                    ev, n = [], 0
        if ev:
            jobs.append(dict(events=ev))
    # long walks
    for _ in range(pick(40, 600)):
        jobs.append(dict(events=walk(rng, [k for k in K if k not in heavy], pick(60, 120))))
    order = rng.permutation(len(jobs))
    jobs = [jobs[i] for i in order]
    junk = dict(MALLOC_PERTURB_=str(1 + int(rng.integers(254))))
    judge(chk, "history", jobs, run("history", jobs, env=junk, fresh=fresh), "histories")
    # 2. schedules of two calls
    r = mc.threads_model(chk)
    sch = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"SCH ')]
    stages = len(sch[0]["sched"]) // 2
    telling = [s["sched"] for s in sch if s["told"]]
    both = sorted({json.dumps(s["sched"]) for s in sch})
    if not telling or any(s["told"] for s in sch if s["design"] == "own"):
        raise MachineryError("no schedule tells")
    both = [json.loads(s) for s in both]
    jobs = []
    for k in K:
        if k in heavy:
            continue
        for p in [k] + [K[i] for i in rng.permutation(len(K))[:pick(1, 4)]]:
            if p in heavy:
                continue
            calls = [(f"{k}/0", 1, 1), (f"{p}/0", 2, 2), (f"{k}/1", 1, 2), (f"{p}/1", 1, 1)]
            runs = []
            for i, j in ((0, 1), (2, 3), (0, 3)):
                pool = [s for s in both]
                pickd = [pool[q] for q in rng.permutation(len(pool))[:pick(7, len(pool))]]
                runs += [((i, j), s, stages) for s in pickd]
                # one interruption, anywhere
                for q in rng.permutation(39)[:pick(4, 39)]:
                    runs.append(((i, j), [1] * int(q + 1) + [2] * 40 + [1] * int(39 - q), 40))
            jobs.append(dict(calls=calls, runs=runs))
    judge(chk, "pairs", jobs, run("pairs", jobs, fresh=fresh), "schedules of two threads")
    # 3. threads at full speed
    calls = [f"{k}/{v}" for k in K if k not in heavy for v in (0, 1)]
    jobs = []
    for _ in range(pick(6, 60)):
        some = [calls[i] for i in rng.permutation(len(calls))[:12]]
        jobs.append(dict(big=False, threads=[[(some[rng.integers(12)], int(rng.integers(1, 3)), int(rng.integers(1, 3))) for _ in range(pick(60, 200))] for _ in range(4)]))
    judge(chk, "storm", jobs, run("storm", jobs, fresh=fresh, nproc=2), "threads at once")
    BIGK = ["dwt", "dwtaxis", "idwtaxis", "downcoef", "upcoef", "dwt2", "idwt2", "dwtn", "idwtn", "wavedec", "waverec", "wavedec2", "waverec2", "wavedecn", "waverecn",
            "swt", "iswt", "swt2", "iswt2", "swtn", "mra", "threshold", "pad", "tree1", "tree2r", "treen", "fswavedecn", "fswaverecn", "pack", "wavefun", "cwavefun"]
    bk = [(f"{k}/{v}", w, 0, d, 0) for k in BIGK for v in (0, 1) for w in (1, 2) for d in (1, 2)]
    res = run("fresh", [(k, True) for k in bk])
    for i, s, v in res:
        if s != "ok":
            chk.violate(f"fresh:{bk[i][0]}:large", str(v)[-400:], dict(key=bk[i]))
            return
    bigfresh = {bk[i]: (i + 1, v) for i, s, v in res}
    jobs = []
    for k in BIGK:
        for v in (0, 1):
            mine = f"{k}/{v}"
            jobs.append(dict(big=True, threads=[[((mine, f"{k}/{1 - v}")[int(rng.random() < .2)], int(rng.integers(1, 3)), int(rng.integers(1, 3))) for _ in range(pick(4, 12))] for _ in range(4)]))
    for _ in range(pick(6, 60)):
        jobs.append(dict(big=True, threads=[[(f"{BIGK[rng.integers(len(BIGK))]}/{rng.integers(2)}", int(rng.integers(1, 3)), int(rng.integers(1, 3))) for _ in range(pick(6, 12))] for _ in range(8)]))
    judge(chk, "storm", jobs, run("storm", jobs, bigfresh=bigfresh, nproc=2), "threads at once over large arrays")


def walk(rng, K, n):
    """a behaviour of History: random events, each enabled"""
    some = [f"{K[i]}/{v}" for i in rng.permutation(len(K))[:4] for v in (0, 1)]
    ev, k, held = [], 0, []
    for _ in range(n):
        r = rng.random()
        w, d = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        if r < .55:
            k += 1
            held.append(k)
            ev.append(dict(e="call", t=1, f=some[rng.integers(len(some))], w=w, d=d, k=k))
        elif r < .63:
            ev.append(dict(e="turn", w=w))
        elif r < .7:
            ev.append(dict(e="poke", d=d))
        elif r < .85 or len(held) > 6:
            if held:
                q = held.pop(int(rng.integers(len(held))))
                ev.append(dict(e="spoil", k=q))
        else:
            e = dict(e="fail", f=some[rng.integers(len(some))], w=w, d=d, how=int(rng.integers(4)))
            if e["how"] == 3:
                e["at"] = float(rng.random())
            ev.append(e)
    return ev
