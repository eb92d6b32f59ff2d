"""C24: pickling and copying of wavelet objects (spec/Objects.tla) and of wavelet packet trees (spec/Forest.tla)."""
import copy, gc, io, pickle, hashlib
from fractions import Fraction
from registry import prop
from gen import *
from p_dwt import rng_for, rsig, NAMES, DTS, measured
import mc, hist, p_wp

CONT = pywt.wavelist(kind="continuous")
SET = {"Wavelet": ["orthogonal", "biorthogonal"],
       "ContinuousWavelet": ["orthogonal", "biorthogonal", "complex_cwt", "lower_bound", "upper_bound", "center_frequency", "bandwidth_frequency", "fbsp_order"]}
FLAGS = {"orthogonal", "biorthogonal", "complex_cwt"}
FIXED = {"Wavelet": ["name", "family_name", "short_family_name", "symmetry", "number", "family_number", "vanishing_moments_psi", "vanishing_moments_phi", "dec_len", "rec_len", "dec_lo", "dec_hi", "rec_lo", "rec_hi"],
         "ContinuousWavelet": ["name", "family_name", "short_family_name", "symmetry", "number", "family_number", "dt"]}
SIG = np.random.default_rng(5).standard_normal(24)


# ------------------------------------------------------------------ what an object is
def kind(w):
    return type(w).__name__


def eighths(v, odd):
    """an integer for the specification; values that are not eighths get numbers of their own"""
    if v is None:
        return -999999
    q = Fraction(v) * 8
    if q.denominator == 1:
        return int(q)
    if v not in odd:
        odd[v] = 1000000 + len(odd)
    return odd[v]


def report(w, odd):
    return {a: 8 * int(getattr(w, a)) if a in FLAGS else eighths(getattr(w, a), odd) for a in SET[kind(w)]}


def fixed(w):
    v = [kind(w)] + [repr(getattr(w, a, "-")) for a in FIXED[kind(w)]]
    return hashlib.sha1("|".join(v).encode()).hexdigest()[:12] + ":" + v[1]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return "raises " + type(e).__name__


def behaviour(w):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if kind(w) == "Wavelet":
            o = [attempt(lambda: list(pywt.dwt(SIG, w))), attempt(lambda: pywt.idwt(SIG, SIG[::-1], w, "zero")), attempt(lambda: list(w.wavefun(level=3))),
                 attempt(lambda: pywt.swt(SIG, w, 1, norm=True)), str(w), len(w), list(w.filter_bank), list(w.inverse_filter_bank),
                 attempt(lambda: pywt.waverec(pywt.wavedec(SIG, w, level=1), w))]
        else:
            o = [attempt(lambda: list(w.wavefun(length=17))), attempt(lambda: list(w.wavefun(level=4))), attempt(lambda: list(pywt.cwt(SIG, [2, 3.5], w))),
                 attempt(lambda: pywt.central_frequency(w, 6)), str(w), attempt(lambda: list(pywt.integrate_wavelet(w, 5)))]
    return hist.value(o)


# ------------------------------------------------------------------ copying
HOWS = [f"pickle{k}" for k in range(pickle.HIGHEST_PROTOCOL + 1)] + ["copy", "deepcopy", "pypickle", "buffers"]


def duplicate(o, how):
    if how.startswith("pickle"):
        return pickle.loads(pickle.dumps(o, int(how[6:])))
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "pypickle":       # the pickler written in Python
        f = io.BytesIO()
        pickle._Pickler(f, 4).dump(o)
        return pickle._loads(f.getvalue())
    if how == "buffers":        # data outside of the stream, read-only
        b = []
        s = pickle.dumps(o, 5, buffer_callback=b.append)
        return pickle.loads(s, buffers=[bytearray(x.raw()) for x in b])
    raise MachineryError(how)


class Objects:
    def __init__(self, makers):
        self.os = [m() for m in makers]
        self.odd, self.pool, self.steps = {}, [], []
        self.made = [self.look(o) for o in self.os]

    def look(self, o):
        v = behaviour(o)
        for n, u in enumerate(self.pool):
            if hist.same(v, u):
                break
        else:
            n = len(self.pool)
            self.pool.append(v)
        return dict(fixed=fixed(o), rep=report(o, self.odd), beh=n)

    def do(self, ev):
        ev = dict(ev)
        e = ev["e"]
        try:
            if e == "set":
                v = ev.pop("raw")
                setattr(self.os[ev["o"] - 1], ev["a"], v)
            elif e == "deny":
                a, v = ev.pop("what")
                setattr(self.os[ev["o"] - 1], a, v)
            elif e == "copy":
                src = [self.os[k - 1] for k in ev["from"]]
                how, wrap = ev["how"], ev.get("wrap")
                if wrap == "list":
                    r = duplicate([src, src, {"k": src[0]}], "deepcopy" if how == "copy" else how)
                    if any(a is not b for a, b in zip(r[0], r[1])) or r[2]["k"] is not r[0][0]:
                        raise AssertionError("identity")
                    r = r[0]
                    if any((a is b) != (c is d) for a, c in zip(src, r) for b, d in zip(src, r)):
                        raise AssertionError("identity")
                else:
                    r = [duplicate(s, how) for s in src]
                if any(a is b for a in r for b in self.os if b is not None):
                    raise AssertionError("not a copy")
                self.os += r
            elif e == "drop":
                self.os[ev["o"] - 1] = None
                gc.collect()
        except Exception as x:
            ev["raised"] = type(x).__name__
        self.steps.append(ev)
        ev["got"] = [dict(gone=True) if o is None else self.look(o) for o in self.os]


def raw(a, v):
    """an attribute value from eighths, in one of its forms"""
    return v // 8 if a in FLAGS or a == "fbsp_order" else v / 8


BAD = {"orthogonal": ["x", None], "biorthogonal": [[], "yes"], "complex_cwt": ["x", None], "lower_bound": ["a", None, 1j], "upper_bound": [[1], "b"], "center_frequency": ["c", None],
       "bandwidth_frequency": [None, "d"], "fbsp_order": [-1, "e", 2 ** 40]}
READONLY = {"Wavelet": ["name", "number", "dec_len", "dec_lo", "symmetry", "family_name", "vanishing_moments_psi"], "ContinuousWavelet": ["name", "number", "dt", "symmetry", "family_name", "nothing"]}
REFUSE = ["AttributeError", "TypeError", "OverflowError", "ValueError"]


def maker(rng):
    k = rng.random()
    if k < .35:
        n = NAMES[rng.integers(len(NAMES))]
        return lambda: pywt.Wavelet(n.upper() if rng.random() < .1 else n)
    if k < .55:
        F = int(rng.integers(1, 9))
        fb = rng.integers(-9, 10, (4, F)) / 8
        nm = ["mine", "Mine", "db2", "", "ünï", "a b", "haar"][rng.integers(7)]
        lens = rng.random() < .3
        form = rng.integers(4)

        class Held:
            def __init__(self):
                self.filter_bank = fb.tolist()
        b = fb.tolist() if form == 0 else tuple(map(tuple, fb)) if form == 1 else [np.array(v) for v in fb] if form == 2 else Held()
        if form == 3:
            return lambda: pywt.Wavelet(nm, b)
        return lambda: pywt.Wavelet(nm, filter_bank=b)
    import p_cont
    n = p_cont.cname(rng)
    dt = [np.float64, np.float32][rng.integers(2)]
    if rng.random() < .3:
        return lambda: pywt.ContinuousWavelet(n)
    if rng.random() < .2:
        return lambda: pywt.DiscreteContinuousWavelet(n)
    return lambda: pywt.ContinuousWavelet(n, dt)


MAPS = {"Wavelet": [dict(lower_bound="orthogonal", upper_bound="biorthogonal", fbsp_order="biorthogonal", orthogonal="orthogonal")],
        "ContinuousWavelet": [{}, dict(fbsp_order="center_frequency", orthogonal="biorthogonal"), dict(fbsp_order="bandwidth_frequency", orthogonal="complex_cwt")]}


def concrete(h, w, rng):
    """a history of the specification for a real object; its abstract attributes become some of the object's"""
    m = MAPS[kind(w)][rng.integers(len(MAPS[kind(w)]))]
    out = []
    for e in h:
        e = dict(e)
        if e["e"] == "set":
            a = e["a"] = m.get(e["a"], e["a"])
            if a not in FLAGS:
                # the values 0 and 1 of the specification stay different from each other and from what there was
                base = [-24, 20] if a in ("lower_bound", "upper_bound") else [0, 16]
                e["v"] = base[e["v"] // 8]
            e["raw"] = raw(a, e["v"])
        if e["e"] == "copy":
            e["how"] = HOWS[rng.integers(len(HOWS))]
            if rng.random() < .3:
                e["wrap"] = "list"
        out.append(e)
    return out


def wander(rng, objs, n):
    """a random behaviour of Objects over the real objects' attributes"""
    kinds_ = [kind(o) for o in objs]
    alive = list(range(1, len(objs) + 1))
    ev = []
    for _ in range(n):
        r = rng.random()
        o = alive[rng.integers(len(alive))]
        k = kinds_[o - 1]
        if r < .45:
            a = SET[k][rng.integers(len(SET[k]))]
            v = int(rng.integers(2)) * 8 if a in FLAGS else int(rng.integers(0, 6)) * 8 if a == "fbsp_order" else int(rng.integers(-40, 41)) if a.endswith("bound") else int(rng.integers(0, 20))
            q = raw(a, v)
            if a in FLAGS and v and rng.random() < .3:
                q = [True, 7, -1, np.int64(3)][rng.integers(4)]
            elif a not in FLAGS and rng.random() < .3 and a != "fbsp_order":
                q = np.float32(q) if rng.random() < .5 else np.float64(q)
            ev.append(dict(e="set", o=o, a=a, v=v, raw=q))
        elif r < .8 and len(kinds_) < 7:
            src = [o] if rng.random() < .7 else [alive[i] for i in rng.integers(0, len(alive), 2)]
            src = list(dict.fromkeys(src))
            e = dict(e="copy", how=HOWS[rng.integers(len(HOWS))])
            e["from"] = src
            if len(src) > 1 or rng.random() < .3:
                e["wrap"] = "list"
            ev.append(e)
            for s in src:
                alive.append(len(kinds_) + 1)
                kinds_.append(kinds_[s - 1])
        elif r < .88 and len(alive) > 1:
            alive.remove(o)
            ev.append(dict(e="drop", o=o))
        elif r < .96:
            if rng.random() < .5:
                a = SET[k][rng.integers(len(SET[k]))]
                ev.append({"e": "deny", "o": o, "what": (a, BAD[a][rng.integers(len(BAD[a]))]), "with": REFUSE})
            else:
                a = READONLY[k][rng.integers(len(READONLY[k]))]
                ev.append({"e": "deny", "o": o, "what": (a, 1), "with": REFUSE})
        else:
            ev.append(dict(e="use"))
    return ev


def objects_part(chk, rng):
    r = mc.objects_model(chk)
    told = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"COP ')]
    by = {}
    for t in told:
        by.setdefault(t["design"], []).append(t["history"])
    short = []
    for d, hs in sorted(by.items()):
        m = min(map(len, hs))
        short += [h for h in hs if len(h) == m]
    allh = [h for hs in by.values() for h in hs]
    uniq = list({json.dumps(h): h for h in short}.values())
    chk.note("designs of copying", told={d: len(h) for d, h in by.items()}, shortest=len(uniq))
    items = []
    for n in NAMES + CONT:
        for _ in range(pick(1, 6)):
            items.append(("spec", n, int(rng.integers(2 ** 40))))
    items += [("spec", None, int(rng.integers(2 ** 40))) for _ in range(pick(120, 1500))]
    items += [("walk", None, int(rng.integers(2 ** 40))) for _ in range(pick(250, 4000))]

    def one(it):
        what, n, seed = it
        q = np.random.default_rng(seed)
        out = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for _ in range(4 if what == "spec" else 1):
                if n is not None:
                    mk1 = [lambda: pywt.DiscreteContinuousWavelet(n)]
                else:
                    mk1 = [maker(q) for _ in range(1 if what == "spec" else int(q.integers(1, 4)))]
                j = Objects(mk1)
                if what == "spec":
                    h = uniq[q.integers(len(uniq))] if q.random() < .7 else allh[q.integers(len(allh))]
                    evs = concrete(h, j.os[0], q)
                else:
                    evs = wander(q, j.os, int(q.integers(5, 14)))
                for e in evs:
                    j.do(e)
                out.append(dict(op="objects", made=j.made, steps=j.steps, text=[{k: str(v) for k, v in e.items() if k in ("e", "o", "a", "v", "how", "from", "raised")} for e in j.steps]))
        return out
    measured(chk, one, items, "wavelet objects", module="ObjectTrace")
    # to another process and back
    jobs, objs = [], []
    odd = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(pick(300, 2500)):
            q = np.random.default_rng([SEED, 24, k])
            w = pywt.DiscreteContinuousWavelet((NAMES + CONT)[k]) if k < len(NAMES + CONT) else maker(q)()
            j = Objects([lambda: w])
            for e in wander(q, j.os, int(q.integers(0, 7))):
                if e["e"] == "set" and e["o"] == 1:
                    j.do(e)
            objs.append((j, HOWS[k % 6]))
            jobs.append(pickle.dumps(w, k % 6))
        back = elsewhere(jobs)

    def two(k):
        j, how = objs[k]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fx, rp, beh, blob = back[k]
            if isinstance(fx, Exception):
                raise MachineryError(str(fx))
            n = next((i for i, u in enumerate(j.pool) if hist.same(beh, u)), len(j.pool))
            odd = j.odd
            there = dict(fixed=fx, rep={a: v if a in FLAGS else eighths(v, odd) for a, v in rp.items()}, beh=n)
            w2 = pickle.loads(blob)
            first = [j.look(j.os[0])]
            steps = j.steps + [{"e": "copy", "from": [1], "got": first + [there]}, {"e": "copy", "from": [2], "got": first + [there, j.look(w2)]}]
        return [dict(op="objects", made=j.made, steps=steps)]
    measured(chk, two, list(range(len(jobs))), "through another process", module="ObjectTrace")


def elsewhere(blobs):
    d = scratch()
    (d / "in.pkl").write_bytes(pickle.dumps(blobs))
    p = subprocess.run([sys.executable, "-B", str(VERIF / "vf" / "p_copy.py"), str(d / "in.pkl"), str(d / "out.pkl")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode:
        raise MachineryError("the other process: " + p.stdout.decode("utf-8", "replace")[-2000:])
    return pickle.loads((d / "out.pkl").read_bytes())


# ------------------------------------------------------------------ trees
def info(t):
    w = t.wavelet
    return hashlib.sha1(repr([type(t).__name__, t.axes if not isinstance(t.axes, (list, np.ndarray)) else list(t.axes), str(t.mode), t.maxlevel, fixed(w), report(w, {}), getattr(t, "ndim", None),
                              t.path, t.level, t.parent is None]).encode()).hexdigest()[:12]


def climbed(n):
    while n.parent is not None:
        n = n.parent
    return n


def forest(h):
    rng = np.random.default_rng(h["seed"])
    parts = p_wp.parts_of(h)
    plen = len(parts[0])
    rec = dict(kind=h["kind"], bank=h["bank"].json(), mode=h["mode"], axes=h["axes"], maxl=h["maxl"], root=inject(h["root"], "re"), steps=[])
    h2 = dict(h)
    if h.get("negaxes"):
        h2["axes"] = [a - len(h["shape"]) if rng.random() < .5 else a for a in h["axes"]]
    nt = len(h["axes"])
    grow = max(growth([h["bank"]] * nt, [h["mode"]] * nt, [h["shape"][a] for a in h["axes"]], h["depth"]), (2 * h["bank"].gain("r")) ** (nt * h["depth"]), 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            wp, keep = p_wp.make(h2)
            rec["made"] = dict(maxl=wp.maxlevel)
        except Exception as e:
            rec["made"] = dict(err=type(e).__name__ + str(e)[:100])
            return rec
        if wp.maxlevel != h["depth"]:
            return rec
        if rng.random() < .3:
            wp.wavelet.orthogonal = True
        rec["info"] = info(wp)
        trees = [wp]
        del wp
        script = list(h.get("script", []))
        n = h["nsteps"]
        while n > 0 or script:
            n -= 1
            live = [k for k, t in enumerate(trees) if t is not None]
            if script:
                k, st = script.pop(0)(h, rng, trees)
            else:
                k = live[rng.integers(len(live))]
                r = rng.random()
                ex = p_wp.existing(trees[k], parts)
                b = ex[rng.integers(len(ex))]
                if r < .25 and len(trees) < 5:
                    how = [q for q in HOWS if q != "copy"]
                    st = dict(op="dup", base=b if rng.random() < .5 else [], how=how[rng.integers(len(how))])
                elif r < .3 and len(live) > 1:
                    st = dict(op="drop", base=[])
                elif r < .42:
                    d = p_wp.node_at(trees[k], b).data
                    if d is None or not np.asarray(d).flags.writeable or (k == 0 and b == []):
                        continue
                    st = dict(op="poke", base=b)
                else:
                    st = p_wp.choose(h, rng, trees[k], parts, plen, "edit")
                    if st is not None and isinstance(st.get("obj"), pywt._wavelet_packets.BaseNode):
                        continue
            if st is None or p_wp.node_at(trees[k], st["base"]) is None:
                continue
            one = {a: v for a, v in st.items() if a not in ("obj", "tup", "default")}
            one["tree"] = k + 1
            try:
                if st["op"] == "dup":
                    src = p_wp.node_at(trees[k], st["base"])
                    if h.get("withothers"):
                        got = duplicate([trees[k], src, h2["mode"]], st["how"])
                        if climbed(got[1]) is not got[0]:
                            raise NotInt("a tree and its node pickled together are not together any more")
                        got = got[1]
                    else:
                        got = duplicate(src, st["how"])
                    if p_wp.path(got, plen) != st["base"]:
                        raise NotInt("copied node has another path")
                    t = climbed(got)
                    if p_wp.node_at(t, st["base"]) is not got:
                        raise NotInt("copied node is not in its tree")
                    trees.append(t)
                    out = []
                    del got, src, t
                elif st["op"] == "drop":
                    trees[k] = None
                    gc.collect()
                    out = []
                elif st["op"] == "poke":
                    a = p_wp.node_at(trees[k], st["base"]).data
                    a *= -1
                    out = []
                    del a
                else:
                    out = p_wp.do(trees[k], st, h, plen)
                one["res"] = dict(out=out, trees=[dict(gone=True) if t is None else dict(dump=p_wp.dump(t, parts, plen), info=info(t)) for t in trees])
            except NotInt as e:
                one["res"] = dict(bad=str(e))
            except MachineryError:
                raise
            except Exception as e:
                one["res"] = dict(err=type(e).__name__ + ": " + str(e)[:150])
            rec["steps"].append(one)
            if "trees" not in one["res"]:
                break
            if max((abs(x) for t in one["res"]["trees"] for _, a in t.get("dump", []) for x in a["d"]), default=0) * grow >= 2 ** 30:
                break
    return rec


def fscripts(h, kind_):
    """the telling histories of MC_Forest, on a real tree: first and second part, and a node below"""
    P = {"1": ["a", "d"], "2": ["v", "d"], "n": ["ad", "da"]}[kind_]
    pa = {1: [], 2: [P[0]], 3: [P[1]], 4: [P[0], P[1]]}
    out = []
    for e in h:
        def f(e=e):
            k, p = e["tree"] - 1, pa[e.get("node", 1)]

            def g(hh, rng, trees):
                o = e["op"]
                if o == "dup":
                    hows = [q for q in HOWS if q != "copy"]
                    return k, dict(op="dup", base=p, how=hows[rng.integers(len(hows))])
                if o == "drop":
                    return k, dict(op="drop", base=[])
                if o == "poke":
                    return k, dict(op="poke", base=p)
                if o == "set":
                    v = ints(rng, p_wp.shape_at(hh, p), 3)
                    return k, dict(op="set", base=[], path=p, v=inject(v, "re"), obj=v.astype(float))
                if o == "del":
                    return k, dict(op="del", base=[], path=p)
                if o == "get":
                    return k, dict(op="get", base=[], path=p)
                return k, dict(op="rec", base=[], update=bool(e["update"]))
            return g
        out.append(f())
    return out


def trees_part(chk, rng):
    r = mc.forest_model(chk)
    told = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"FOR ')]
    by = {}
    for t in told:
        by.setdefault(t["design"], []).append(t["history"])
    chk.note("designs of copied trees", told={d: len(h) for d, h in by.items()})
    hs = []
    for d, l in sorted(by.items()):
        m = min(map(len, l))
        sh = [h for h in l if len(h) == m]
        for h in [sh[i] for i in rng.permutation(len(sh))[:pick(25, 200)]] + [l[i] for i in rng.permutation(len(l))[:pick(15, 300)]]:
            kind_ = "112n"[rng.integers(4)]
            while True:
                x = p_wp.history(rng, "edit", kind=kind_)
                if x is not None and x["root"] is not None and x["depth"] >= 2 and x["kind"] == kind_ and (kind_ != "n" or len(x["axes"]) == 2):
                    break
            x.update(nsteps=0, script=fscripts(h, kind_), var=dict(dt="f8", lay="C"))
            hs.append(x)
    n = 0
    while n < pick(500, 4000):
        x = p_wp.history(rng, "edit")
        if x is not None and x["root"] is not None:
            x["nsteps"] += 6
            x["withothers"] = bool(rng.random() < .3)
            hs.append(x)
            n += 1
    res = supervised(forest, hs, limit=60)
    lines, own, ops = [], [], {}
    for i, s, v in res:
        if s == "ok":
            v["id"] = len(lines)
            lines.append(json.dumps(v))
            own.append(i)
            for st in v["steps"]:
                ops[st["op"]] = ops.get(st["op"], 0) + 1
        else:
            chk.violate(f"forest:{s}:{str(v).strip().splitlines()[-1] if v else ''}"[:200], str(v)[-400:], dict(seed=hs[i]["seed"]))
    p = scratch() / "forest.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc("ForestTrace", env=dict(TRACE=p), timeout=800)
    judged(chk, r, len(lines) + 16, "trees and their copies")
    chk.add_tlc("trees and their copies", r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note("trees and their copies", histories=len(lines), steps=ops)
    bad = 0
    for m in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        bad += 1
        rec = json.loads(lines[int(m.group(1))])
        cl = sorted(re.findall(r'"([^"]+)"', m.group(2)))
        at = int(cl[0].split(":")[0])
        desc = [f"{s['op']}#{s['tree']}@{''.join(s['base'])}+{''.join(s.get('path', s.get('part', [])))}{s.get('how', '')}" for s in rec["steps"][:at]]
        chk.violate(f"forest{rec['kind']}:{','.join(c.split(':')[1] for c in cl)}:{';'.join(desc)}"[:300], f"{cl} {desc} {str(rec['steps'][at - 1]['res'] if at else rec['made'])[:300]}",
                    dict(record=rec))
    if r.out.count('"BAD"') != bad:
        raise MachineryError("could not parse TLC verdicts: " + r.out[:3000])
    # built-in wavelets, every dtype: the copy and its original answer the same calls with the same bytes
    items = [(n, "12n"[rng.integers(3)], MODES[rng.integers(9)], int(rng.integers(4)), int(rng.integers(2 ** 40))) for n in NAMES for _ in range(pick(1, 4))]

    def real(it):
        n, kd, m, dti, seed = it
        q = np.random.default_rng(seed)
        F = pywt.Wavelet(n).dec_len
        nt = 1 if kd == "1" else 2
        rank = int(q.integers(nt, 4))
        axes = tuple(int(v) for v in q.permutation(rank)[:nt])
        shape = [int(q.integers(1, 4)) for _ in range(rank)]
        for a in axes:
            shape[a] = int(q.integers(max(2, F // 2), F + 8))
        if m in ("reflect", "antireflect"):
            m = "symmetric"
        x = rsig(q, tuple(shape), DTS[dti])
        cls = {"1": pywt.WaveletPacket, "2": pywt.WaveletPacket2D, "n": pywt.WaveletPacketND}[kd]
        t = cls(x, n, m, 2, **(dict(axis=axes[0]) if kd == "1" else dict(axes=axes)))
        parts = p_wp.parts_of(dict(kind=kd, axes=axes))
        paths = ["".join(p_wp.rpath(q, parts, 1, 2)) for _ in range(4)]
        for p in paths[:int(q.integers(0, 4))]:
            t[p]
        if q.random() < .3:
            t[paths[0]].data = t[paths[0]].data * 2
        if q.random() < .2 and len(paths[1]) > len(parts[0]):
            t[paths[1]]
            del t[paths[1]]
        how = [z for z in HOWS if z != "copy"][q.integers(len(HOWS) - 1)]
        c = duplicate(t, how)
        out = []
        eq = lambda a, b: a.dtype == b.dtype and a.shape == b.shape and hist.same([a], [b])
        for p in paths:
            out.append(dict(op="exact", eq=bool(eq(t[p].data, c[p].data) and not np.shares_memory(t[p].data, c[p].data)), what=f"{how} {p}"))
        out.append(dict(op="exact", eq=bool(eq(t.reconstruct(update=False), c.reconstruct(update=False))), what=how + " reconstruct"))
        out.append(dict(op="exact", eq=[a.path for a in t.get_leaf_nodes()] == [a.path for a in c.get_leaf_nodes()] and info(t) == info(c), what=how + " leaves"))
        return out
    measured(chk, real, items, "copied trees of built-in wavelets")

    # fully separable results travel as well
    def fsr(seed):
        q = np.random.default_rng(seed)
        rank = int(q.integers(1, 4))
        shape = tuple(int(v) for v in q.integers(4, 20 if rank == 1 else 9, rank))
        k = int(q.integers(1, rank + 1))
        axes = tuple(int(v) for v in q.permutation(rank)[:k])
        ws = [NAMES[q.integers(len(NAMES))] for _ in axes]
        f = pywt.fswavedecn(rsig(q, shape, DTS[q.integers(4)]), ws, ["symmetric", "zero", "periodization"][q.integers(3)], [int(v) for v in q.integers(0, 3, k)], axes)
        g = duplicate(f, [z for z in HOWS if z != "copy"][q.integers(len(HOWS) - 1)])
        ok = (hist.same([f.coeffs], [g.coeffs]) and f.coeffs.dtype == g.coeffs.dtype and f.coeff_slices == g.coeff_slices and tuple(f.axes) == tuple(g.axes) and list(f.modes) == list(g.modes) and
              [fixed(w) for w in f.wavelets] == [fixed(w) for w in g.wavelets] and f.levels == g.levels and hist.same([pywt.fswaverecn(f)], [pywt.fswaverecn(g)])
              and hist.same([f.approx], [g.approx]) and f.detail_keys() == g.detail_keys() and f.ndim == g.ndim and f.ndim_transform == g.ndim_transform)
        g.coeffs[...] = 3
        return dict(op="exact", eq=bool(ok and not np.shares_memory(f.coeffs, g.coeffs)))
    measured(chk, fsr, [int(v) for v in rng.integers(0, 2 ** 40, pick(60, 600))], "copied separable results")


@prop("C24")
def c24(chk):
    rng = rng_for(chk)
    objects_part(chk, rng)
    trees_part(chk, rng)


if __name__ == "__main__":
    import pathlib
    warnings.simplefilter("ignore")
    out = []
    for b in pickle.loads(pathlib.Path(sys.argv[1]).read_bytes()):
        w = pickle.loads(b)
        out.append((fixed(w), {a: 8 * int(getattr(w, a)) if a in FLAGS else getattr(w, a) for a in SET[kind(w)]}, behaviour(w), pickle.dumps(w)))
    pathlib.Path(sys.argv[2]).write_bytes(pickle.dumps(out))
