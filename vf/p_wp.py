"""C12, C13: wavelet packet trees as a state machine (spec/Packet.tla).

A history is generated here (which calls, in which order, on which nodes), executed on the real tree, and recorded
with what the caller observed and a dump of the whole tree after every step; TLC judges every step."""
import copy, pickle
from registry import prop
from gen import *
from p_dwt import rng_for, rsig, is_single, DTS, NAMES, WTOL, measured
import mc

PARTS = {"1": ["a", "d"], "2": ["a", "h", "v", "d"]}


def parts_of(h):
    return PARTS.get(h["kind"]) or ["".join(k) for k in itertools.product("ad", repeat=len(h["axes"]))]


def make(h):
    kw = {}
    if h["maxl"] >= 0:
        kw["maxlevel"] = h["maxl"]
    keep = []
    x = mk(h["root"], h["var"], keep) if h["root"] is not None else None
    w = h["bank"].wavelet()
    if not h.get("defmode"):
        kw["mode"] = h["mode"] if not h.get("intmode") else MODEINT[h["mode"]]
    if h["kind"] == "1":
        if not h.get("defaxes"):
            kw["axis"] = h["axes"][0]
        return pywt.WaveletPacket(x, w, **kw), keep
    if not h.get("defaxes"):
        kw["axes"] = tuple(h["axes"])
        if h["kind"] == "n" and len(h["axes"]) == 1 and h.get("axscalar"):
            kw["axes"] = h["axes"][0]
    return (pywt.WaveletPacket2D if h["kind"] == "2" else pywt.WaveletPacketND)(x, w, **kw), keep


def arr(v):
    if v is None:
        return dict(s=[], d=[])
    return to_arr(v, "re")


def path(node, plen):
    p = node.path
    t = [p[i:i + plen] for i in range(0, len(p), plen)]
    # the other ways of naming the same thing
    if list(node.path_tuple) != t or node.node_name != (t[-1] if t else "") or node.level != len(t):
        raise NotInt("inconsistent path attributes")
    return t


def dump(wp, parts, plen):
    out = []

    def go(n, p):
        if path(n, plen) != p:
            raise NotInt("node path differs from its position")
        out.append([p, arr(n.data)])
        for c in parts:
            s = n.get_subnode(c, decompose=False)
            if s is not None:
                if s.parent is not n:
                    raise NotInt("parent link")
                go(s, p + [c])
    go(wp, [])
    return out


def node_at(wp, base):
    n = wp
    for c in base:
        n = n.get_subnode(c, decompose=False)
        if n is None:
            return None
    return n


def do(wp, st, h, plen):
    n = node_at(wp, st["base"]) if st["op"] != "level" else wp
    o = st["op"]
    p = st.get("path")
    if p is not None:
        key = tuple(p) if st.get("tup") else "".join(p)
    if o == "get":
        m = n[key]
        return dict(v=arr(m.data), p=path(m, plen), maxl=m.maxlevel)
    if o == "set":
        v = st["obj"]
        n[key] = v
        return []
    if o == "del":
        del n["".join(p)]
        return []
    if o == "decompose":
        r = list(n.decompose())
        return [arr(m.data) for m in r]
    if o == "sub":
        m = n.get_subnode(st["part"], st["create"])
        return dict(p=[], none=True) if m is None else dict(p=path(m, plen), none=False)
    if o == "rec":
        if st.get("default"):
            return arr(n.reconstruct())
        return arr(n.reconstruct(update=st["update"]))
    if o == "level":
        kw = dict(decompose=st["create"])
        if st.get("default") and st["create"]:
            kw = {}
        if h["kind"] != "n":
            kw["order"] = st["order"]
        r = wp.get_level(st["level"], **kw)
        if not isinstance(r, list) or any(isinstance(m, list) != (h["kind"] == "2" and st["order"] == "freq") for m in r):
            raise NotInt("structure of the listing")
        if r and isinstance(r[0], list):
            if not all(node_at(wp, path(m, plen)) is m for row in r for m in row):
                raise NotInt("listed node is not in the tree")
            return [[path(m, plen) for m in row] for row in r]
        if not all(node_at(wp, path(m, plen)) is m for m in r):
            raise NotInt("listed node is not in the tree")
        return [path(m, plen) for m in r]
    if o == "walk":
        seen = []

        def f(m, extra, kwd=None):
            assert extra == 5 and kwd == 7
            seen.append(path(m, plen))
            return m.level < st["stop"]
        if st["post"]:
            n.walk_depth(f, args=(5,), kwargs=dict(kwd=7), decompose=st["create"])
        else:
            n.walk(f, (5,), dict(kwd=7), st["create"])
        return seen
    if o == "leaves":
        r = n.get_leaf_nodes(st["create"]) if st["create"] or not st.get("default") else n.get_leaf_nodes()
        if not all(node_at(wp, path(m, plen)) is m for m in r):
            raise NotInt("listed node is not in the tree")
        return [path(m, plen) for m in r]
    raise MachineryError(o)


def steps_of(h, rng, wp, parts, plen):
    """generates the next steps while executing them; what exists is looked up in the real tree only to steer the choice"""
    maxl = h["depth"]
    n = h["nsteps"]
    focus = h["focus"]
    recs = []
    i = 0
    nt = len(h["axes"])
    grow = max(growth([h["bank"]] * nt, [h["mode"]] * nt, [h["shape"][a] for a in h["axes"]], maxl), (2 * h["bank"].gain("r")) ** (nt * maxl), 1)
    script = list(h.get("script", []))
    while i < n or script:
        i += 1
        st = script.pop(0)(h, rng, wp) if script else choose(h, rng, wp, parts, plen, focus, last=i == n)
        if st is None or node_at(wp, st["base"]) is None:
            continue
        rec = {k: v for k, v in st.items() if k not in ("obj", "tup", "default")}
        shadow = copy.deepcopy(st["obj"]) if isinstance(st.get("obj"), (list, np.ndarray)) else None
        try:
            out = do(wp, st, h, plen)
            rec["res"] = dict(out=out, dump=dump(wp, parts, plen))
            if shadow is not None and isinstance(shadow, np.ndarray) and not same_bytes(np.asarray(st["obj"]), shadow):
                rec["res"] = dict(bad="argument modified")
        except NotInt as e:
            rec["res"] = dict(bad=str(e))
        except MachineryError:
            raise
        except Exception as e:
            rec["res"] = dict(err=type(e).__name__ + ": " + str(e)[:150])
        recs.append(rec)
        if "dump" not in rec["res"]:
            break
        if max((abs(x) for _, a in rec["res"]["dump"] for x in a["d"]), default=0) * grow >= 2 ** 30:
            break           # the next result might leave TLC's integers
    return recs


def shape_at(h, p):
    """the size a node's data has by construction of the tree (documented lengths)"""
    s = list(h["shape"])
    F = h["bank"].F
    for a in h["axes"]:
        for _ in p:
            s[a] = dlen(s[a], F, h["mode"])
    return tuple(s)


def existing(wp, parts):
    out = []

    def go(n, p):
        out.append(p)
        for c in parts:
            s = n.get_subnode(c, decompose=False)
            if s is not None:
                go(s, p + [c])
    go(wp, [])
    return out


def rpath(rng, parts, lo, hi):
    return [parts[rng.integers(len(parts))] for _ in range(int(rng.integers(lo, hi + 1)))]


def choose(h, rng, wp, parts, plen, focus, last=False):
    D = h["depth"]
    ex = existing(wp, parts)
    base = [] if rng.random() < .6 else ex[rng.integers(len(ex))]
    empty = h["root"] is None
    r = rng.random()
    bad = last and rng.random() < .35
    if bad:
        k = rng.integers(6)
        if k == 0:
            return dict(op="get", base=[], path=rpath(rng, parts, D + 1, D + 2))
        if k == 1:
            return dict(op="get", base=[], path=rpath(rng, parts, 0, D - 1) + ["x" * plen] if D else ["x" * plen])
        if k == 2 and h["kind"] != "n":
            return dict(op="level", base=[], level=D + 1, order="natural", create=bool(rng.integers(2)))
        if k == 3:
            p = [q for q in ex if len(q) == D]
            if p:
                return dict(op="decompose", base=p[rng.integers(len(p))])
        if k == 4:
            p = rpath(rng, parts, D + 1, D + 1)
            v = ints(rng, shape_at(h, p), 3)
            return dict(op="set", base=[], path=p, v=inject(v, "re"), obj=v)
        return dict(op="sub", base=[], part="x" * plen, create=True)
    if focus == "read":
        w = dict(get=4, level=2, walk=1.5, leaves=1.5, sub=1, rec=.7, decompose=.3)
    else:
        w = dict(get=2.5, set=2.5, rec=2.5, level=.6, walk=.6, leaves=.8, sub=.6, decompose=.6)
        w["del"] = 2
    ks = list(w)
    o = ks[rng.choice(len(ks), p=np.array(list(w.values())) / sum(w.values()))]
    if o == "get":
        if empty:
            p = ex[rng.integers(len(ex))]
            return dict(op="get", base=[], path=p, tup=bool(rng.integers(2)))
        p = rpath(rng, parts, 0, D - len(base))
        return dict(op="get", base=base, path=p, tup=bool(rng.integers(2)))
    if o == "set":
        p = rpath(rng, parts, 0 if rng.random() < .2 else 1, D - len(base)) if D > len(base) else []
        full = base + p
        if empty and not full:
            return None
        src = None
        if rng.random() < .25:       # another node as the value
            q = [q for q in ex if len(q) == len(full) and node_at(wp, q).data is not None]
            if q:
                src = node_at(wp, q[rng.integers(len(q))])
        if src is not None:
            return dict(op="set", base=base, path=p, v=arr(src.data), obj=src)
        shape = shape_at(h, full)
        if rng.random() < .25:       # data of another size: it is kept, trimmed to and decomposed as such
            a = h["axes"][rng.integers(len(h["axes"]))]
            grow = h["mode"] in ("reflect", "antireflect", "smooth") or rng.random() < .5
            n = shape[a] + int(rng.integers(1, 4)) if grow else max(shape[a] - int(rng.integers(1, 4)), h["bank"].F // 2, 1)
            shape = shape[:a] + (n,) + shape[a + 1:]
        v = ints(rng, shape, 3)
        k = rng.integers(5)
        obj = [v.astype(float), v.tolist(), v.astype(np.float32), v, np.asfortranarray(v.astype(float))][k]
        if not full and k in (2,):
            obj = v.astype(float)
        return dict(op="set", base=base, path=p, v=inject(v, "re"), obj=obj)
    if o == "del":
        if empty or rng.random() < .8:
            q = [q for q in ex if q]
            if not q:
                return None
            q = q[rng.integers(len(q))]
            k = int(rng.integers(0, len(q)))
            return dict(op="del", base=q[:k], path=q[k:])
        if D == 0:
            return None
        return dict(op="del", base=[], path=rpath(rng, parts, 0, D))
    if o == "decompose":
        q = [q for q in ex if len(q) < D]
        return dict(op="decompose", base=q[rng.integers(len(q))]) if q else None
    if o == "sub":
        q = [q for q in ex if len(q) < D]
        return dict(op="sub", base=q[rng.integers(len(q))], part=parts[rng.integers(len(parts))], create=bool(rng.integers(2))) if q else None
    if o == "rec":
        b = [] if rng.random() < .6 else ex[rng.integers(len(ex))]
        if rng.random() < .4:
            return dict(op="rec", base=b, update=(b == []), default=True)
        return dict(op="rec", base=b, update=bool(rng.integers(2)))
    if o == "level":
        if len(parts) ** D > 64 and rng.random() < .7:
            return None
        return dict(op="level", base=[], level=int(rng.integers(0, D + 1)), order=["natural", "freq"][rng.integers(2) if h["kind"] != "n" else 0],
                    create=bool(rng.random() < .6), default=bool(rng.integers(2)))
    if o == "walk":
        return dict(op="walk", base=base, stop=D if (post := bool(rng.integers(2))) else int(rng.integers(0, D + 1)), create=bool(rng.random() < .4), post=post)
    if o == "leaves":
        return dict(op="leaves", base=base, create=bool(rng.random() < .4), default=bool(rng.integers(2)))


def history(rng, focus, kind=None, deep=False, **kw):
    kind = kind or ["1", "1", "2", "n"][rng.integers(4)]
    rank = {"1": int(rng.choice([1, 1, 1, 2, 3])), "2": int(rng.choice([2, 2, 3])), "n": int(rng.choice([1, 2, 2, 3]))}[kind]
    nt = {"1": 1, "2": 2, "n": int(rng.integers(1, rank + 1))}[kind]
    axes = rng.permutation(rank)[:nt].tolist()
    depth = {1: 3, 2: 2, 3: 1}[nt]
    if rng.random() < .3:
        depth -= 1
    if deep:
        depth = {1: int(rng.integers(4, 7)), 2: 3, 3: 2}[nt]
    mode = MODES[rng.integers(9)]
    bank = rand_bank(rng, int(rng.choice([2, 2, 4, 4, 6])), 1) if rng.random() < .7 else PRB[[0, 0, 7][rng.integers(3)]]
    lo, hi = {1: (2, 17), 2: (2, 8), 3: (2, 4)}[nt]
    shape = [int(rng.integers(lo, hi + 1)) if a in axes else int(rng.integers(1, 4)) for a in range(rank)]
    if mode in ("reflect", "antireflect", "smooth") and bank.F > 4:
        mode = "symmetric"
    if mode in ("reflect", "antireflect"):
        for a in axes:       # the whole-sample modes need two samples at every level
            n = shape[a]
            for _ in range(depth):
                if n < 2:
                    mode = "zero"
                n = dlen(n, bank.F, mode)
    g = growth([bank] * nt, [mode] * nt, [shape[a] for a in axes], depth) * (2 * bank.gain("r")) ** (nt * depth)
    empty = rng.random() < (.12 if focus == "edit" else .05)
    maxl = depth if empty or rng.random() < .6 else -1
    h = dict(kind=kind, axes=axes, mode=mode, bank=bank, shape=shape, maxl=maxl, nsteps=int(rng.integers(3, 11)),
             focus=focus, depth=depth, root=None if empty else ints(rng, tuple(shape), 3),
             var=dict(dt=["f8", "f8", "i4", "g"][rng.integers(4)] if focus == "read" else "f8", lay=["C", "F", "neg", "ro", "T"][rng.integers(5)]),
             seed=int(rng.integers(1 << 30)), intmode=bool(rng.random() < .2))
    if deep:
        h["maxl"] = depth
        h["nsteps"] = int(rng.integers(3, 7))
    elif maxl < 0:
        h["depth"] = min(maxlev(shape[a], bank.F) for a in axes)
        if h["depth"] > 3 or len(parts_of(h)) ** h["depth"] > 70:
            h["maxl"] = h["depth"] = depth
    if kind == "1" and axes == [rank - 1] or kind == "2" and axes == [rank - 2, rank - 1] or kind == "n" and axes == list(range(rank)) and not empty:
        h["defaxes"] = bool(rng.integers(2))
    elif not empty and kind != "1" and rng.random() < .4:
        h["negaxes"] = True
    h["axscalar"] = bool(rng.integers(2))
    if mode == ("symmetric" if kind == "1" else "smooth"):
        h["defmode"] = True
    if g * 3 > 2 ** 28:
        return None
    h.update(kw)
    return h


def run_history(h):
    rng = np.random.default_rng(h["seed"])
    parts = parts_of(h)
    plen = len(parts[0])
    rec = dict(kind=h["kind"], bank=h["bank"].json(), mode=h["mode"], axes=h["axes"], maxl=h["maxl"], root=inject(h["root"], "re"))
    h2 = dict(h)
    if h.get("negaxes"):
        h2["axes"] = [a - len(h["shape"]) if rng.random() < .5 else a for a in h["axes"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            wp, keep = make(h2)
            ml = wp.maxlevel
            rec["made"] = dict(maxl=ml)
        except Exception as e:
            rec["made"] = dict(err=type(e).__name__ + str(e)[:100])
            rec["steps"] = []
            return rec
        rec["steps"] = steps_of(h, rng, wp, parts, plen) if ml == h["depth"] else []
        if not unchanged(keep):
            rec["steps"].append(dict(op="get", base=[], path=[], res=dict(bad="root array modified")))
    return rec


def judge_histories(chk, hs, name, only=None):
    res = supervised(run_history, hs, limit=60)
    lines, owner = [], []
    ops = {}
    for i, s, v in res:
        if s == "ok":
            v["id"] = len(lines)
            lines.append(json.dumps(v))
            owner.append(i)
            for st in v["steps"]:
                k = st["op"] + (":err" if "err" in st["res"] else "")
                ops[k] = ops.get(k, 0) + 1
        elif s == "exc":
            raise MachineryError(v)
        else:
            chk.violate(f"{name}:{s}", s, dict(h={k: str(v) for k, v in hs[i].items()}))
    p = scratch() / "packet.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc("PacketTrace", env=dict(TRACE=p), timeout=800)
    judged(chk, r, len(lines) + 16, name)
    chk.add_tlc(name, r)
    bad = 0
    for m in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        bad += 1
        k = int(m.group(1))
        cl = sorted(re.findall(r'"([^"]+)"', m.group(2)))
        rec = json.loads(lines[k])
        h = hs[owner[k]]
        st = rec["steps"][int(cl[0].split(":")[0]) - 1] if not cl[0].startswith("0") else {}
        desc = [f"{s['op']}@{''.join(s['base'])}+{''.join(s.get('path', s.get('part', [])))}" for s in rec["steps"]]
        chk.violate(f"wp{h['kind']}:{st.get('op')}:{','.join(c.split(':')[1] for c in cl)}:{h['mode']}:{h['shape']}:{h['axes']}:{';'.join(desc)}".replace(" ", ""),
                    f"{cl} kind={h['kind']} mode={h['mode']} axes={h['axes']} shape={h['shape']} maxl={h['maxl']} steps={desc} result={str(st.get('res'))[:200]}",
                    dict(record=rec, seed=h["seed"]))
    if r.out.count('"BAD"') != bad:
        raise MachineryError("could not parse TLC verdicts: " + r.out[:3000])
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note(name, histories=len(lines), steps=ops)
    if lines:
        t = json.loads(lines[len(lines) // 2])
        chk.sample(dict(part=name, history=[{k: v for k, v in s.items() if k != "res"} for s in t["steps"]]))
    return lines


# ------------------------------------------------------------------ enumerated short edit histories
def S(op, base=(), **kw):
    return lambda h, rng, wp: dict(op=op, base=list(base), **kw)


def scripts(rng, kind):
    """every order of a few edits around a missing/edited sibling, then reconstruction"""
    P = {"1": ["a", "d"], "2": ["a", "h", "v", "d"], "n": ["aa", "ad", "da", "dd"]}[kind]

    def setv(p):
        def f(h, rng, wp):
            v = ints(rng, shape_at(h, p), 3)
            return dict(op="set", base=[], path=list(p), v=inject(v, "re"), obj=v.astype(float))
        return f
    acts = [lambda p: S("get", path=[p]), lambda p: setv([p]), lambda p: S("del", path=[p]), lambda p: S("decompose"),
            lambda p: S("rec", update=True), lambda p: S("level", level=1, order="natural", create=True),
            lambda p: S("get", path=[p, P[0]]), lambda p: setv([p, P[-1]]), lambda p: S("del", path=[p, P[1]]),
            lambda p: S("rec", base=[p], update=True)]
    out = []
    for a, b, c in itertools.product(range(len(acts)), repeat=3):
        p, q = rng.permutation(P)[:2].tolist()
        sc = [acts[a](p), acts[b](q), acts[c](p), S("rec", update=False), S("leaves", create=False), S("get", path=[q]), S("rec", update=True)]
        if 9 in (a, b, c):      # needs the node
            sc = [S("get", path=[p]), S("get", path=[q])] + sc
        out.append(sc)
    return out


def resized(rng, kind):
    """a node below the root gets data of another size, is decomposed as such and comes back at the size it has now"""
    P = {"1": ["a", "d"], "2": ["a", "h", "v", "d"], "n": ["aa", "ad", "da", "dd"]}[kind]

    def resize(p, base=()):
        def f(h, rng, wp):
            shape = shape_at(h, list(base) + p)
            a = h["axes"][rng.integers(len(h["axes"]))]
            n = max(1, shape[a] + [-2, -1, 1, 2, 3][rng.integers(5)])
            v = ints(rng, shape[:a] + (n,) + shape[a + 1:], 3)
            return dict(op="set", base=list(base), path=list(p), v=inject(v, "re"), obj=v.astype(float))
        return f
    out = []
    for first, whole, upd, again in itertools.product(range(3), range(2), range(2), range(2)):
        p, c = P[rng.integers(len(P))], P[rng.integers(len(P))]
        sc = [[S("get", path=[p])], [S("get", path=[p, c])], []][first] + [resize([p])]
        if first == 1:
            sc += [S("del", path=[p, q]) for q in P]
        if again:
            sc += [resize([p])]
        sc += [S("decompose", base=[p])] if whole else [S("get", path=[p, c])]
        sc += [S("rec", base=[p], update=bool(upd)), S("get", path=[p])]
        out.append(sc)
    return out


def scripted(rng, kind, n, scripts=scripts):
    hs = []
    sc = scripts(rng, kind)
    for k in rng.permutation(len(sc))[:n].tolist():
        rank = {"1": 1, "2": 2, "n": 2}[kind]
        bank = [rand_bank(rng, 2, 1), rand_bank(rng, 4, 1), PRB[0]][rng.integers(3)]
        mode = ["zero", "symmetric", "periodic", "periodization", "constant"][rng.integers(5)]
        shape = [int(rng.integers(5, 10)) if kind == "1" else int(rng.integers(3, 6)) for _ in range(rank)]
        hs.append(dict(kind=kind, axes=list(range(rank)), mode=mode, bank=bank, shape=shape, maxl=2, depth=2, nsteps=0, focus="edit",
                       root=ints(rng, tuple(shape), 3), var=dict(dt="f8", lay="C"), seed=int(rng.integers(1 << 30)), script=sc[k]))
    return hs


def wp_real(chk, rng, what):
    """built-in wavelets: node data is the parent's transform; untouched trees reconstruct"""
    items = []
    for n in NAMES:
        for _ in range(pick(1, 4)):
            kind = "12n"[rng.integers(3)]
            items.append((n, kind, MODES[rng.integers(9)], int(rng.integers(4)), int(rng.integers(1 << 30))))

    def one(it):
        n, kind, m, dti, seed = it
        r = np.random.default_rng(seed)
        w = pywt.Wavelet(n)
        F = w.dec_len
        dt = DTS[dti]
        nt = {"1": 1, "2": 2, "n": 2}[kind]
        depth = 2 if kind != "1" else 3
        shape = tuple(int(v) for v in r.integers(max(2, F // 4), F + 9, nt)) if kind != "1" else (int(r.integers(max(2, F // 2), 3 * F + 6)),)
        axes = tuple(r.permutation(nt).tolist())
        if m in ("reflect", "antireflect"):
            m = "symmetric"
        x = rsig(r, shape, dt)
        out = []
        cls = {"1": pywt.WaveletPacket, "2": pywt.WaveletPacket2D, "n": pywt.WaveletPacketND}[kind]
        kw = dict(axis=axes[0]) if kind == "1" else dict(axes=axes)
        wp = cls(x, n if seed % 2 else w, m, maxlevel=depth, **kw)
        parts = parts_of(dict(kind=kind, axes=axes))
        if what == "data":
            todo = [[]]
            for lev in range(depth):
                p = rpath(r, parts, lev, lev)
                parent = wp["".join(p)]
                if kind == "1":
                    a, d = pywt.dwt(parent.data, w, m, axis=axes[0])
                    ref = dict(a=a, d=d)
                elif kind == "2":
                    a, (h, v, d) = pywt.dwt2(parent.data, w, m, axes=axes)
                    ref = dict(a=a, h=h, v=v, d=d)
                else:
                    ref = pywt.dwtn(parent.data, w, m, axes=axes)
                fresh = cls(x, w, m, maxlevel=depth, **kw)
                for c in r.permutation(parts).tolist():
                    out.append(dict(op="exact", eq=bool(np.array_equal(wp["".join(p + [c])].data, ref[c]) and wp["".join(p + [c])].data.dtype == ref[c].dtype
                                                        and np.array_equal(fresh["".join(p + [c])].data, ref[c]))))
            return out
        # partial tree: only some nodes decomposed
        for _ in range(int(r.integers(0, 5))):
            wp["".join(rpath(r, parts, 1, depth))]
        wp["".join(rpath(r, parts, 1, depth))]
        y = wp.reconstruct(update=False)
        eps = 2.0 ** -23 if is_single(dt) else 2.0 ** -52
        A = (max(np.abs(w.dec_lo).sum(), np.abs(w.dec_hi).sum()) * (np.abs(w.rec_lo).sum() + np.abs(w.rec_hi).sum())) ** nt
        g = 1.0
        s = list(shape)
        for _ in range(depth):
            g *= np.prod([extgrow(m, N, F) for N in s])
            s = [dlen(N, F, m) for N in s]
        A = A ** depth * g
        unit = eps * (F + 4) * A * max(float(np.abs(x).max()), 1e-3) + WTOL.get(n, 0) * 2 * depth * A * float(np.abs(x).max())
        err = float(np.abs(y - x).max()) if y.shape == x.shape else float("inf")
        return dict(op="same", M=list(y.shape), N=list(x.shape), err=int(min(1e6, np.ceil(err / unit * 100))) if np.isfinite(err) else 10 ** 6,
                    odt=str(y.dtype), idt=str(np.dtype(dt)))
    measured(chk, one, items, "built-in wavelets: " + what)


@prop("C12")
def c12(chk):
    mc.packet_model(chk)
    rng = rng_for(chk)
    hs = [history(rng, "read") for _ in range(pick(700, 4000))]
    # complete listings of whole levels in both orders
    for kind in "12":
        for D in range(0, pick(8, 10) if kind == "1" else pick(4, 6)):
            for order in ("natural", "freq"):
                for pre in range(3):
                    h = None
                    while h is None:
                        h = history(rng, "read", kind=kind, maxl=D, depth=D, nsteps=0)
                        if h is not None and h["root"] is None:
                            h = None
                    h["shape"] = [max(s, 6) for s in h["shape"]]
                    h["bank"], h["mode"] = PRB[0], "symmetric"
                    h.pop("defmode", None)
                    h["root"] = ints(rng, tuple(h["shape"]), 3)
                    parts = parts_of(h)
                    sc = [S("get", path=rpath(rng, parts, 0, D)) for _ in range(pre)]
                    if pre == 1 and D:
                        sc.append(S("del", path=rpath(rng, parts, 1, D)))
                        sc.append(S("level", level=D, order=order, create=False))
                    sc += [S("level", level=D, order=order, create=True), S("walk", stop=D, create=False, post=bool(pre % 2))]
                    h["script"] = sc
                    hs.append(h)
    with thin():
        hs += [history(rng, "read", deep=True) for _ in range(pick(50, 300))]
    judge_histories(chk, [h for h in hs if h], "reading histories")
    wp_real(chk, rng, "data")
    defaults(chk, rng)
    # expanded 2-D names
    items = [0]

    def names(_):
        out = []
        wp = pywt.WaveletPacket2D(np.arange(64.).reshape(8, 8), "haar", "symmetric")
        tab = dict(a="ll", h="hl", v="lh", d="hh")
        for k in range(4):
            for p in itertools.product("ahvd", repeat=k):
                want = ("".join(tab[c][0] for c in p), "".join(tab[c][1] for c in p))
                out.append(dict(op="exact", eq=wp.expand_2d_path("".join(p)) == want))
        return out
    measured(chk, names, items, "2-D path expansion")


def defaults(chk, rng):
    """maximum level of trees that only know it from the data of some node"""
    items = []
    for _ in range(pick(60, 300)):
        kind = "12n"[rng.integers(3)]
        rank = {"1": int(rng.integers(1, 3)), "2": int(rng.integers(2, 4)), "n": int(rng.integers(1, 4))}[kind]
        nt = {"1": 1, "2": 2, "n": int(rng.integers(1, rank + 1))}[kind]
        items.append((kind, [int(a) - rank * int(rng.integers(2)) for a in rng.permutation(rank)[:nt]], [int(v) for v in rng.integers(1, 60, rank)], int(rng.choice([2, 4, 6, 8])), int(rng.integers(0, 3)), int(rng.integers(1 << 30))))

    def one(it):
        kind, axes, shape, F, lev, seed = it
        w = pywt.Wavelet("c", filter_bank=[[1.0] * F] * 4)
        cls = {"1": pywt.WaveletPacket, "2": pywt.WaveletPacket2D, "n": pywt.WaveletPacketND}[kind]
        kw = dict(axis=axes[0]) if kind == "1" else dict(axes=tuple(axes))
        wp = cls(None, w, "symmetric", **kw)
        part = {"1": "d", "2": "h", "n": "a" * len(axes)}[kind]
        none0 = wp.maxlevel is None
        wp[part * lev if lev else ""] = np.ones(shape)
        return dict(op="maxlevel", shape=[shape[a] for a in axes], F=F, level=lev, n=int(wp.maxlevel), none=none0)
    measured(chk, one, items, "maximum level from node data")


@prop("C13")
def c13(chk):
    mc.packet_model(chk)
    rng = rng_for(chk)
    hs = [history(rng, "edit") for _ in range(pick(900, 6000))]
    for kind in "12n":
        hs += scripted(rng, kind, pick({"1": 400, "2": 150, "n": 100}[kind], 1000))
        for _ in range(pick(3, 20)):
            hs += scripted(rng, kind, 100, resized)
    with thin():
        hs += [history(rng, "edit", deep=True) for _ in range(pick(60, 400))]
    judge_histories(chk, [h for h in hs if h], "editing histories")
    wp_real(chk, rng, "round trip")
