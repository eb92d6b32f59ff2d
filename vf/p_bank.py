"""C15, C16: filter banks."""
from registry import prop
from gen import *
from p_dwt import rng_for
from fractions import Fraction
import mc


def tap(v):
    v = float(v)
    if not math.isfinite(v) or abs(v) >= 7:
        raise NotInt(f"tap {v}")
    m = int(Fraction(abs(v)) * (1 << 110))
    return dict(s=(v > 0) - (v < 0), m=float.hex(abs(v)), l=[(m >> (10 * k)) & 1023 for k in range(12)])


def hx(f):
    return [float.hex(float(v) + 0.0) for v in f]


def ulps(f):
    """single precision values as integers in the order of the values; neighbours differ by one"""
    b = np.asarray(f, np.float32).view(np.int32).astype(np.int64)
    return [int(v) if v >= 0 else -int(v + 2 ** 31) for v in b]


def fbits(w):
    return [hx(f) for f in (w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi)]


def attrs(w, name):
    return dict(fam=w.short_family_name, long=w.family_name, num=int(w.family_number), orth=bool(w.orthogonal), biorth=bool(w.biorthogonal),
                sym=w.symmetry, given=w.name)


def hundredths(v):
    if v is None:
        return -1
    h = v * 100
    return int(h) if h == int(h) else 10 ** 6


def judge_bank(chk, one, items, name):
    """record items, have spec/BankTrace.tla judge them"""
    import gzip
    tb = scratch() / "taps.json"
    tb.write_bytes(gzip.decompress((SPEC / "taps.json.gz").read_bytes()))

    def safe(it):
        try:
            return one(it)
        except Exception as e:
            return dict(op=it[0], bad=f"{type(e).__name__}: {e}"[:300])
    res = supervised(safe, items)
    lines = []
    for i, st, v in res:
        if st != "ok":
            v = dict(op=items[i][0], bad=st)
        lines.append(json.dumps(dict(v, id=i)))
    p = scratch() / "bank.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc("BankTrace", env=dict(TRACE=p, TAPS=tb), timeout=800)
    judged(chk, r, len(lines) + 16, name)
    chk.add_tlc(name, r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note(name, records=len(lines))
    chk.sample(dict(part=name, item=str(items[len(items) // 2]), record=lines[len(lines) // 2][:600]))
    for mm in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        it = items[int(mm.group(1))]
        chk.violate(f"{name}:" + ":".join(map(str, it)), f"clauses {mm.group(2)}: {lines[int(mm.group(1))][:400]}", dict(part=name, item=it, record=json.loads(lines[int(mm.group(1))])))


def nm(v):
    return "None" if v is None else str(v)


@prop("C15")
def c15(chk):
    rng = rng_for(chk)
    names = pywt.wavelist()
    disc = pywt.wavelist(kind="discrete")
    fams = pywt.families()
    items = [("bank", n) for n in sorted(disc, key=lambda n: -pywt.Wavelet(n).dec_len)]
    items += [("cont", n) for n in names if n not in disc]
    items += [("list", "", k) for k in ("all", "discrete", "continuous")] + [("list", f, k) for f in fams for k in ("all", "discrete", "continuous")]
    items += [("families", True), ("families", False), ("families", None)]
    for n in disc:
        items += [("alias", n, n.upper()), ("alias", n, n.capitalize()), ("alias", n, "".join(c.upper() if rng.random() < .5 else c for c in n)), ("single", n)]
    items += [("alias", "haar", "db1"), ("alias", "db1", "Haar"), ("alias", "bior1.1", "db1") if False else ("alias", "db1", "haar")]
    items += [("aliasc", n, n.upper()) for n in names if n not in disc]
    items += [("exchange", n) for n in disc if n.startswith("bior")]

    def one(it):
        k = it[0]
        if k == "bank":
            w = pywt.Wavelet(it[1])
            f = [w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi]
            return dict(attrs(w, it[1]), op=k, name=it[1], f=[[tap(v) for v in x] for x in f], q=[[round(v * 2 ** 28) for v in x] for x in f],
                        dlen=w.dec_len, rlen=w.rec_len, len=len(w), psi=nm(w.vanishing_moments_psi), phi=nm(w.vanishing_moments_phi))
        if k == "cont":
            w = pywt.ContinuousWavelet(it[1])
            return dict(attrs(w, it[1]), op=k, name=it[1], lo=hundredths(w.lower_bound), hi=hundredths(w.upper_bound), cplx=bool(w.complex_cwt),
                        fc=hundredths(w.center_frequency), fb=hundredths(w.bandwidth_frequency), ord=-1 if w.fbsp_order is None else int(w.fbsp_order))
        if k == "list":
            return dict(op=k, family=it[1], kind=it[2], names=list(pywt.wavelist(it[1] or None, it[2])))
        if k == "families":
            return dict(op=k, short=it[1] is not False, names=list(pywt.families() if it[1] is None else pywt.families(short=it[1])))
        if k == "alias":
            a, b = pywt.Wavelet(it[1]), pywt.DiscreteContinuousWavelet(it[2])
            c = pywt.Wavelet(it[2])
            x = np.arange(50.) ** 2 % 17
            return dict(op=k, a=[fbits(a), fbits(a), hx(pywt.dwt(x, it[1])[1])], b=[fbits(b), fbits(c), hx(pywt.dwt(x, it[2])[1])])
        if k == "aliasc":
            a, b = pywt.ContinuousWavelet(it[1]), pywt.DiscreteContinuousWavelet(it[2])
            return dict(op="alias", a=[a.name, hx(np.abs(a.wavefun(4)[0]))], b=[b.name, hx(np.abs(b.wavefun(4)[0]))])
        if k == "exchange":
            b, r = pywt.Wavelet(it[1]), pywt.Wavelet("rbio" + it[1][4:])
            return dict(op=k, bf=[[tap(v) for v in x] for x in b.filter_bank], rf=[[tap(v) for v in x] for x in r.filter_bank])
        if k == "single":   # the filters that single precision transforms apply, read off impulse responses
            w = pywt.Wavelet(it[1])
            F = w.dec_len
            got = []
            for wh in "ad":
                # y[o] = sum_j h[j] x[2 o + 1 - j]
                h = np.zeros(F)
                for par in (0, 1):
                    x = np.zeros(4 * F, np.float32)
                    p0 = 2 * F + par
                    x[p0] = 1
                    y = pywt.downcoef(wh, x, w, "zero")
                    for o in range(len(y)):
                        j = 2 * o + 1 - p0
                        if 0 <= j < F:
                            h[j] = y[o]
                got.append(ulps(h))
            for wh in "ad":
                c = np.zeros(2 * F, np.float32)
                c[F] = 1
                y = pywt.upcoef(wh, c, w)      # y[k] = sum_n c[n] h[k - 2 n], full
                y = np.asarray(y)
                got.append(ulps(y[2 * F:2 * F + F]))
            return dict(op=k, got=got, want=[ulps(f) for f in w.filter_bank])
    judge_bank(chk, one, items, "built-in wavelets")


# --------------------------------------------------------------------------- C16
class HasBank:
    def __init__(self, b):
        self.filter_bank = b


class OldBank:
    def __init__(self, b):
        self.b = b

    def get_filters_coeffs(self):
        return self.b


ARRAYS = {"i8array": "i8", "i4array": "i4", "f4array": "f4", "f2array": "f2", "swaparray": ">i4", "oarray": "O"}
START = [dict(op="list", a=[], v=v, s="list") for v in ([1, 2], [2, 1], [3, 0], [4, -1])] + [dict(op="bank", a=[1, 2, 3, 4], v=[], s="list")]


def run_custom(h):
    """replay one history of lists, banks and wavelets; record what is observed after every step"""
    cells = []

    def content(c):
        o = cells[c]
        if isinstance(o, pywt.Wavelet):
            return [[conv1(v) for v in f] for f in o.filter_bank] + [[int(o.orthogonal), int(o.biorthogonal)]]
        if kinds[c] == "list":
            return [[conv1(v) for v in o]]
        return []
    kinds = []

    def conv1(v):
        v = float(v)
        if v != int(v) or abs(v) > 2 ** 30:
            raise NotInt(f"value {v}")
        return int(v)

    def add(k, *os):
        for o in os:
            kinds.append(k)
            cells.append(o)
    steps = []
    for st in h:
        a = [c - 1 for c in st["a"]]
        v, s = st["v"], st["s"]
        res = {}
        out = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = st["op"]
                if o == "list":
                    add("list", {"list": lambda: [float(x) for x in v], "ints": lambda: list(v), "f8": lambda: np.array(v, float), "f4": lambda: np.array(v, np.float32),
                                 "i8": lambda: np.array(v), "view": lambda: np.repeat(np.array(v, float), 3)[::3], "neg": lambda: np.array(v[::-1], float)[::-1],
                                 "swap": lambda: np.array(v, ">f8")}[s]())
                elif o == "bank":
                    b = [cells[i] for i in a]
                    add("bank", b if s == "list" else b if s == "poked" else list(b))
                elif o == "obj":
                    add("obj", (HasBank if s == "filter_bank" else OldBank)(cells[a[0]]))
                elif o == "wavelet":
                    src = cells[a[0]]
                    if s == "tuple" and isinstance(src, list):
                        src = tuple(src)
                    if s == "array" and isinstance(src, list) and len({len(q) for q in src}) == 1:
                        src = np.array([np.asarray(q) for q in src])
                    if s in ARRAYS and isinstance(src, list) and len({len(q) for q in src}) == 1:
                        src = np.array([[int(x) for x in q] for q in src], dtype=ARRAYS[s])
                    w = pywt.DiscreteContinuousWavelet(s, src) if s == "dc" else pywt.Wavelet(s, filter_bank=src)
                    if w.name != s:
                        raise NotInt("name " + w.name)
                    if (w.family_name, w.short_family_name, w.symmetry, w.number) != ("", "", "unknown", None):
                        raise NotInt("attributes")
                    add("w", w)
                elif o == "poke":
                    cells[a[0]][v[0] - 1] = v[1]
                elif o == "grow":
                    cells[a[0]].append(v[0])
                elif o == "swapin":
                    cells[a[0]][v[0] - 1] = cells[a[1]]
                elif o == "read":
                    add("list", getattr(cells[a[0]], ["dec_lo", "dec_hi", "rec_lo", "rec_hi"][v[0] - 1]))
                elif o in ("readbank", "inverse"):
                    w = cells[a[0]]
                    r = (w.filter_bank if s != "old" else w.get_filters_coeffs()) if o == "readbank" else (w.inverse_filter_bank if s != "old" else w.get_reverse_filters_coeffs())
                    if len(r) != 4:
                        raise NotInt("bank of %d" % len(r))
                    add("list", *r)
                    add("bank", list(r))
                elif o == "flag":
                    setattr(cells[a[0]], s, v[0])
                elif o == "qmf":
                    add("list", pywt.qmf(cells[a[0]]))
                elif o == "lens":
                    w = cells[a[0]]
                    out = [w.dec_len, w.rec_len, len(w)]
                elif o == "dwt":
                    x = np.array(v, np.float32 if st.get("single") else float)
                    y = pywt.dwt(x, cells[a[0]], s)
                    out = [to_arr(z, "re")["d"] for z in y]
                elif o == "idwt":
                    x = np.array(v, np.float32 if st.get("single") else float)
                    out = to_arr(pywt.idwt(x, None, cells[a[0]], s), "re")["d"]
            try:
                res = dict(dump=[content(c) for c in range(len(cells))])
            except NotInt as e:
                res = dict(bad=str(e))
            if out is not None:
                res["out"] = out
        except NotInt as e:
            res = dict(bad=str(e))
        except Exception as e:
            res = dict(err=type(e).__name__, msg=str(e)[:100])
        steps.append(dict(st, res=res))
        if "bad" in res:
            break
    return dict(steps=steps)


def judge_custom(chk, hs, name):
    res = supervised(run_custom, hs)
    lines = []
    for i, st, v in res:
        if st != "ok":
            v = dict(steps=[dict(hs[i][0], res=dict(bad=st + str(v)[-300:]))])
        lines.append(json.dumps(dict(v, id=i)))
    p = scratch() / "custom.ndjson"
    p.write_text("\n".join(lines) + "\n")
    r = tlc("CustomTrace", env=dict(TRACE=p), timeout=800)
    judged(chk, r, len(lines) + 16, name)
    chk.add_tlc(name, r)
    chk.cov["traces_validated_against_impl"] += len(lines)
    chk.note(name, histories=len(lines), steps=sum(map(len, hs)))
    chk.sample(dict(part=name, history=[(s["op"], s["a"], s["v"], s["s"]) for s in hs[len(hs) // 2]]))
    for mm in re.finditer(r'^<<"BAD", (\d+), \{(.*?)\}>>', r.out, re.M | re.S):
        k = int(mm.group(1))
        ops = ">".join(s["op"] for s in hs[k])
        chk.violate(f"{name}:{ops}:{mm.group(2)}", f"clauses {mm.group(2)} history {[(s['op'], s['a'], s['v'], s['s']) for s in hs[k]]}", dict(part=name, record=json.loads(lines[k])))


def rand_custom(rng, n):
    """a random history; the shadow only tracks which cells exist"""
    kinds, lens, refs = [], [], []
    h = []

    def emit(op_, a=(), v=(), s="", **kw):
        h.append(dict(op=op_, a=[int(x) + 1 for x in a], v=[int(x) for x in v], s=s, **kw))
    F = int(rng.integers(1, 9)) if rng.random() < .94 else int(rng.choice([20, 77, 128, 130, 257, 300]))
    hows = ["list", "ints", "f8", "f4", "i8", "view", "neg", "swap"]
    mut = {}

    def newlist(L=None):
        how = hows[rng.integers(len(hows))]
        emit("list", (), rng.integers(-9, 10, L if L is not None else F), how)
        kinds.append("list"); lens.append(F if L is None else L); refs.append(how)
        return len(kinds) - 1

    def of(k):
        return [i for i, q in enumerate(kinds) if q == k]

    def some(k):
        c = of(k)
        return c[rng.integers(len(c))] if c else None
    for _ in range(4):
        newlist()
    emit("bank", range(4), s="list")
    kinds.append("bank"); lens.append(4); refs.append([0, 1, 2, 3])
    ok = {4: True}
    names = ["w", "mine", "db2", "x y", "dc", "tuple", "array", "W", *ARRAYS]
    while len(h) < n:
        r = rng.random()
        w = some("w")
        if r < .18 or w is None:
            src = [some("bank"), some("bank"), some("w"), some("obj")][rng.integers(4)]
            if src is None:
                continue
            emit("wavelet", [src], s=names[rng.integers(len(names))])
            # whether it is usable: decided by the specification; the shadow mirrors lengths only
            b = src if kinds[src] != "obj" else refs[src]
            L = [lens[q] for q in refs[b]] if kinds[b] == "bank" else [lens[b]] * 4
            if len(L) == 4 and len(set(L)) == 1 and L[0] > 0:
                kinds.append("w"); lens.append(L[0] + L[0] % 2); refs.append(None)
        elif r < .23:
            newlist(int(rng.integers(0, 9)) if rng.random() < .3 else None)
        elif r < .30:
            k = int(rng.choice([4, 4, 4, 4, 3, 5]))
            c = of("list")
            pick_ = [c[rng.integers(len(c))] for _ in range(k)]
            if rng.random() < .7:
                same = [q for q in c if lens[q] == lens[pick_[0]]]
                pick_ = [same[rng.integers(len(same))] for _ in range(k)]
            emit("bank", pick_, s="list")
            kinds.append("bank"); lens.append(k); refs.append(list(pick_))
        elif r < .34:
            b = some("bank")
            emit("obj", [b], s=["filter_bank", "coeffs"][rng.integers(2)])
            kinds.append("obj"); lens.append(0); refs.append(b)
        elif r < .48:
            c = some("list")
            if lens[c]:
                emit("poke", [c], [rng.integers(1, lens[c] + 1), rng.integers(-50, 51)])
        elif r < .50:
            c = some("list")
            if refs[c] in ("list", "ints"):
                emit("grow", [c], [rng.integers(-9, 10)])
                lens[c] += 1
        elif r < .54:
            b, c = some("bank"), some("list")
            i = int(rng.integers(len(refs[b])))
            emit("swapin", [b, c], [i + 1])
            refs[b][i] = c
        elif r < .64:
            emit("read", [w], [rng.integers(1, 5)])
            kinds.append("list"); lens.append(lens[w]); refs.append("list")
        elif r < .76:
            emit("readbank" if rng.random() < .4 else "inverse", [w], s="old" if rng.random() < .3 else "")
            k = len(kinds)
            for _ in range(4):
                kinds.append("list"); lens.append(lens[w]); refs.append("list")
            kinds.append("bank"); lens.append(4); refs.append([k, k + 1, k + 2, k + 3])
        elif r < .81:
            emit("flag", [w], [rng.integers(0, 2)], ["orthogonal", "biorthogonal"][rng.integers(2)])
        elif r < .86:
            c = some("list")
            emit("qmf", [c])
            kinds.append("list"); lens.append(lens[c]); refs.append("arr")
        elif r < .90:
            emit("lens", [w])
        elif r < .96:
            N = int(rng.integers(2, 9))
            emit("dwt", [w], rng.integers(-5, 6, N), MODES[rng.integers(9)], single=bool(rng.random() < .5))
        else:
            N = int(rng.integers(lens[w] // 2, max(12, lens[w] // 2 + 8)))
            emit("idwt", [w], rng.integers(-5, 6, max(N, 1)), MODES[rng.integers(9)], single=bool(rng.random() < .5))
    return h


@prop("C16")
def c16(chk):
    rng = rng_for(chk)
    hs = []
    for odd in ("TRUE", "FALSE"):
        r = mc.check(chk, "MC_Custom", f"all short histories (odd length: {odd})", consts=dict(MaxSteps=pick(4, 5), Odd=odd), inv=["Shape", "Involution"], prop=["Fixed"])
        base = [dict(op="list", a=[], v=([i, 2 * i + 1, -i] if odd == "TRUE" else [i, 3 - i]), s="list") for i in range(1, 5)] + [dict(op="bank", a=[1, 2, 3, 4], v=[], s="list")]
        k = 0
        for m in re.finditer(r'^"HIST (.*)"$', r.out, re.M):
            hs.append(base + json.loads(m.group(1).replace('\\"', '"')))
            k += 1
        if not k:
            raise MachineryError("TLC emitted no histories")
    keep = pick(4000, 40000)
    if len(hs) > keep:
        hs = [hs[i] for i in sorted(rng.permutation(len(hs))[:keep])]
    judge_custom(chk, hs, "histories emitted by TLC")
    judge_custom(chk, [rand_custom(rng, int(rng.integers(8, 30))) for _ in range(pick(600, 6000))], "random histories")
    # utilities on real filters and built-in sources
    items = []
    for n in pywt.wavelist(kind="discrete"):
        items += [("from", n), ("inv", n), ("qmf", n), ("ofb", n)]
    for _ in range(pick(150, 1500)):
        F = 2 * int(rng.integers(1, 20)) if rng.random() < .9 else int(rng.choice([64, 102, 128, 130, 256, 300]))
        f = rng.integers(-40, 41, F)
        if f.sum() == 0:
            f[0] += 7
        items.append(("ofbint", [int(v) for v in f], ["list", "f8", "i8", "tuple", "f4", "view"][rng.integers(6)]))
    for F in (1, 3, 5):
        items.append(("ofbodd", F))
    judge_bank(chk, one16, items, "utilities on filters")


def taps(f):
    return [tap(v) for v in f]


def one16(it):
    k = it[0]
    if k == "from":       # wavelets made from built-in ones, from their reports and from one another carry the same taps
        w = pywt.Wavelet(it[1])
        want = fbits(w)
        c = [pywt.Wavelet("c", filter_bank=w), pywt.Wavelet("c", filter_bank=w.filter_bank), pywt.Wavelet("c", filter_bank=[np.array(f) for f in w.filter_bank]),
             pywt.Wavelet("c", filter_bank=np.array(w.filter_bank)), pywt.Wavelet("c", filter_bank=HasBank(w.filter_bank)), pywt.DiscreteContinuousWavelet("c", w),
             pywt.Wavelet("c", filter_bank=pywt.Wavelet("d", filter_bank=w.inverse_filter_bank).inverse_filter_bank)]
        return dict(op="alias", a=[want for _ in c] + [len(w)] * 3, b=[fbits(v) for v in c] + [len(c[0]), c[1].dec_len, c[2].rec_len])
    if k == "inv":
        w = pywt.Wavelet(it[1])
        i = w.inverse_filter_bank
        rev = lambda f: hx(f[::-1])
        return dict(op="alias", a=[rev(w.rec_lo), rev(w.rec_hi), rev(w.dec_lo), rev(w.dec_hi)], b=[hx(f) for f in i])
    if k == "qmf":
        w = pywt.Wavelet(it[1])
        return dict(op="qmf", f=taps(w.rec_lo), g=taps(pywt.qmf(w.rec_lo)), g2=taps(pywt.qmf(np.array(w.rec_lo))), g3=taps(pywt.qmf(tuple(w.rec_lo))))
    if k == "ofb":
        w = pywt.Wavelet(it[1])
        r = pywt.orthogonal_filter_bank(w.rec_lo)
        return dict(op="ofb", f=[taps(v) for v in r], ints=[])
    if k == "ofbodd":
        try:
            pywt.orthogonal_filter_bank(list(range(1, it[1] + 1)))
        except ValueError:
            return dict(op="alias", a=1, b=1)
        return dict(op="alias", a=1, b=0)
    f = it[1]
    o = dict(list=lambda: list(map(float, f)), f8=lambda: np.array(f, float), i8=lambda: np.array(f), tuple=lambda: tuple(f), f4=lambda: np.array(f, np.float32),
             view=lambda: np.repeat(np.array(f, float), 2)[::2])[it[2]]()
    c = np.array(o, float)
    r = pywt.orthogonal_filter_bank(o)
    if not np.array_equal(c, np.asarray(o, float)):
        return dict(op="ofb", bad="input changed")
    if len(r) != 4:
        return dict(op="ofb", bad="not four filters")
    sc = float(np.abs(r[2]).max()) * 2      # an integer sum can be small beside its terms
    e = max(0, math.ceil(math.log2(max(sc, 1))))
    return dict(op="ofb", f=[[tap(v * 2.0 ** -e) for v in q] for q in r], ints=f, e=e)
