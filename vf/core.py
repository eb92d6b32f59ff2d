"""Shared machinery: supervised execution of library calls, TLC runs, verdicts, evidence.

Nothing here knows what a correct result is: expected values come from the TLA+
specification (../spec), either because TLC checks the recorded calls against it
(trace validation) or because TLC emitted the expected behaviour (replay)."""
import collections, json, mmap, os, pathlib, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback, warnings
import multiprocessing as mp
import numpy as np

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 1)
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
QUICK = TIER != "thorough"
T0 = time.time()


def pick(quick, thorough):
    return quick if QUICK else thorough


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict on the code)."""


# --------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf-"))
    return _scratch


def cleanup():
    if _scratch is not None and _scratch.name.startswith("vf-"):
        shutil.rmtree(_scratch, ignore_errors=True)


# --------------------------------------------------------------------------- TLC
Tlc = collections.namedtuple("Tlc", "out states distinct depth ok wall")


def tlc(module, cfg_text=None, env=None, workers=NCPU, timeout=600, args=(), heap="6g", specdir=SPEC, deadlock_ok=True):
    """Run TLC on spec/<module>.tla with a generated or committed cfg."""
    d = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=scratch()))
    cfg = specdir / (module + ".cfg")
    if cfg_text is not None:
        cfg = d / (module + ".cfg")
        cfg.write_text(cfg_text)
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    for k in ("JAVA_TOOL_OPTIONS", "LD_PRELOAD", "MALLOC_CHECK_"):
        e.pop(k, None)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + str(d),
           "-DTLA-Library=" + str(SPEC), "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", str(d / "meta"), "-config", str(cfg)]
    if deadlock_ok:
        cmd.append("-deadlock")
    cmd += list(args) + [str(specdir / (module + ".tla"))]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}: {(ex.output or b'')[-2000:]!r}")
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states", out, re.M)
    gen, dis = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    ok = p.returncode == 0 and "Model checking completed. No error" in out or ("-simulate" in args and p.returncode == 0)
    shutil.rmtree(d, ignore_errors=True)
    return Tlc(out, gen, dis, int(dm.group(1)) if dm else 0, ok, time.time() - t)


def tlc_or_die(module, **kw):
    r = tlc(module, **kw)
    if not r.ok:
        raise MachineryError(f"TLC failed on {module}:\n{r.out[-6000:]}")
    return r


# --------------------------------------------------------------------------- supervised execution
class Crash(Exception):
    pass


def supervised(fn, items, nproc=NCPU, limit=60.0, label="case"):
    """fn(item) for every item in forked workers; yields (index, status, value).
    status: 'ok' (value = fn's return), 'exc' (value = traceback text), 'hang', 'crash' (value = exit status).
    A call that hangs or kills its process loses only itself."""
    items = list(items)
    n = len(items)
    if n == 0:
        return []
    nproc = max(1, min(nproc, n))
    res = [None] * n
    d = pathlib.Path(tempfile.mkdtemp(prefix="sup-", dir=scratch()))
    ctx = mp.get_context("fork")
    shared = [mmap.mmap(-1, 32) for _ in range(nproc)]

    def body(k, todo, path):
        import pickle
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        with open(path, "ab", buffering=0) as f:
            for i in todo:
                shared[k][:16] = struct.pack("qd", i, time.monotonic())
                try:
                    v = ("ok", fn(items[i]))
                except MachineryError:
                    v = ("mach", traceback.format_exc())
                except Exception:
                    v = ("exc", traceback.format_exc())
                b = pickle.dumps((i,) + v)
                f.write(struct.pack("q", len(b)) + b)
        shared[k][:16] = struct.pack("qd", -2, time.monotonic())

    def harvest(path):
        import pickle
        if not path.exists():
            return
        b = path.read_bytes()
        o = 0
        while o + 8 <= len(b):
            (ln,) = struct.unpack_from("q", b, o)
            if o + 8 + ln > len(b):
                break
            i, s, v = pickle.loads(b[o + 8:o + 8 + ln])
            res[i] = (i, s, v)
            o += 8 + ln

    lanes = []
    for k in range(nproc):
        todo = list(range(k, n, nproc))
        lanes.append(dict(k=k, todo=todo, proc=None, gen=0, path=None))

    def start(L):
        L["gen"] += 1
        L["path"] = d / f"{L['k']}-{L['gen']}"
        shared[L["k"]][:16] = struct.pack("qd", -1, time.monotonic())
        L["proc"] = ctx.Process(target=body, args=(L["k"], L["todo"], L["path"]), daemon=True)
        L["proc"].start()

    sys.stdout.flush()
    sys.stderr.flush()
    for L in lanes:
        start(L)
    live = list(lanes)
    while live:
        time.sleep(0.02)
        for L in list(live):
            cur, ts = struct.unpack("qd", shared[L["k"]][:16])
            alive = L["proc"].is_alive()
            hang = alive and cur >= 0 and time.monotonic() - ts > limit
            if alive and not hang:
                continue
            if hang:
                L["proc"].kill()
            L["proc"].join()
            code = L["proc"].exitcode
            harvest(L["path"])
            left = [i for i in L["todo"] if res[i] is None]
            if hang or code != 0:
                if cur >= 0 and res[cur] is None:
                    res[cur] = (cur, "hang" if hang else "crash", code)
                    left = [i for i in left if i != cur]
                elif code != 0 and not hang and not left:
                    pass
                elif cur < 0:
                    raise MachineryError(f"worker died outside any {label}: exit {code}")
            live.remove(L)
            if left:
                L["todo"] = left
                start(L)
                live.append(L)
    for m in shared:
        m.close()
    shutil.rmtree(d, ignore_errors=True)
    for r in res:
        if r is None:
            raise MachineryError("lost a case")
        if r[1] == "mach":
            raise MachineryError(r[2])
    return res


# --------------------------------------------------------------------------- reporting
def known_findings():
    p = VERIF / "known_findings.jsonl"
    if not p.exists():
        return []
    return [json.loads(l) for l in p.read_text().splitlines() if l.strip()]


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.violations = []          # (key, description, replay dict)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.parts = {}
        self.assumptions = []
        self.known_seen = {}

    def add_tlc(self, name, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        self.parts[name] = dict(states=r.distinct, transitions=r.states, depth=r.depth, wall_s=round(r.wall, 1))

    def note(self, name, **kw):
        self.parts.setdefault(name, {}).update(kw)

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violate(self, key, what, replay=None):
        """key: stable identifier of the failing input/call site/history class."""
        for f in known_findings():
            if f.get("status") == "known" and f["property"] == self.prop and re.fullmatch(f["match"], key):
                self.known_seen.setdefault(f["id"], f)
                return
        self.violations.append((key, what, replay))

    def finish(self):
        wall = time.time() - T0
        d = VERIF / "replays"
        for f in known_findings():
            if f.get("status") == "known" and f["property"] == self.prop:
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}"
                      + ("" if f["id"] in self.known_seen else " (not reproduced in this run)"))
        n = 0
        for key, what, replay in self.violations[:20]:
            d.mkdir(exist_ok=True)
            p = d / f"{self.prop}-{n}.json"
            p.write_text(json.dumps(dict(property=self.prop, key=key, what=what, replay=replay), default=jsonable, indent=1))
            if n < 8:
                print(f"  {key}: {what}"[:600])
                print(f"VIOLATION property={self.prop} replay={p}")
            n += 1
        ev = dict(property=self.prop, tier="quick" if QUICK else "thorough", seed=SEED, level=self.level,
                  coverage=dict(self.cov, parts=self.parts), wall_s=round(wall, 2),
                  violations=len(self.violations), assumptions=self.assumptions)
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, default=jsonable, indent=1))
        print(f"{self.prop}: {len(self.violations)} violation(s), {self.cov['traces_validated_against_impl']} implementation "
              f"behaviours against the spec, {self.cov['states']} TLC states, {wall:.1f}s")
        sys.stdout.flush()
        return 1 if self.violations else 0


KIND = r"Attempted to (check equality|compare|apply|select|access)"


def judged(chk, r, want, name, what="trace"):
    """TLC went through all records. Where a recorded result is not even of the specified kind (a string for an array), TLC cannot
    compare the two and stops: that is a violation too, and what TLC had judged before it is kept."""
    if r.ok and r.distinct == want:
        return
    m = re.search(KIND + r"[^\n]*(\n[^\n]*){0,2}", r.out)
    if m:
        chk.violate(f"{name}:kind", "a result is not of the specified kind: " + re.sub(r"\s+", " ", m.group(0))[:300], dict(part=name, tlc=tlcmsg(r)))
        return
    raise MachineryError(f"TLC did not judge the whole {what} ({r.distinct} of {want} states):\n{tlcmsg(r)}")


def jsonable(o):
    if isinstance(o, np.ndarray):
        return dict(s=list(o.shape), d=o.ravel().tolist())
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def tlcmsg(r):
    """the part of TLC's output that says what went wrong"""
    k = r.out.find("Error:")
    return r.out[max(0, k - 500):k + 2500] + "\n...\n" + r.out[-1500:] if k >= 0 else r.out[-4000:]
