"""seedrun.py [-j N] [--notest] [--checks C01,C02] [--quickonly] IDS... : confirm seeded bugs, each in a scratch copy of /repo
bind-mounted over /repo in a private mount namespace: demo passes before, builds, demo fails after, stable tests pass, check catches."""
import argparse, concurrent.futures, json, os, pathlib, re, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--notest", action="store_true")
ap.add_argument("--checks", default="")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("ids", nargs="*")
o = ap.parse_args()
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def one(i):
    d = V / "seeded" / i
    meta = json.loads((d / "meta.json").read_text())
    t = pathlib.Path(tempfile.mkdtemp(prefix="seedrun-"))
    subprocess.run(["cp", "-a", "/repo", str(t / "repo")], check=True)
    subprocess.run(["cp", "-a", "/opt/vp", str(t / "vp")], check=True)
    subprocess.run(["cp", "-a", "/opt/venv", str(t / "venv")], check=True)      # builds of other runs replace files in it
    subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", str(V) + "/", str(t / "verif")], check=False) if shutil.which("rsync") else \
        subprocess.run(f"mkdir {t}/verif && cd {V} && tar cf - --exclude=.git --exclude=./seeded . | tar xf - -C {t}/verif", shell=True, check=True)
    shutil.copytree(d, t / "bug")
    checks = o.checks.split(",") if o.checks else [meta["property"]]
    sh = f"""
mount --bind {t}/repo /repo; mount --bind {t}/vp /opt/vp; mount --bind {t}/venv /opt/venv; mount --bind {t}/verif /verif
cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh > {t}/b0 2>&1 || echo BUILD0FAIL
bash {t}/bug/demo.sh > {t}/d0 2>&1; echo "DEMO0 $?"
git apply {t}/bug/patch.diff || echo APPLYFAIL
bash /opt/vp/build.sh > {t}/b1 2>&1 || echo BUILDFAIL
bash {t}/bug/demo.sh > {t}/d1 2>&1; echo "DEMO1 $?"
for c in {' '.join(checks)}; do (cd /verif; VERIF_SEED={o.seed} VERIF_TIER={o.tier} timeout 3000 bash run.sh $c > {t}/c-$c 2>&1; echo "CHECK $c $?"); done
{'true' if o.notest else f'bash /opt/vp/test.sh {t}/t.json > {t}/tl 2>&1'}
"""
    p = subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True)
    out = p.stdout + p.stderr
    msg = [i]
    msg.append("demo0=" + (re.search(r"DEMO0 (\d+)", out) or [0, "?"])[1])
    msg.append("demo1=" + (re.search(r"DEMO1 (\d+)", out) or [0, "?"])[1])
    for w in ("BUILD0FAIL", "APPLYFAIL", "BUILDFAIL"):
        if w in out:
            msg.append(w)
    for c, r in re.findall(r"CHECK (\w+) (\d+)", out):
        txt = (t / f"c-{c}").read_text()
        n = len(re.findall("^VIOLATION property=" + c, txt, re.M))
        msg.append(f"{c}:rc={r},viol={n}")
        if r not in "01" or (r == "1" and n == 0):
            msg.append("\n" + txt[-1500:])
        elif n:
            m = re.search(r"^  (.*)", txt, re.M)
            msg.append("\n      " + m[1][:200] if m else "")
    if not o.notest:
        try:
            r = json.load(open(t / "t.json"))
            lost = sorted(base - set(r["passed"]))
            msg.append(f"tests lost={len(lost)} {lost[:3]}")
        except Exception as e:
            msg.append(f"tests? {e}")
    if (t / "d1").exists():
        msg.append("\n      demo: " + (t / "d1").read_text().strip()[-150:].replace("\n", " | "))
    if "demo0=0" not in msg:
        msg.append("\n      demo0: " + (t / "d0").read_text().strip()[-300:])
    shutil.rmtree(t)
    return "  ".join(msg)

ids = o.ids or sorted(p.name for p in (V / "seeded").iterdir())
with concurrent.futures.ThreadPoolExecutor(o.j) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, i) for i in ids]):
        print(f.result(), flush=True)
