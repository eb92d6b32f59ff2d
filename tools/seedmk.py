"""seedmk.py DEFS.py : writes seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json) for each bug in DEFS.BUGS.
A bug: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source that exits nonzero on wrong behaviour)."""
import json, pathlib, runpy, subprocess, sys, tempfile, shutil
V = pathlib.Path(__file__).resolve().parent.parent
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = V / "seeded" / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    t = pathlib.Path(tempfile.mkdtemp(prefix="seedmk-"))
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(t / "r")], check=True)
    for f, old, new, *k in b["edits"]:
        p = t / "r" / f
        s = p.read_text()
        assert s.count(old) == 1 or k, (b["id"], f, s.count(old), old)
        q = s.split(old)
        k = k[0] if k else 0
        p.write_text(old.join(q[:k + 1]) + new + old.join(q[k + 1:]))
    diff = subprocess.run(["git", "-C", str(t / "r"), "diff"], check=True, capture_output=True).stdout
    (d / "patch.diff").write_bytes(diff)
    shutil.rmtree(t)
    (d / "demo.py").write_text(b["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    print("wrote", d)
