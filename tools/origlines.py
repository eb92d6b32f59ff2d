"""origlines.py: for every seeded patch, how many of the lines it removes come from the original commit."""
import pathlib, re, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
base = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], capture_output=True, text=True).stdout.split()[0]
for d in sorted((V / "seeded").iterdir()):
    f, n, rem = None, 0, []
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- "): f = l[6:]
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1])
        elif l.startswith("-"): rem.append((f, n)); n += 1
        elif l.startswith("+"): rem.append((f, n, "+"))
        elif l.startswith(" "): n += 1
    o = t = 0
    for r in rem:
        if len(r) == 3: continue
        b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{r[1]},{r[1]}", "HEAD", "--", r[0]], capture_output=True, text=True).stdout
        t += 1; o += b.lstrip("^")[:30] == base[:30]
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], capture_output=True).returncode
    print(f"{d.name:35s} removed {t} original {o} applies {ok == 0}")
