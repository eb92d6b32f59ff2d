"""MANIFEST.json from the registered checks (vf/*.py: @prop lines) and the notes below."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
NOTE = json.loads((V / "tools" / "notes.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
have = set()
for p in (V / "vf").glob("p_*.py"):
    have |= set(re.findall(r'^@prop\("(C\d+)"\)', p.read_text(), re.M))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet (work in progress)"))
(V / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
