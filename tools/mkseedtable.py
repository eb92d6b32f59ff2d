"""rewrites the table of planted bugs in DESIGN.md (between the SEEDED markers)"""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
MISSED = {}
rows = ["| id | needs | caught by |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} | {MISSED.get(d.name, m['property'])} |")
p = V / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- SEEDED -->.*?(?=\n## 5)", lambda _: "<!-- SEEDED -->\n" + "\n".join(rows) + "\n", s, flags=re.S)
p.write_text(s)
