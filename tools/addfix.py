"""addfix.py PROP COMMIT TEXT: appends a 'fixed' entry to known_findings.jsonl"""
import json, sys
p, c, t = sys.argv[1:4]
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps(dict(id=f"{p}-{c}", status="fixed", property=p, commit=c, what=f"fixed: property={p} {c} {t}")) + "\n")
