"""addnote.py PROP TECHNIQUE NOTE"""
import json, sys
p = "/verif/tools/notes.json"
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
open(p, "w").write(json.dumps(d, indent=1) + "\n")
