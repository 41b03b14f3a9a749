"""Prints the planted-bug table of DESIGN.md (maintenance tool)."""
import json, os
V = "/verif/seeded"
print("| Planted bug | Property (its quick check catches it) | What it breaks |\n|---|---|---|")
for d in sorted(os.listdir(V)):
    m = json.load(open(os.path.join(V, d, "meta.json")))
    print("| %s | %s%s | %s |" % (d, m["property"], "" if m.get("caught", True) else " (missed)", m["what_it_breaks"]))
