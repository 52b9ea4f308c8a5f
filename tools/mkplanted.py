"""mkplanted.py LOG...: tools/planted.txt from the logs of tools/bug.sh (lines "id prop rc=N ...")."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pf = os.path.join(V, "tools/planted.txt")
rows = {}
if os.path.exists(pf):
    for l in open(pf):
        r = l.rstrip("\n").split("\t")
        rows[r[0]] = r
for log in sys.argv[1:]:
    for l in open(log):
        w = l.split()
        if len(w) < 3 or not w[2].startswith("rc="):
            continue
        mp = os.path.join(V, "seeded", w[0], "meta.json")
        if not os.path.exists(mp):
            continue
        m = json.load(open(mp))
        if m["property"] == w[1]:
            rows[w[0]] = [w[0], w[1], "caught" if w[2] == "rc=1" else "missed", m["what_it_breaks"]]
with open(pf, "w") as f:
    for k in sorted(rows):
        if os.path.isdir(os.path.join(V, "seeded", k)):
            f.write("\t".join(rows[k]) + "\n")
