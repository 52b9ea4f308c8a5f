"""Writes /verif/DESIGN.md."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = json.load(open(os.path.join(V, "tools/how.json")))
out = [open(os.path.join(V, "tools/design_head.md")).read()]
caught = {}
pf = os.path.join(V, "tools/planted.txt")
rows = [l.rstrip("\n").split("\t") for l in open(pf)] if os.path.exists(pf) else []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    vals = {}
    for n in ast.parse(open(os.path.join(V, "symx/props/%s.py" % i.lower())).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Decided by: %s" % HOW[i])
    out.append("* Bounds: %s." % "; ".join(vals["BOUNDS"]))
    if vals.get("ASSUMPTIONS"):
        out.append("* Assumes: %s." % "; ".join(vals["ASSUMPTIONS"]))
    out.append("* Out of reach of tests: %s" % p["why_tests_cant"])
    mine = [r for r in rows if r[1] == i]
    if mine:
        out.append("* Planted: " + "; ".join("%s (%s) %s" % (r[0], r[3], r[2]) for r in mine) + ".")
    out.append("")
out.append(open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
