"""Writes /verif/MANIFEST.json from properties.jsonl and the harness modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASONS = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "symx/props/%s.py" % p.lower())
    if not os.path.exists(f):
        na.append({"property": p, "reason": REASONS.get(p, "no check built yet")})
        continue
    vals = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    note = "Holds for every value within: " + "; ".join(vals["BOUNDS"]) + "."
    if vals.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(vals["ASSUMPTIONS"]) + "."
    note += " Floats are read as exact reals unless stated; library calls behave as documented."
    checks.append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "symbolic execution of the Python source with SMT (Z3) deciding every path and assertion; counterexamples replayed on the real code",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
