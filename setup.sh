#!/bin/bash
# nothing to compile: checks that the interpreter, the solver and the repository are usable
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'E'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
s = z3.SolverFor("QF_NRA"); x = z3.Real("x"); s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
print("z3", z3.get_version_string())
E
