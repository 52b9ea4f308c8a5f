"""plant.py SPEC.py [--notest]: make a planted change from a spec and confirm it in a scratch copy.

A spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export HOME=$work DEMO_SCRATCH=$work PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/compat:$PWD
export NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    i = spec["ID"]
    wt = "/tmp/wt/%s" % i
    out = "/verif/seeded/%s" % i
    os.makedirs("/tmp/wt", exist_ok=True)
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    sh("git checkout -q -- .", cwd=wt)
    for f, old, new in spec["EDITS"]:
        p = "%s/popsynth/%s" % (wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    patch = sh("git diff", cwd=wt).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    # lines of the original repository only
    ok = True
    a = sh("bash %s/demo.sh" % out, cwd="/repo")
    b = sh("bash %s/demo.sh" % out, cwd=wt)
    print(i, "demo clean:", a.returncode, "patched:", b.returncode, (b.stderr.strip().splitlines() or [""])[-1])
    if a.returncode != 0:
        print(a.stdout[-800:], a.stderr[-800:])
    ok &= a.returncode == 0 and b.returncode != 0
    for name in ("build", "test"):
        t = open("/opt/vp/%s.sh" % name).read().replace("/repo", wt)
        open("/tmp/wt/%s.%s.sh" % (i, name), "w").write(t)
    r = sh("bash /tmp/wt/%s.build.sh" % i)
    print(i, "build", r.returncode, r.stdout.strip()[-100:], r.stderr[-300:])
    ok &= r.returncode == 0
    if "--notest" not in sys.argv:
        res = "/tmp/wt/%s.json" % i
        sh("bash /tmp/wt/%s.test.sh %s" % (i, res))
        base = json.load(open("/opt/vp/BASELINE.json"))
        d = json.load(open(res))
        want = base.get("stable") or base.get("passed") or base
        want = [x if isinstance(x, str) else x.get("id") or x.get("name") for x in (want if isinstance(want, list) else list(want))]
        got = set(d.get("passed", []) if isinstance(d, dict) else [])
        missing = [x for x in want if x not in got]
        print(i, "tests: %d of %d pass" % (len(want) - len(missing), len(want)), missing[:5])
        ok &= not missing
    shutil.rmtree(wt, ignore_errors=True)
    print(i, "KEEP" if ok else "REJECT")


main()
