"""Summarises a run: verdict lines, exit status, evidence file."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(pid):
    """entries of the known-findings file for this property: [(key, text)]"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("property=%s " % pid, 1)[1]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def is_known(pid, v):
    """text of the known finding a violation belongs to, if any"""
    for k, t in known(pid):
        if k in v["what"] or k == json.dumps(v["variant"], sort_keys=True):
            return t
    return ""


def finish(pid, tier, seed, mod, variants, results, wall):
    tot = dict(paths=0, pruned=0, domain=0, witness_ok=0, witness_skip=0, left=0, queries=0, solver_time=0.0,
               unknown=0, obligations=0, discharged=0, decisions=0)
    undecided, violations, crashes, funcs, reached, notes, samples = [], [], [], set(), set(), [], []
    for r in results:
        if r is None:
            continue
        if "crash" in r:
            crashes.append("%s: %s" % (r["variant"], r["crash"]))
            continue
        for k in ("paths", "pruned", "domain", "witness_ok", "witness_skip", "left"):
            tot[k] += r[k]
        for k in ("queries", "solver_time", "unknown", "obligations", "discharged", "decisions"):
            tot[k] += r["stats"][k]
        undecided += ["%s %s" % (r["variant"], u) for u in r["undecided"] + r["errors"]]
        violations += [dict(v, variant=r["variant"]) for v in r["violations"]]
        funcs |= set(r["functions"])
        reached |= set(r["reached"])
        samples += r.get("samples", [])
        notes += r.get("domain_notes", [])
    want = set(getattr(mod, "REACH", []))
    missing = sorted(want - reached)
    status = 0
    real, said = [], set()
    for v in violations:
        if v.get("known"):
            if v["known"] not in said:
                print("KNOWN-FINDING: property=%s %s" % (pid, v["known"]))
                said.add(v["known"])
        else:
            real.append(v)
    for v in real:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  %s %s" % (v["variant"], v["what"]))
        status = 1
    stopped = [c for c in crashes if "stopped after a violation" in c]
    crashes = [c for c in crashes if c not in stopped]
    for c in crashes:
        print("CRASH %s" % c)
    for u in undecided[:20]:
        print("UNDECIDED %s" % u)
    if not status:
        if crashes or tot["paths"] == 0 or tot["discharged"] == 0:
            status = 2
        elif undecided and len(undecided) * 2 > tot["paths"]:
            status = 2
        elif missing and not undecided:
            print("NOT REACHED %s" % missing)
            status = 2
    if os.environ.get("SYMX_STRICT") and (undecided or missing or tot["left"]) and not status:
        status = 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": max(1, tot["paths"]), "transitions": max(1, tot["decisions"]),
            "traces_validated_against_impl": tot["witness_ok"],
            "samples": samples[:6],
            "functions_encoded": sorted(funcs),
            "bounds": mod.BOUNDS + ["%d harness variants: %s" % (len(variants), json.dumps(variants)[:1500])],
            "queries": tot["queries"], "solver_time_s": round(tot["solver_time"], 2),
            "solver_unknown": tot["unknown"], "obligations": tot["obligations"], "discharged": tot["discharged"],
            "paths_outside_bounds": tot["pruned"], "paths_cut_at_real_domain": tot["domain"],
            "domain_notes": notes[:20], "paths_left": tot["left"],
            "witness_paths_skipped": tot["witness_skip"],
            "undecided": undecided[:40], "reached": sorted(reached), "not_reached": missing,
            "solver": "z3 (QF_NRA / QF_FP)",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "violations": len(real),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.environ.get("SYMX_EVIDENCE", os.path.join(VERIF, "evidence")), exist_ok=True)
    with open(os.path.join(os.environ.get("SYMX_EVIDENCE", os.path.join(VERIF, "evidence")), pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d decisions, %d obligations (%d discharged), %d queries, %.1f s solver, %d witnesses replayed, %d pruned, %d domain cuts, %d undecided, %.1f s"
          % (pid, tier, tot["paths"], tot["decisions"], tot["obligations"], tot["discharged"], tot["queries"],
             tot["solver_time"], tot["witness_ok"], tot["pruned"], tot["domain"], len(undecided), wall))
    return status


COMMON = [
    "floating-point values are read as exact reals except where a harness uses IEEE doubles; counterexamples count only after they are reproduced with real floating-point code",
    "numpy, scipy, h5py, yaml, networkx and pandas behave as documented; random generators are replaced by their documented transformation of arbitrary base variates",
    "numba-compiled functions are executed from their Python source (NUMBA_DISABLE_JIT=1, as in the repository's CI)",
]
