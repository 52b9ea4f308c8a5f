import argparse
import json
import logging
import os
import sys
import warnings

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("TQDM_DISABLE", "1")
warnings.simplefilter("ignore")


def prepare():
    from . import shims
    shims.mark_jit()
    import popsynth  # noqa: F401
    import popsynth.population_synth  # noqa: F401
    import popsynth.aux_samplers.sky_sampler  # noqa: F401
    import popsynth.utils.hdf5_utils  # noqa: F401
    import numpy as np
    np.seterr(all="ignore")
    src = os.path.realpath(popsynth.__file__)
    root = os.environ.get("SYMX_REPO", "/repo")
    if not src.startswith(root + "/"):
        print("popsynth is not the one in %s: %s" % (root, src))
        sys.exit(2)
    if not os.environ.get("SYMX_KEEP_LOGS"):
        logging.disable(logging.CRITICAL)


def replay(path):
    prepare()
    from . import runner
    with open(path) as f:
        rec = json.load(f)
    mod = runner.load(rec["property"])
    if getattr(mod, "KEEP_LOGS", False):
        logging.disable(logging.NOTSET)
    r, text, _ = runner.run_concrete(mod, rec["variant"], rec["values"])
    if r in ("fail", "error"):
        print("REPRODUCED property=%s variant=%s: %s" % (rec["property"], rec["variant"], text))
        return 1
    print("not reproduced: %s %s" % (r, text))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prepare()
    from . import runner, evidence
    mod0 = runner.load(a.property)
    if getattr(mod0, "KEEP_LOGS", False):
        logging.disable(logging.NOTSET)
    runner.monitor()
    opts = {"verbose": a.verbose, "all": a.all, "jobs": a.jobs}
    if a.only:
        opts["only"] = [int(x) for x in a.only.split(",")]
    mod, variants, results, wall = runner.run(a.property, a.tier, seed, opts)
    if a.verbose:
        for v, r in sorted([(v, r) for v, r in zip(variants, results) if r], key=lambda x: -x[1].get("wall", 0))[:12]:
            print("%7.1f s %s" % (r.get("wall", 0), v))
    sys.exit(evidence.finish(a.property, a.tier, seed, mod, variants, results, wall))


if __name__ == "__main__":
    main()
