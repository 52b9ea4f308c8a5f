"""Known and unknown distances partition the detected objects."""
import numpy as np

from symx import core, laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 3 objects (4 in the thorough tier)", "all distances, luminosities and boundaries, so every detection outcome and every outcome of the distance selection"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
OPTS = {"witnesses": 3}
REACH = ["known", "unknown", "none known", "none detected", "all known"]

KINDS = [None, "UnitySelection", "LowerBound", "UpperBound", "BoxSelection", "BernoulliSelection", "SoftSelection"]


def variants(tier):
    out = []
    for k in KINDS:
        for n in (0, 1, 2):
            out.append({"kind": k, "n": n, "hide": 1})
        if k != "SoftSelection" or tier != "quick":
            out.append({"kind": k, "n": 3, "hide": 0})
    for k in ("LowerBound", "BernoulliSelection"):
        out.append({"kind": k, "n": 3, "hide": 1})
    if tier != "quick":
        for k in KINDS:
            out.append({"kind": k, "n": 4, "hide": int(k != "SoftSelection"), "_budget": 900})
    out.sort(key=lambda v: -v["n"])
    return out


def harness(ctx, kind, n, hide, _budget=None):
    import popsynth.selection_probability as sp
    ps, r, lum = C.survey(ctx, n)
    if hide:
        s = C.bound(ctx, "flux", use_flux=True)
        ps.set_flux_selection(s)
    if kind:
        if kind in ("UnitySelection", "BernoulliSelection"):
            d = getattr(sp, kind)()
        else:
            d = getattr(sp, kind)(use_distance=True)
        b = ctx.real("b", pos=True, nominal=1.2)
        if kind == "BoxSelection":
            d.vmin, d.vmax = b, b + ctx.real("w", pos=True, nominal=1)
        elif kind == "BernoulliSelection":
            d.probability = ctx.real("p", lo=0, hi=1)
        elif kind != "UnitySelection":
            d.boundary = b
            if kind == "SoftSelection":
                d.strength = 2.0
        ps.set_distance_selection(d)
    mark = len(ctx.draws)
    pop = ps.draw_survey(n_samples=n)
    sel = C.flags(pop.selection)
    det = [i for i in range(n) if sel[i]]
    m = len(det)
    known = [int(v) for v in np.asarray(pop._known_distance_idx).reshape(-1)]
    unknown = [int(v) for v in np.asarray(pop._unknown_distance_idx).reshape(-1)]
    kd = list(np.asarray(pop.known_distances, dtype=object).reshape(-1))
    ctx.check(sorted(known + unknown) == list(range(m)), "known and unknown distances partition the %d detected objects" % m)
    ctx.check(len(kd) == len(known), "one known distance per index")
    for j, i in enumerate(known):
        ctx.check_eq(kd[j], r[det[i]], "known distance is that of the detected object")
    ctx.reach("none detected" if not m else "known" if known else "unknown")
    if m and not known:
        ctx.reach("none known")
    if m and unknown:
        ctx.reach("unknown")
    if m and not unknown:
        ctx.reach("all known")
    # the distance selection decides, on the distances of the detected objects
    if kind in (None, "UnitySelection"):
        ctx.check(len(known) == m, "everything known without a distance selection")
    elif kind in ("LowerBound", "UpperBound", "BoxSelection"):
        for j, i in enumerate(det):
            v = r[i]
            if kind == "BoxSelection":
                if not ctx.symbolic and min(abs(v - d.vmin), abs(v - d.vmax)) < 1e-9:
                    continue
                c = (v >= d.vmin) & (v <= d.vmax)
            else:
                if not ctx.symbolic and abs(v - b) < 1e-9:
                    continue
                c = v >= b if kind == "LowerBound" else v <= b
            ctx.check_iff(j in known, c, "distance of a detected object is known as the selection says")
    else:
        us = [x for x in ctx.draws[mark:] if x["kind"] == "u:bern"]
        ps_ = [d.probability] * m if kind == "BernoulliSelection" else [L.logistic(2 * (L.log10(r[i]) - L.log10(b))) for i in det]
        L.bernoulli_match(ctx, [j in known for j in range(m)], us, ps_, "distance selection of the detected objects")
