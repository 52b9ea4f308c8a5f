"""An object is detected exactly when every active selection accepts it."""
import numpy as np

from symx import core, laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 2 objects (3 in the thorough tier)", "all auxiliary values, luminosities, distances and selection boundaries",
          "up to three active selections at a time, on flux, distance, sky region and auxiliary quantities at depth 0 to 2, shared ones and those feeding a derived luminosity"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["detected", "hidden", "flux", "spatial", "nested", "derived", "plain"]

# layout, active selections: a sampler name, or flux / spatial
CASES = [
    ("none", []), ("none", ["flux"]), ("none", ["spatial"]), ("none", ["flux", "spatial"]),
    ("flat", []), ("flat", ["A"]), ("flat", ["B"]), ("flat", ["A", "B"]), ("flat", ["A", "flux"]), ("flat", ["A", "spatial"]),
    ("chain", ["C"]), ("chain", ["B"]), ("chain", ["A", "C"]), ("chain", ["B", "C"]),
    ("shared", ["S"]), ("shared", ["S", "B"]), ("shared", ["A", "B"]),
    ("tree", ["E"]), ("tree", ["B", "E"]), ("tree", ["C", "B"]),
    ("derived", ["D"]), ("derived", ["E"]), ("derived", ["F"]), ("derived", ["F", "flux"]), ("derived", ["E", "F"]),
    ("mixed", ["E"]), ("mixed", ["B", "E"]), ("mixed", ["A", "D"]), ("bridge", ["E"]), ("bridge", ["A", "E"]),
]
TRIPLES = [("chain", ["A", "B", "C"]), ("flat", ["A", "flux", "spatial"]), ("mixed", ["B", "E", "flux"]), ("derived", ["D", "E", "F"]),
           ("tree", ["A", "B", "E"]), ("shared", ["A", "B", "S"])]
# selections of an auxiliary sampler on something other than its own value
USES = [("A", "luminosity"), ("A", "distance"), ("C", "luminosity"), ("C", "distance")]


def variants(tier):
    out = []
    for lay, act in CASES:
        out.append({"layout": lay, "active": act, "n": 2})
    for lay, act in TRIPLES:
        out.append({"layout": lay, "active": act, "n": 1 if tier == "quick" else 2})
    for k, u in USES:
        out.append({"layout": "chain", "active": [k], "n": 2, "use": u})
    for lay in ("flat", "derived"):
        out.append({"layout": lay, "active": ["flux", "A" if lay == "flat" else "E"], "n": 0})
    out.append({"layout": "flat", "active": ["B", "flux"], "n": 2, "order": "late"})
    out.append({"layout": "flat", "active": ["A"], "n": 2, "bern": 1})
    # unobserved samplers, selections on the luminosity by samplers that do not ask for it, a distance selection beside the
    # others (it decides which distances are known, not what is detected), one selector object attached to two samplers
    for lay, act, lat in (("chain", ["B"], "B"), ("chain", ["A", "C"], "ABC"), ("flat", ["A", "B"], "A"), ("derived", ["E"], "EF")):
        out.append({"layout": lay, "active": act, "n": 2 if len(act) == 1 else 1, "latent": lat})
    for lay, k in (("flat", "B"), ("chain", "B")):
        out.append({"layout": lay, "active": [k], "n": 2, "use": "luminosity", "undeclared": 1})
    for lay, act in (("flat", ["A"]), ("none", ["flux"])):
        out.append({"layout": lay, "active": act, "n": 2, "dist": 1})
    for lay, act in (("flat", ["A", "B"]), ("chain", ["A", "C"]), ("derived", ["D", "F"]), ("shared", ["S", "B"])):
        out.append({"layout": lay, "active": act, "n": 1 if tier == "quick" and lay != "flat" else 2, "one": 1})
    if tier != "quick":
        for lay, act in CASES:
            if act:
                out.append({"layout": lay, "active": act, "n": 3, "_budget": 600})
    return out


def harness(ctx, layout, active, n, use=None, order=None, bern=0, latent="", undeclared=0, dist=0, one=0, _budget=None):
    from popsynth.selection_probability import BernoulliSelection, DistanceSelection
    uses = {k: (use,) for k in active} if use and not undeclared else {}
    w = C.World(ctx, layout, n, uses=uses, observed={k: False for k in latent}, attach=order != "late")
    conds = []
    if dist:
        w.ps.set_distance_selection(C.bound(ctx, "known", "LowerBound", use_distance=True))
    shared = None
    for k in active:
        if k == "flux":
            ctx.reach("flux")
            s = C.bound(ctx, k, "UpperBound" if layout == "flat" else "LowerBound", use_flux=True)
            w.ps.set_flux_selection(s)
            f = [w.lum[i] / (4 * L.pi() * (1 + w.r[i]) * (1 + w.r[i])) for i in range(n)] if w.lum else []
            conds.append([(v, s.boundary) if layout != "flat" else (s.boundary, v) for v in f])
        elif k == "spatial":
            ctx.reach("spatial")
            s = DistanceSelection()
            s.min_distance = ctx.real("dmin", nonneg=True, lo=0, nominal=0.5)
            s.max_distance = 1e9
            w.ps.add_spatial_selector(s)
            if ctx.symbolic:
                for v in w.r:
                    ctx.assume(v <= 10 ** 9)
            conds.append([(v, s.min_distance) for v in w.r])
        else:
            ctx.reach("derived" if k == "D" or layout in ("derived", "bridge") else "nested" if k not in w.tops else "plain")
            if bern:
                s = BernoulliSelection()
                s.probability = ctx.real("p", lo=0, hi=1)
                w.s[k].set_selection_probability(s)
                continue
            kw = {"use_%s" % use: True} if use else {"use_obs_value": True}
            s = shared if shared is not None else C.bound(ctx, k, **kw)
            shared = s if one else None
            w.s[k].set_selection_probability(s)
            v = w.obs(k) if not use else w.lum if use == "luminosity" else w.r
            conds.append([(v[i], s.boundary) for i in range(n)])
    if order == "late":
        w.attach()
    mark = len(ctx.draws)
    pop = w.ps.draw_survey(n_samples=n)
    got = C.flags(pop.selection)
    ctx.check(len(got) == n, "one flag per object")
    ctx.check(pop.n_detections == sum(got), "number of detected objects")
    if bern:
        us = [d for d in ctx.draws[mark:] if d["kind"] == "u:bern"]
        L.bernoulli_match(ctx, got, us, [s.probability] * n, "Bernoulli selection of an auxiliary quantity")
        return
    for i in range(n):
        ctx.reach("detected" if got[i] else "hidden")
        if ctx.symbolic:
            c = core.SymBool.lift(True)
            for cs in conds:
                c = c & core.SymBool.lift(cs[i][0] >= cs[i][1])
        else:
            if any(abs(cs[i][0] - cs[i][1]) <= 1e-9 * max(1e-3, abs(cs[i][1])) for cs in conds):
                continue
            c = all(cs[i][0] >= cs[i][1] for cs in conds)
        ctx.check_iff(got[i], c, "object %d is detected exactly when %s accept it" % (i, active or "no selections"))
