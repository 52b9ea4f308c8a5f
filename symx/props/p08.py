"""A sub-population is the restriction of its parent."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["parents of 0 to 3 objects (4 in the thorough tier)", "every detection outcome and every outcome of the distance selection",
          "detected and undetected parts, and parts of parts"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
OPTS = {"witnesses": 3}
REACH = ["detected", "undetected", "empty", "known"]


def variants(tier):
    out = []
    for lay in ("none", "flat", "mixed"):
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
            if n > 2 and lay != "none" and tier == "quick":
                continue
            out.append({"layout": lay, "n": n, "observed": 1})
            out.append({"layout": lay, "n": n, "observed": 0})
    return out


FIELDS = ["luminosities", "distances", "fluxes", "theta", "phi", "probability"]


def snap(pop, names):
    out = {}
    for k in FIELDS + names:
        x = getattr(pop, k)
        out[k] = (C.vals(x), C.vals(x.latent))
    out["selection"] = C.flags(pop.selection)
    out["known"] = [list(np.asarray(v, dtype=object).reshape(-1)) for v in (pop.known_distances, pop._known_distance_idx, pop._unknown_distance_idx)]
    out["n"] = (pop.n_objects, pop.n_detections, pop.n_non_detections)
    return out


def compare(ctx, a, b, label):
    for k in a:
        if k in ("selection", "n"):
            ctx.check(a[k] == b[k], "%s: %s unchanged" % (label, k))
        else:
            ctx.check_same(list(a[k]), list(b[k]), "%s: %s unchanged" % (label, k))


def restriction(ctx, parent, sub, idx, names, known):
    """known: parent positions whose distance is known"""
    for k in FIELDS + names:
        for part in (0, 1):
            a = C.vals(getattr(sub, k) if not part else getattr(sub, k).latent)
            b = parent[k][part]
            ctx.check(len(a) == len(idx), "%s: one entry per retained object" % k)
            for v, i in zip(a, idx):
                ctx.check_eq(v, b[i], "%s of a retained object" % k)
    ctx.check(C.flags(sub.selection) == [True] * len(idx), "everything detected")
    ctx.check(sub.n_objects == len(idx) and sub.n_detections == len(idx) and sub.n_non_detections == 0, "accounts")
    want = [j for j, i in enumerate(idx) if i in known]
    got = [int(v) for v in np.asarray(sub._known_distance_idx).reshape(-1)]
    un = [int(v) for v in np.asarray(sub._unknown_distance_idx).reshape(-1)]
    ctx.check(got == want, "known distances of the retained objects")
    ctx.check(sorted(got + un) == list(range(len(idx))), "known and unknown distances partition the objects")
    kd = list(np.asarray(sub.known_distances, dtype=object).reshape(-1))
    ctx.check(len(kd) == len(got), "one known distance per index")
    for v, j in zip(kd, got):
        ctx.reach("known")
        ctx.check_eq(v, parent["distances"][0][idx[j]], "known distance")


def harness(ctx, layout, n, observed):
    w = C.World(ctx, layout, n)
    w.ps.set_flux_selection(C.bound(ctx, "flux", use_flux=True))
    w.ps.set_distance_selection(C.bound(ctx, "dist", use_distance=True))
    if w.s:
        k = w.tops[-1]
        w.s[k].set_selection_probability(C.bound(ctx, k, use_obs_value=True))
    w.ps._n_model = 3
    w.ps.add_model_space("space", 1.0, 2.0)
    pop = w.ps.draw_survey(n_samples=n, flux_sigma=ctx.real("sigma", pos=True, nominal=0.2) if layout == "none" and n < 3 else None)
    names = list(w.s)
    before = snap(pop, names)
    sel = before["selection"]
    det = [i for i in range(n) if sel[i]]
    idx = det if observed else [i for i in range(n) if not sel[i]]
    ctx.reach("detected" if observed else "undetected")
    if not idx:
        ctx.reach("empty")
    known = [det[int(j)] for j in before["known"][1]] if observed else []
    sub = pop.to_sub_population(observed=bool(observed))
    compare(ctx, before, snap(pop, names), "parent")
    restriction(ctx, before, sub, idx, names, known)
    for k in ("_flux_sigma", "_r_max", "_seed", "_n_model", "_name", "_lf_params", "_spatial_params", "_spatial_form", "_lf_form"):
        ctx.check_same(getattr(sub, k), getattr(pop, k), k)
    ctx.check_same(sub.truth, pop.truth, "truth")
    ctx.check_same(sub.pop_synth, pop.pop_synth, "description")
    ctx.check(sorted(sub.graph.edges) == sorted(pop.graph.edges), "graph")
    ctx.check_same(list(sub._model_spaces), list(pop._model_spaces), "model spaces")
    # a part of the part is the part itself, or nothing
    s0 = snap(sub, names)
    again = sub.to_sub_population()
    restriction(ctx, s0, again, list(range(len(idx))), names, [int(v) for v in s0["known"][1]])
    none = sub.to_sub_population(observed=False)
    restriction(ctx, s0, none, [], names, [])
    compare(ctx, s0, snap(sub, names), "sub-population")
