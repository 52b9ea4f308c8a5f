"""Population accounts and per-object arrays stay aligned."""
import re

import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 3 objects", "every detection outcome", "populations with nested, shared and derived-luminosity samplers, with and without flux scatter"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["detected", "hidden", "nothing detected", "everything detected"]


def variants(tier):
    out = []
    for lay in ("none", "flat", "chain", "shared", "mixed"):
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            out.append({"layout": lay, "n": n, "sigma": int(n == 2 and lay in ("none", "flat"))})
    out.append({"layout": "none", "n": 3, "sigma": 0})
    out.append({"layout": "flat", "n": 3, "sigma": 0})
    return out


def harness(ctx, layout, n, sigma):
    w = C.World(ctx, layout, n)
    w.ps.set_flux_selection(C.bound(ctx, "flux", use_flux=True))
    mark = len(ctx.draws)
    pop = w.ps.draw_survey(n_samples=n, flux_sigma=ctx.real("sigma", pos=True, nominal=0.3) if sigma else None)
    zs = [d for d in ctx.draws[mark:] if d["kind"][0] == "z"]
    inspect(ctx, w, pop, n, sigma, zs)


def inspect(ctx, w, pop, n, sigma, zs):
    sel = C.flags(pop.selection)
    det = [i for i in range(n) if sel[i]]
    hid = [i for i in range(n) if not sel[i]]
    ctx.reach("detected" if det else "nothing detected")
    ctx.reach("hidden" if hid else "everything detected")
    ctx.check(len(sel) == n, "one flag per object")
    ctx.check(pop.n_objects == n, "number of objects")
    ctx.check(pop.n_detections == len(det), "number of detected objects")
    ctx.check(pop.n_non_detections == len(hid), "number of undetected objects")
    ctx.check(bool(pop.has_detections) == bool(det), "has detections")
    latf = [w.lum[i] / (4 * L.pi() * (1 + w.r[i]) * (1 + w.r[i])) for i in range(n)]
    obsf = C.vals(pop.fluxes)
    if not sigma:
        for i in range(n):
            ctx.check_eq(obsf[i], latf[i], "flux of object %d" % i)
    ctx.check([int(x) for x in re.findall(r"\d+", repr(pop))] == [n, len(det), len(hid)], "counts in the summary")
    deg = lambda v: L.rad2deg(v)
    q = {"luminosities": (w.lum, w.lum), "distances": (w.r, w.r), "fluxes": (obsf, latf), "theta": (w.theta, w.theta), "phi": (w.phi, w.phi),
         "dec": ([90 - deg(v) for v in w.theta],) * 2, "ra": ([deg(v) for v in w.phi],) * 2}
    for k, s in w.s.items():
        q[k] = (s.h_obs, s.h_true)
    # no quantity carries a selection of its own: the spatial and luminosity densities make up the probability (P29)
    prob = list(w.ps.spatial_distribution.probability)
    if w.ps.luminosity_distribution is not None:
        prob = [a * b for a, b in zip(prob, w.ps.luminosity_distribution.probability)]
    ctx.check(len(prob) == n, "one density per object")
    q["probability"] = (prob, prob)
    for k, (obs, lat) in q.items():
        x = getattr(pop, k)
        views(ctx, x, obs, lat, det, hid, n, k)
    # aliases
    for k, v in (("selected_fluxes_observed", pop.fluxes.selected), ("selected_fluxes_latent", pop.fluxes.selected.latent),
                 ("hidden_fluxes_observed", pop.fluxes.non_selected), ("hidden_fluxes_latent", pop.fluxes.non_selected.latent),
                 ("selected_distances", pop.distances.selected), ("hidden_distances", pop.distances.non_selected),
                 ("fluxes_latent", pop.fluxes.latent), ("fluxes_observed", pop.fluxes), ("luminosities_latent", pop.luminosities.latent)):
        ctx.check_same(C.vals(getattr(pop, k)), C.vals(v), k)
    for k in w.s:
        old = getattr(pop, k)
        try:
            setattr(pop, k, 3.0)
            ctx.check(False, "auxiliary attribute %s overwritten" % k)
        except AttributeError:
            pass
        ctx.check(getattr(pop, k) is old, "auxiliary attribute kept")


def views(ctx, x, obs, lat, det, hid, n, k):
    o, l = C.vals(x), C.vals(x.latent)
    ctx.check(len(o) == n and len(l) == n, "%s: one entry per object" % k)
    for i in range(n):
        ctx.check_eq(o[i], obs[i], "%s of object %d" % (k, i))
        ctx.check_eq(l[i], lat[i], "latent %s of object %d" % (k, i))
    for part, idx, name in ((x.selected, det, "detected"), (x.non_selected, hid, "undetected")):
        p, pl = C.vals(part), C.vals(part.latent)
        ctx.check(len(p) == len(idx) and len(pl) == len(idx), "%s %s: one entry per object" % (name, k))
        for v, vl, i in zip(p, pl, idx):
            ctx.check_eq(v, obs[i], "%s %s" % (name, k))
            ctx.check_eq(vl, lat[i], "latent %s %s" % (name, k))
