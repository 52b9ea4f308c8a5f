"""Writing a population to HDF5 and reading it back is lossless."""
import os
import shutil
import tempfile

import numpy as np

from symx import h5
from . import common as C

BOUNDS = ["surveys of 0 to 2 objects (3 in the thorough tier), every detection outcome and every outcome of the distance selection",
          "attachments: none, two samplers, a chain of three, a derived luminosity with a chain, both",
          "files with one population at the top, groups added to a file that holds another population, sub-populations"]
ASSUMPTIONS = ["HDF5 stores and returns a float64 unchanged (h5py itself is the real library; the values go through it as opaque doubles)",
               "the rejection sampler and the luminosity sampler are replaced by arbitrary values",
               "numpy scalars and Python scalars, and a list of names and a dictionary with these names and empty entries, are the same description"]
REACH = ["detected", "nothing detected", "known", "unknown", "file", "group", "sub", "no luminosity distribution", "spaces", "sigma", "selectors"]


def variants(tier):
    out = []
    for lay in ("none", "flat", "chain", "derived", "mixed"):
        for n in (0, 2) if tier == "quick" else (0, 1, 2, 3):
            out.append({"layout": lay, "n": n, "how": "file", "sigma": int(lay in ("none", "chain")), "sel": 0})
        for how in ("file",) if tier == "quick" else ("file", "group"):
            out.append({"layout": lay, "n": 0 if tier == "quick" else 1, "how": how, "sigma": 1, "sel": 1})
    for lay in ("none", "mixed") if tier == "quick" else ("none", "flat", "chain", "derived", "mixed"):
        out.append({"layout": lay, "n": 1, "how": "group", "sigma": int(lay == "none"), "sel": 0})
        out.append({"layout": lay, "n": 2, "how": "sub", "sigma": int(lay == "none"), "sel": 0})
    for k in C.SPATIAL:
        out.append({"layout": "none", "n": 1 if tier != "quick" else 0, "how": "file", "sigma": 0, "sel": 0, "spatial": k})
    return out


def norm(v):
    """the same description in one notation"""
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v):
        return {x: {} for x in v}
    if isinstance(v, (bytes, np.bytes_)):
        return bytes(v).decode()
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return float(v)
    return v


def arr(v):
    a = np.asarray(v)
    return list((v.view(np.ndarray) if isinstance(v, np.ndarray) else a).reshape(-1))


def same(ctx, a, b, label, stan=True):
    """b (read back) has everything a has"""
    for k in ("luminosities", "luminosities_latent", "distances", "fluxes", "fluxes_latent", "theta", "phi", "ra", "dec", "selection", "known_distances",
              "_known_distance_idx", "_unknown_distance_idx"):
        x, y = arr(getattr(a, k)), arr(getattr(b, k))
        ctx.check_same(y, x, "%s: %s" % (label, k))
    for k in ("luminosities", "distances", "fluxes", "theta", "phi"):
        ctx.check_same(arr(getattr(b, k).latent), arr(getattr(a, k).latent), "%s: latent %s" % (label, k))
        ctx.check_same(arr(getattr(b, k).selected), arr(getattr(a, k).selected), "%s: selected %s" % (label, k))
    ctx.check((a.probability is None) == (b.probability is None), label + ": probability kept")
    if a.probability is not None:
        ctx.check_same(arr(b.probability), arr(a.probability), label + ": probability")
    ctx.check(np.asarray(b.selection).dtype == bool, label + ": selection is boolean")
    for k in ("n_objects", "n_detections", "n_non_detections", "has_detections"):
        ctx.check(int(getattr(a, k)) == int(getattr(b, k)), "%s: %s" % (label, k))
    for k in ("spatial_parameters", "luminosity_parameters", "truth", "pop_synth", "_model_spaces"):
        ctx.check_same(norm(getattr(b, k)), norm(getattr(a, k)), "%s: %s" % (label, k))
    for k in ("flux_sigma", "_r_max", "_n_model", "_seed", "_name", "_spatial_form", "_lf_form"):
        ctx.check_same(norm(getattr(b, k)), norm(getattr(a, k)), "%s: %s" % (label, k))
    q = a._auxiliary_quantities
    ctx.check(sorted(q) == sorted(b._auxiliary_quantities), "%s: auxiliary quantities %s" % (label, sorted(b._auxiliary_quantities)))
    for k in q:
        for p in ("true_values", "obs_values"):
            ctx.check_same(arr(b._auxiliary_quantities[k][p]), arr(q[k][p]), "%s: %s %s" % (label, k, p))
        x, y = getattr(a, k), getattr(b, k)
        ctx.check_same(arr(y), arr(x), "%s: %s" % (label, k))
        ctx.check_same(arr(y.latent), arr(x.latent), "%s: latent %s" % (label, k))
        ctx.check_same(arr(y.selected), arr(x.selected), "%s: selected %s" % (label, k))
    g, h = a.graph, b.graph
    if g is not None:
        ctx.check(h is not None and h.is_directed() == g.is_directed(), label + ": directed graph")
        ctx.check(sorted(g.nodes) == sorted(h.nodes), "%s: nodes %s" % (label, sorted(h.nodes)))
        ctx.check(sorted(g.edges) == sorted(h.edges), "%s: edges %s" % (label, sorted(h.edges)))
    if stan:
        ctx.check_same(norm(b.to_stan_data()), norm(a.to_stan_data()), label + ": Stan data")


def survey(ctx, layout, n, sigma, sel, spatial="ConstantSphericalDistribution", tag=""):
    w = C.World(ctx, layout, n, tag=tag, spatial_name=spatial, prefix=tag, seed=20000003)
    d = w.ps._spatial_distribution
    d.r_max = 10.3
    if spatial not in ("ConstantSphericalDistribution", "FlatlandDistribution", "ZPowerSphericalDistribution", "SpiralGalaxyDistribution"):
        r = d.r_max
        for k, v in C.spatial(ctx, spatial, tag="2" + tag)[1].items():
            if k != "r_max":
                setattr(d, k, v)
    s = C.bound(ctx, "flux" + tag, use_flux=True)
    w.ps.set_flux_selection(s)
    w.ps.set_distance_selection(C.bound(ctx, "dist" + tag, use_distance=True))
    if sel:
        import popsynth
        p = popsynth.GalacticPlaneSelection()
        p.b_limit = ctx.real("b_limit" + tag, pos=True, hi=89, nominal=12.0)
        w.ps.add_spatial_selector(p)
        for k in w.s:
            w.s[k].set_selection_probability(C.bound(ctx, "sel%s%s" % (tag, k), "UpperBound", use_obs_value=True))
        ctx.reach("selectors")
    a, b = ctx.real("start" + tag, pos=True, nominal=1.5), ctx.real("span" + tag, pos=True, nominal=3)
    w.ps._n_model = 3
    w.ps.add_model_space("logspace", a, a + b)
    w.ps.add_model_space("linspace", a, a + b, log=False)
    ctx.reach("spaces")
    sg = ctx.real("sigma" + tag, pos=True, nominal=0.3) if sigma else None
    ctx.reach("sigma") if sigma else None
    return w, w.ps.draw_survey(n_samples=n, flux_sigma=sg)


def harness(ctx, layout, n, how, sigma, sel, spatial="ConstantSphericalDistribution"):
    from popsynth import Population
    tmp = tempfile.mkdtemp(prefix="symx-h5-")
    opaque = C.OpaqueDL(ctx, volume=True)
    opaque.__enter__()
    try:
        w, pop = survey(ctx, layout, n, sigma, sel, spatial)
        sl = C.flags(pop.selection)
        ctx.reach("detected" if any(sl) else "nothing detected")
        if len(pop.known_distances):
            ctx.reach("known")
        if len(pop._unknown_distance_idx):
            ctx.reach("unknown")
        if w.derived:
            ctx.reach("no luminosity distribution")
        path = os.path.join(tmp, "pop.h5")
        with h5.Symbolic(ctx):
            if how == "sub":
                if not any(sl):
                    return
                ctx.reach("sub")
                pop = pop.to_sub_population()
            before = arr(pop.luminosities) + arr(pop.fluxes) + arr(pop.fluxes_latent) + arr(pop.distances)
            if how in ("file", "sub"):
                ctx.reach("file")
                pop.writeto(path)
                same(ctx, pop, Population.from_file(path), "file")
                pop.writeto(path)
                same(ctx, pop, Population.from_file(path), "written twice")
            else:
                ctx.reach("group")
                w2, other = survey(ctx, "flat", 1, 0, 0, tag="x")
                other.writeto(path)
                old = h5.dump(path)
                pop.addto(path, "first")
                other.addto(path, "second")
                pop.addto(path, "deep/third")
                new = h5.dump(path)
                for k, v in old.items():
                    ctx.check(k in new, "%s is still in the file" % k)
                    ctx.check_same(norm(new[k][0]), norm(v[0]), "attributes of %s" % k)
                    ctx.check_same(norm(new[k][1]), norm(v[1]), "contents of %s" % k)
                extra = [k for k in new if k not in old and k.split("/")[0] not in ("first", "second", "deep")]
                ctx.check(not extra, "nothing else was added: %s" % extra)
                same(ctx, pop, Population.from_group(path, "first"), "first group")
                same(ctx, other, Population.from_group(path, "second"), "second group")
                same(ctx, pop, Population.from_group(path, "deep/third"), "nested group")
                same(ctx, other, Population.from_file(path), "top of the file")
            ctx.check_same(arr(pop.luminosities) + arr(pop.fluxes) + arr(pop.fluxes_latent) + arr(pop.distances), before, "writing leaves the population alone")
    finally:
        opaque.__exit__()
        shutil.rmtree(tmp, ignore_errors=True)
