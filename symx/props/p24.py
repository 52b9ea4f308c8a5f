"""A survey is a function of its seed and configuration only."""
import numpy as np

from symx import shims
from . import common as C
from . import p19, p20

BOUNDS = ["pairs of surveys with 1 object (2 where distances are stand-ins)", "arbitrary random numbers of every generator, arbitrary parameter values",
          "at most 2 proposals per survey", "every built-in spatial and luminosity distribution, auxiliary sampler and soft or random selection, with and without progress bars, flux scatter in both forms, sizes drawn or given"]
ASSUMPTIONS = ["seeding a generator fixes all its later numbers, numbers of different generators are unrelated",
               "numba-compiled code has a generator of its own, not affected by numpy's seed"]
OPTS = {"witnesses": 3}
REACH = ["spatial", "luminosity", "auxiliary", "selection", "noise", "size"]


def variants(tier):
    out = []
    for d in C.SPATIAL + ["generic"]:
        for bar in (0, 1) if d in ("generic", "ConstantSphericalDistribution") or tier != "quick" else (0,):
            out.append({"part": "sky" if d.startswith("Spiral") else "spatial", "what": d, "bar": bar})
    if tier != "quick":
        for d in C.SPATIAL:
            out.append({"part": "sky" if d.startswith("Spiral") else "spatial", "what": d, "bar": 0, "free": 1})
    for d in p19.DISTS:
        out.append({"part": "luminosity", "what": d, "bar": 0})
    for a in p20.KINDS:
        out.append({"part": "auxiliary", "what": a, "bar": 0})
        if a in ("NormalAuxSampler", "PowerLawAuxSampler", "ViewingAngleSampler"):
            out.append({"part": "secondary", "what": a, "bar": 0})
    for s in ("BernoulliSelection", "SoftSelection", "SoftFluxSelection"):
        for where in ("flux", "distance", "auxiliary"):
            if (s, where) in (("SoftFluxSelection", "distance"), ("SoftFluxSelection", "auxiliary")):
                continue
            for bar in (0, 1) if s == "BernoulliSelection" else (0,):
                out.append({"part": "selection", "what": s, "where": where, "bar": bar})
    for k in (0, 1):
        out.append({"part": "noise", "what": str(k), "bar": 0})
    for k in (0, 1):
        out.append({"part": "size", "what": str(k), "bar": 0})
    heavy = ("SpiralGalaxyDistribution", "SoftFluxSelection", "SoftSelection", "ZPowerSphericalDistribution", "ZPowerCosmoDistribution", "BPLDistribution")
    out.sort(key=lambda v: v["what"] not in heavy)
    return out


def setup_ctx(ctx, part, **k):
    if ctx.symbolic and part == "spatial":
        ctx.max_draws = 12


def teardown(ctx):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config["show_progress"] = False


def build(ctx, part, what, where=None, free=0, seed=48611):
    """a freshly built synthesiser; inputs of the same name are the same in both"""
    from popsynth import PopulationSynth
    import popsynth.selection_probability as sp
    n = 1 if part in ("spatial", "size", "secondary", "sky") else 2
    real = part in ("spatial", "sky")
    if real and what == "generic":
        d, _ = C.generic(ctx)
    else:
        d, _ = C.spatial(ctx, what if real else "FlatlandDistribution" if part == "selection" else "ConstantSphericalDistribution",
                         values=what != "SFRDistribution" or bool(free))
        if what == "SFRDistribution" and not free:
            d.r0, d.a, d.rise, d.decay, d.peak = 1.0, 0.7, 2.0, 3.0, 1.5
        if real and not free and what != "ConstantSphericalDistribution":
            # the shape of the density does not matter here (the thorough tier keeps it)
            d.dNdV = C.uf(ctx, "dens", lambda r: 1.3 + np.sin(1.7 * r))
            d.transform = lambda L, r: 1.0 * L
    if part != "spatial":
        C.stub_distances(ctx, d, n if part != "size" else 1)
    if part == "sky" and not free:
        def one_distance(size, normalize=False):
            d._distances = np.array([1.5] * size, dtype=object if ctx.symbolic else float)
            d._probability = np.array([0.5] * size, dtype=object if ctx.symbolic else float)
        d.draw_distance = one_distance
    if part == "luminosity":
        ld, _ = p19.build(ctx, what, "1", "-2")
    else:
        ld = C.pareto(ctx)
        C.stub_luminosities(ctx, ld, n)
    ps = PopulationSynth(d, ld, seed=seed)
    kw = {"n_samples": n}
    if part in ("auxiliary", "secondary"):
        s, _ = p20.build(ctx, what, what != "ViewingAngleSampler", "-2", "1") if what != "BrokenPowerLawAuxSampler" else p20.build(ctx, what, True, "1", "-2")
        if part == "secondary":
            top = C.sampler(ctx, "top", n)
            top.set_secondary_sampler(s)
            s = top
        ps.add_observed_quantity(s)
    if part == "selection":
        if what == "BernoulliSelection":
            s = sp.BernoulliSelection()
            s.probability = ctx.real("p", lo=0, hi=1)
        else:
            s = sp.SoftFluxSelection() if what == "SoftFluxSelection" else sp.SoftSelection(
                use_flux=where == "flux", use_distance=where == "distance", use_obs_value=where == "auxiliary")
            s.boundary = ctx.real("boundary", pos=True, nominal=0.7)
            s.strength = 2.0
        if where == "flux":
            ps.set_flux_selection(s)
        elif where == "distance":
            ps.set_distance_selection(s)
        else:
            a = C.sampler(ctx, "x", n)
            a.h_true[:] = [v * v + 1 for v in a.h_true]
            a.h_obs[:] = [v * v + 1 for v in a.h_obs]
            a.set_selection_probability(s)
            ps.add_observed_quantity(a)
    if part == "noise":
        f = C.bound(ctx, "flux", use_flux=True)
        ps.set_flux_selection(f)
        kw.update(flux_sigma=ctx.real("sigma", pos=True, nominal=0.3), log10_flux_draw=what == "1")
    if part == "size":
        kw = {"normalize": what == "1"}
        f = d.draw_distance

        def draw_distance(size, normalize=False):
            dt = object if ctx.symbolic else float
            d._distances = np.array([1.5] * size, dtype=dt)
            d._probability = np.array([0.5] * size, dtype=dt)
        d.draw_distance = draw_distance
        ld.draw_luminosity = lambda size=1: np.array([2.0] * size, dtype=object if ctx.symbolic else float)
    return ps, kw


def contents(pop):
    out = {}
    for k in ("luminosities", "distances", "fluxes", "theta", "phi", "probability"):
        x = getattr(pop, k)
        out[k] = (C.vals(x), C.vals(x.latent))
    for k, q in pop._auxiliary_quantities.items():
        out["aux " + k] = (C.vals(q["obs_values"]), C.vals(q["true_values"]))
    out["known"] = list(np.asarray(pop.known_distances, dtype=object).reshape(-1))
    out["index"] = [int(v) for v in np.asarray(pop._known_distance_idx).reshape(-1)]
    out["selection"] = C.flags(pop.selection)
    out["n"] = pop.n_objects
    out["truth"] = pop.truth
    return out


def harness(ctx, part, what, bar, where=None, free=0):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config["show_progress"] = bool(bar)
    ctx.reach({"secondary": "auxiliary", "sky": "spatial"}.get(part, part))
    ctx.poisson_named = lambda name: 1 + ctx.choice("count_" + name, 2)
    with C.OpaqueDL(ctx, volume=True):
        shims.fresh_stream("before1")
        ps, kw = build(ctx, part, what, where, free)
        mark = len(ctx.draws)
        a = contents(ps.draw_survey(**kw))
        used = len(ctx.draws) - mark
        streams = {d["stream"] for d in ctx.draws[mark:]}
        # anything may have been drawn in between, by anyone
        shims.fresh_stream("before2")
        np.random.uniform()
        np.random.normal()
        ps, kw = build(ctx, part, what, where, free)
        np.random.uniform()
        mark = len(ctx.draws)
        b = contents(ps.draw_survey(**kw))
        ctx.check_same(a["n"], b["n"], "number of objects")
        ctx.check(used == len(ctx.draws) - mark, "as many random numbers")
        for k in a:
            ctx.check_same(a[k], b[k], "second survey: %s" % k)
        known = ctx.notes.get("seed_list", [])
        main = "s%d" % known.index(48611) if 48611 in known else None
        if streams - {main}:
            # other generators than the one of the survey: a survey of another seed shares none of them
            shims.fresh_stream("before3")
            ps, kw = build(ctx, part, what, where, free, seed=23)
            mark = len(ctx.draws)
            ps.draw_survey(**kw)
            other = {d["stream"] for d in ctx.draws[mark:]}
            ctx.check(not streams & other, "every generator follows the seed")
