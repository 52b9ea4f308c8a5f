"""The number of objects is Poisson with mean equal to the rate integral."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 3 objects", "an arbitrary positive rate density, and every built-in distribution with all its parameter values",
          "two consecutive draws with parameters changed in between", "normalised or not, sample size given or not"]
ASSUMPTIONS = ["integrals are an arbitrary positive two-point rule on the range", "the differential comoving volume is an arbitrary positive function of redshift (P22)",
               "distances and luminosities are stand-ins (P16, P19)"]
REACH = ["poisson", "fixed", "normalised", "again"]


def variants(tier):
    out = []
    for name in ["generic", "generic-plain"] + C.SPATIAL:
        for norm in (0, 1):
            out.append({"name": name, "norm": norm, "n": 0 if name.startswith("Spiral") else 1, "given": 0})
    for norm in (0, 1):
        for n in (0, 1, 3):
            out.append({"name": "generic", "norm": norm, "n": n, "given": 0})
            out.append({"name": "generic", "norm": norm, "n": n, "given": 1})
        out.append({"name": "ConstantSphericalDistribution", "norm": norm, "n": 2, "given": 1})
        out.append({"name": "ZPowerCosmoDistribution", "norm": norm, "n": 3, "given": 1})
    return out


def setup_ctx(ctx, n, **k):
    ctx.poisson_n = n


AMP = {"generic": "amp", "ConstantSphericalDistribution": "Lambda", "ZPowerSphericalDistribution": "Lambda",
       "SFRDistribution": "r0", "ZPowerCosmoDistribution": "Lambda", "UniformCosmoDistribution": "r0"}


def amplitude(d, name):
    """the parameter declared as the normalisation of the distribution"""
    return AMP.get(name)


def harness(ctx, name, norm, n, given):
    from popsynth import PopulationSynth
    with C.OpaqueDL(ctx, volume=True):
        if name.startswith("generic"):
            d, p = C.generic(ctx, normalised=name == "generic")
        else:
            d, p = C.spatial(ctx, name)
        C.stub_distances(ctx, d, n)
        ld = C.pareto(ctx)
        C.stub_luminosities(ctx, ld, n)
        ps = PopulationSynth(d, luminosity_distribution=ld, seed=3)
        once(ctx, ps, d, p, name, norm, n, given)
        if name in ("generic", "ConstantSphericalDistribution", "FlatlandDistribution", "ZPowerCosmoDistribution"):
            # the parameters in force at the next draw count, not those at construction
            ctx.reach("again")
            ps.clean(reset=False)
            p["r_max"] = ctx.real("r_max2", pos=True, nominal=7)
            d.r_max = p["r_max"]
            k = "amp" if name == "generic" else "Lambda"
            # an amplitude of zero is fine as long as there is something left to normalise
            p[k] = ctx.real("amp2", nonneg=name in AMP, pos=name not in AMP, nominal=0.9)
            setattr(d, k, p[k])
            once(ctx, ps, d, p, name, norm, n, given)


def once(ctx, ps, d, p, name, norm, n, given):
    mark = len(ctx.draws)
    pop = ps.draw_survey(n_samples=n if given else None, normalize=bool(norm))
    pd = [x for x in ctx.draws[mark:] if x["kind"] == "poisson"]
    ctx.check(pop.n_objects == n, "number of objects")
    ctx.check(len(pop.distances) == n and len(pop.luminosities) == n and len(pop.fluxes) == n, "one entry per object")
    for k, v in p.items():
        ctx.check_same(getattr(d, k), v, "parameter %s unchanged" % k)
    if given:
        ctx.reach("fixed")
        ctx.check(not pd, "no Poisson draw when the size is given")
        return
    ctx.check(len(pd) == 1, "one Poisson draw")
    mean = pd[0]["params"][0]
    if norm:
        ctx.reach("normalised")
        a = AMP.get(name)
        ctx.check_eq(mean, p[a] if a else 1, "%s mean count of a normalised survey" % name)
        return
    ctx.reach("poisson")
    f = lambda r: d.dNdV(r) * d.differential_volume(r) / d.time_adjustment(r)
    ctx.check_eq(mean, L.quad(f, 0.0, p["r_max"]), "%s mean count is the rate integral" % name)
