"""Latent flux follows the distance law of the spatial distribution."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 objects (3 in the thorough tier)", "all positive luminosities, all non-negative (cosmological: positive) distances",
          "all matter densities in [0.1, 0.9] and all positive Hubble constants", "every built-in spatial distribution",
          "surveys with a luminosity distribution and with a derived luminosity, with and without flux scatter and selection"]
ASSUMPTIONS = ["the luminosity distance is the one of popsynth.utils.cosmology (decided by P22); in surveys it is any positive function of redshift",
               "in surveys the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["spherical", "cosmological", "flat", "survey"]


def variants(tier):
    n = 2 if tier == "quick" else 3
    out = [{"what": "direct", "name": s, "n": n} for s in C.SPATIAL]
    for s in ("ConstantSphericalDistribution", "ZPowerCosmoDistribution", "FlatlandDistribution") if tier == "quick" else C.SPATIAL[:2] + C.COSMO + C.FLAT:
        for derived in (0, 1):
            for sel in (0, 1):
                out.append({"what": "survey", "name": s, "n": n, "derived": derived, "sel": sel})
    out += [{"what": "direct", "name": s, "n": 1, "real": 1} for s in C.COSMO]
    out += [{"what": "direct", "name": s, "n": 1, "steady": 1} for s in C.COSMO]
    out.append({"what": "scalar", "name": "ConstantSphericalDistribution", "n": 1})
    return out


def flux(name, lum, r, c):
    if name in C.SPHERICAL:
        return lum / (4 * L.pi() * (1 + r) * (1 + r))
    if name in C.COSMO:
        dl = c.luminosity_distance(r)
        return lum / (4 * L.pi() * dl * dl)
    return lum


def harness(ctx, what, name, n, derived=0, sel=0, real=0, steady=0):
    if what == "direct" and name in C.COSMO and real:
        cm = C.Cosmo(ctx.real("Om", lo=0.1, hi=0.9, nominal=0.3), ctx.real("h0", pos=True, nominal=69))
    else:
        cm = C.OpaqueDL(ctx)
    with cm as c:
        ctx.reach("spherical" if name in C.SPHERICAL else "cosmological" if name in C.COSMO else "flat")
        if what in ("direct", "scalar"):
            d, _ = C.spatial(ctx, name, values=False, r_max=10.0, is_rate=not steady)
            lum = ctx.array("L", n, pos=True, nominal=3.0)
            r = ctx.array("r", n, pos=True, nominal=0.8) if name in C.COSMO else ctx.array("r", n, nonneg=True, nominal=0.8)
            l0, r0 = list(lum), list(r)
            d.transform(np.array([2.5] * n), np.array([1.5] * n))
            f = d.transform(lum, r)
            ctx.check(len(f) == n, "one flux per object")
            for i in range(n):
                ctx.check_eq(f[i], flux(name, l0[i], r0[i], c), "%s flux" % name)
            ctx.check_same(list(lum), l0, "luminosities unchanged")
            ctx.check_same(list(r), r0, "distances unchanged")
            if what == "scalar":
                ctx.check_eq(d.transform(l0[0], r0[0]), flux(name, l0[0], r0[0], c), "flux of one object")
            return
        ctx.reach("survey")
        ps, r, lum = C.survey(ctx, n, name, luminosity=not derived)
        if derived:
            lum = derive(ctx, ps, n)
        if sel:
            from popsynth.selection_probability import HardFluxSelection
            s = HardFluxSelection()
            s.boundary = ctx.real("boundary", pos=True, nominal=0.01)
            ps.set_flux_selection(s)
        pop = ps.draw_survey(n_samples=n, flux_sigma=ctx.real("sigma", pos=True, nominal=0.2) if sel else None)
        ctx.check_eq(C.vals(pop.luminosities), lum, "luminosities")
        ctx.check_eq(C.vals(pop.distances), r, "distances")
        ctx.check_eq(C.vals(pop.luminosities.latent), lum, "latent luminosities")
        got = C.vals(pop.fluxes.latent)
        ctx.check(len(got) == n, "one flux per object")
        for i in range(n):
            ctx.check_eq(got[i], flux(name, lum[i], r[i], c), "%s latent flux in a survey" % name)


def derive(ctx, ps, n, tag=""):
    from popsynth.auxiliary_sampler import DerivedLumAuxSampler
    lum = ctx.array("dlum" + tag, n, pos=True, nominal=4.0)

    class Derived(DerivedLumAuxSampler):
        _auxiliary_sampler_name = "HarnessDerived"

        def __init__(self):
            super().__init__("derived")

        def true_sampler(self, size):
            self._true_values = np.array(list(lum), dtype=object if ctx.symbolic else float)

        def compute_luminosity(self):
            return self._true_values
    ps.add_observed_quantity(Derived())
    return list(lum)
