"""Sky positions are uniform on the sphere and converted consistently."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 objects", "all values of the underlying uniforms, all radii and angles", "every built-in spatial distribution but the spiral galaxy (whose sky positions are drawn from its arms)"]
ASSUMPTIONS = ["in surveys the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["function", "distribution", "survey", "samplers", "xyz"]

N = 2


def variants(tier):
    out = [{"what": "function"}, {"what": "xyz"}, {"what": "samplers", "how": "direct"}, {"what": "samplers", "how": "custom"}]
    out += [{"what": "distribution", "name": s} for s in C.SPATIAL if s != "SpiralGalaxyDistribution"]
    for s in ("ConstantSphericalDistribution", "SFRDistribution") if tier == "quick" else [s for s in C.SPATIAL if s != "SpiralGalaxyDistribution"]:
        out.append({"what": "survey", "name": s})
    return out


def uniform_sky(ctx, th, ph, draws, label):
    n = len(th)
    ctx.check(len(ph) == n, "%s: one azimuth per polar angle" % label)
    for i in range(n):
        ctx.check((th[i] >= 0) & (th[i] <= L.pi()) if ctx.symbolic else -1e-12 <= th[i] <= np.pi + 1e-12, "%s: polar angle between 0 and pi" % label)
        ctx.check((ph[i] >= 0) & (ph[i] <= 2 * L.pi()) if ctx.symbolic else -1e-12 <= ph[i] <= 2 * np.pi + 1e-12, "%s: azimuth between 0 and 2 pi" % label)

    def alts(i, d):
        u = d["base"]
        if i < n:
            return [(L.cos(th[i]), 1 - 2 * u), (L.cos(th[i]), 2 * u - 1)]
        return [(ph[i - n], 2 * L.pi() * u), (ph[i - n], 2 * L.pi() * (1 - u))]
    us = [d for d in draws if d["kind"] == "u"]
    L.match(ctx, 2 * n, us, alts, "%s: uniform on the sphere" % label)


def harness(ctx, what, name=None, how=None):
    from popsynth.utils import spherical_geometry as sg
    ctx.reach(what)
    if what == "function":
        th, ph = sg.sample_theta_phi(N)
        uniform_sky(ctx, list(th), list(ph), ctx.draws, "sample_theta_phi")
        return
    if what == "xyz":
        r = ctx.array("r", N, pos=True, nominal=2)
        th = ctx.array("theta", N, lo=0, hi=3, nominal=1)
        ph = ctx.array("phi", N, lo=0, hi=6, nominal=2)
        x, y, z = sg.xyz(r, th, ph)
        for i in range(N):
            ctx.check_eq(x[i] * x[i] + y[i] * y[i] + z[i] * z[i], r[i] * r[i], "radius preserved")
            ctx.check_eq(x[i], r[i] * L.sin(th[i]) * L.cos(ph[i]), "x")
            ctx.check_eq(y[i], r[i] * L.sin(th[i]) * L.sin(ph[i]), "y")
            ctx.check_eq(z[i], r[i] * L.cos(th[i]), "z")
        return
    if what == "samplers":
        from popsynth.aux_samplers.sky_sampler import SkySampler
        if how == "custom":
            from popsynth.auxiliary_sampler import NonObservedAuxSampler
            import popsynth.aux_samplers as A

            a, b = A.DeltaAuxSampler("ra", observed=False), A.DeltaAuxSampler("dec", observed=False)
            sky = SkySampler(ra_sampler=a)
            ctx.check(sky.ra_sampler is a and sky.dec_sampler is not None and sky.dec_sampler.name == "dec", "given ra sampler kept")
            sky = SkySampler(dec_sampler=b)
            ctx.check(sky.dec_sampler is b and sky.ra_sampler is not None and sky.ra_sampler.name == "ra", "given dec sampler kept")
            sky = SkySampler(ra_sampler=a, dec_sampler=b)
            ctx.check(sky.dec_sampler is b and sky.ra_sampler is a, "given samplers kept")
            return
        sky = SkySampler()
        sky.ra_sampler.draw(N)
        sky.dec_sampler.draw(N)
        ra, dec = list(sky.ra_sampler.obs_values), list(sky.dec_sampler.obs_values)
        dr = ctx.draws
        th = [L.pi() / 2 - v for v in dec]
        uniform_sky(ctx, th, ra, dr, "sky sampler")
        return
    if what == "distribution":
        d, _ = C.spatial(ctx, name, values=False, r_max=10.0)
        d._distances = ctx.array("r", N, pos=True, nominal=1)
        d.draw_sky_positions(N)
        th, ph = list(d.theta), list(d.phi)
        uniform_sky(ctx, th, ph, ctx.draws, name)
        sv = d.spatial_values
        for o in (d, sv):
            for i in range(N):
                ctx.check_eq(o.theta[i], th[i], "polar angle")
                ctx.check_eq(o.phi[i], ph[i], "azimuth")
                ctx.check_eq(o.dec[i], 90 - L.rad2deg(th[i]), "declination in degrees")
                ctx.check_eq(o.ra[i], L.rad2deg(ph[i]), "right ascension in degrees")
        return
    ps, r, lum = C.survey(ctx, N, name)
    with C.OpaqueDL(ctx):
        pop = ps.draw_survey(n_samples=N)
    th, ph = C.vals(pop.theta), C.vals(pop.phi)
    uniform_sky(ctx, th, ph, ctx.draws, "survey")
    for o in (pop, pop.to_sub_population()):
        for i in range(N):
            ctx.check_eq(C.vals(o.theta)[i], th[i], "polar angle")
            ctx.check_eq(C.vals(o.phi)[i], ph[i], "azimuth")
            ctx.check_eq(C.vals(o.dec)[i], 90 - L.rad2deg(th[i]), "declination in degrees")
            ctx.check_eq(C.vals(o.ra)[i], L.rad2deg(ph[i]), "right ascension in degrees")
            ctx.check_eq(C.vals(o.dec.latent)[i], 90 - L.rad2deg(th[i]), "latent declination in degrees")
            ctx.check_eq(C.vals(o.ra.latent)[i], L.rad2deg(ph[i]), "latent right ascension in degrees")

