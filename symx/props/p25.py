"""Secondary quantities are sampled first, once, and for the same objects."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 2 objects (3 in the thorough tier)", "attachments of up to five samplers nested up to three deep, shared ones included, with and without a derived luminosity",
          "every combination of observed and unobserved samplers, every built-in auxiliary sampler in a survey of one object"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["nested", "shared", "derived", "unobserved", "builtin", "distance", "sky", "luminosity"]

BUILTIN = ["NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "TruncatedNormalAuxSampler", "TruncatedLogNormalAuxSampler",
           "TruncatedLog10NormalAuxSampler", "ParetoAuxSampler", "PowerLawAuxSampler", "BrokenPowerLawAuxSampler", "DeltaAuxSampler",
           "ViewingAngleSampler", "RASampler", "DecSampler"]
USES = [("distance",), ("sky",), ("luminosity",), ("distance", "sky", "luminosity")]


def variants(tier):
    out = []
    for lay in ("flat", "chain", "shared", "tree", "derived", "mixed", "bridge"):
        for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
            out.append({"what": "layout", "layout": lay, "n": n})
    for lay in ("chain", "shared", "tree", "mixed", "derived"):
        for u in range(len(USES)):
            out.append({"what": "layout", "layout": lay, "n": 1, "uses": u})
    # only one of the samplers asks for anything
    for lay, one in (("chain", "A"), ("chain", "B"), ("chain", "C"), ("shared", "S"), ("tree", "E"), ("tree", "C"), ("mixed", "B"), ("derived", "F"), ("fork", "T")):
        out.append({"what": "layout", "layout": lay, "n": 1, "uses": 3, "one": one, "latent": 0})
    for lay in ("shared", "fork", "tree"):
        for n in (1, 2):
            # attached in another order than linked
            out.append({"what": "layout", "layout": lay, "n": n, "reverse": 1, "latent": 0})
    out.append({"what": "layout", "layout": "fork", "n": 1})
    for c in ("ConstantSphericalDistribution", "FlatlandDistribution"):
        out.append({"what": "layout", "layout": "tree", "n": 2, "spatial": c, "flux": 1})
    for b in BUILTIN:
        out.append({"what": "builtin", "layout": b, "n": 1})
    return out


def below(lay, k):
    out = []
    for c in lay[k]:
        out += [c] + below(lay, c)
    return out


def harness(ctx, what, layout, n, uses=None, spatial="ConstantSphericalDistribution", flux=0, one=None, latent=1, reverse=0):
    if what == "builtin":
        return builtin(ctx, layout, n)
    lay = C.LAYOUTS[layout]
    observed = {k: not ctx.bool("latent_%s" % k) for k in lay if k != "D"} if n == 1 and latent else {}
    if not all(observed.values()):
        ctx.reach("unobserved")
    us = USES[uses] if uses is not None else ()
    w = C.World(ctx, layout, n, observed=observed, uses={k: us if one in (None, k) else () for k in lay}, spatial_name=spatial, attach=False)
    w.attach(reverse=reverse)
    if flux:
        w.ps.set_flux_selection(C.bound(ctx, "flux", use_flux=True))
    pop = w.ps.draw_survey(n_samples=n)
    if w.derived:
        ctx.reach("derived")
    first = {}
    for j, e in enumerate(w.log):
        first.setdefault((e["name"], e["what"]), j)
    deg = L.rad2deg
    truth = {"_distance": w.r, "_theta": w.theta, "_phi": w.phi, "_ra": [deg(v) for v in w.phi], "_dec": [90 - deg(v) for v in w.theta]}
    derives = set(["D"] + below(lay, "D")) if w.derived else set()
    for k in lay:
        obs = observed.get(k, True) and k != "D"
        want = ["true"] + (["obs"] if obs else []) + (["lum"] if k == "D" else [])
        mine = [e for e in w.log if e["name"] == k]
        ctx.check([e["what"] for e in mine] == want, "%s is sampled once" % k)
        for e in mine:
            ctx.check(e["size"] == n, "%s is sampled for every object" % k)
        t, o = w.s[k].h_true, w.s[k].h_obs if obs else w.s[k].h_true
        for e in mine:
            at = first[(k, e["what"])]
            ctx.check(sorted(e["secondaries"]) == sorted(lay[k]), "%s sees its secondaries" % k)
            for c in lay[k]:
                cobs = observed.get(c, True)
                ctx.check(first[(c, "true")] < at and (not cobs or first[(c, "obs")] < at), "%s is sampled before %s" % (c, k))
                a, b = e["secondaries"][c]
                same(ctx, a, w.s[c].h_true, "true values of %s seen by %s" % (c, k))
                same(ctx, b, w.s[c].h_obs if cobs else w.s[c].h_true, "observed values of %s seen by %s" % (c, k))
                ctx.reach("nested" if lay[c] else "shared" if sum(c in v for v in lay.values()) > 1 else "distance")
            us = (USES[uses] if one in (None, k) else ()) if uses is not None else ()
            for f, v in truth.items():
                if f == "_distance" and "distance" in us or f != "_distance" and "sky" in us:
                    ctx.reach("distance" if f == "_distance" else "sky")
                    same(ctx, e[f], v, "%s%s of %s" % (k, f, k))
            if "luminosity" in us and k not in derives:
                ctx.reach("luminosity")
                same(ctx, e["_luminosity"], w.lum, "luminosities of %s" % k)
        x = getattr(pop, k)
        same(ctx, C.vals(x), o, "observed values of %s reported" % k)
        same(ctx, C.vals(x.latent), t, "true values of %s reported" % k)
        q = pop._auxiliary_quantities[k]
        same(ctx, q["obs_values"], o, "observed values of %s kept" % k)
        same(ctx, q["true_values"], t, "true values of %s kept" % k)
    same(ctx, C.vals(pop.luminosities), w.lum, "luminosities")


def same(ctx, a, b, label):
    ctx.check(a is not None and len(a) == len(b), label)
    for x, y in zip(C.vals(a), b):
        ctx.check_eq(x, y, label)


def builtin(ctx, name, n):
    import popsynth.aux_samplers as A
    from popsynth.aux_samplers import sky_sampler
    ps, r, lum = C.survey(ctx, n)
    ctx.reach("builtin")
    cls = getattr(A, name, None) or getattr(sky_sampler, name)
    s = cls() if name in ("RASampler", "DecSampler", "ViewingAngleSampler") else cls(name="x")
    lo = ctx.real("lower", pos=True, nominal=0.5)
    hi = lo + ctx.real("width", pos=True, nominal=1.5)
    for k, v in (("xmin", 1.0), ("alpha", -2.5), ("xbreak", 2.0), ("beta", -3.0), ("xmax", 4.0), ("lower", lo), ("upper", hi),
                 ("mu", ctx.real("mu", nominal=0.2)), ("tau", ctx.real("tau", pos=True, nominal=0.5)), ("sigma", 0.3), ("value", 2.0), ("max_angle", 45.0)):
        if name == "ParetoAuxSampler" and k == "alpha":
            v = 1.5
        if hasattr(cls, k) or any(k in c.__dict__ for c in cls.__mro__):
            setattr(s, k, v)
    ps.add_observed_quantity(s)
    seen = {}
    for f in ("true_sampler", "observation_sampler"):
        real = getattr(s, f)

        def g(size, real=real, f=f):
            seen[f] = seen.get(f, 0) + 1
            ctx.check(size == n, "sampled for every object")
            return real(size)
        setattr(s, f, g)
    pop = ps.draw_survey(n_samples=n)
    ctx.check(seen.get("true_sampler") == 1 and seen.get("observation_sampler", 0) == int(s.observed), "sampled once")
    x = getattr(pop, s.name)
    same(ctx, C.vals(x), C.vals(s.obs_values), "observed values reported")
    same(ctx, C.vals(x.latent), C.vals(s.true_values), "true values reported")
