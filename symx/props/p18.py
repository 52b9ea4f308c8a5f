"""Observed fluxes are positive log-normal scatter around the latent flux."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 objects (3 in the thorough tier; 1 for box and soft selections, 2 thorough)", "all positive latent fluxes, widths and noise draws", "hard, soft, box, bound and Bernoulli flux selections"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
REACH = ["log10", "natural", "plain", "judged"]

SELS = ["HardFluxSelection", "LowerBound", "UpperBound", "BoxSelection", "SoftFluxSelection", "BernoulliSelection"]


def variants(tier):
    n = 2 if tier == "quick" else 3
    out = []
    for s in [None] + SELS:
        for noise in (None, "log10", "natural", "default"):
            out.append({"sel": s, "noise": noise, "n": 1 if tier == "quick" and s in ("BoxSelection", "SoftFluxSelection") else min(n, 2) if s in ("BoxSelection", "SoftFluxSelection") else n})
    for log10 in (0, 1):
        out.append({"sel": "direct", "noise": "log10" if log10 else "natural", "n": n})
    return out


def harness(ctx, sel, noise, n):
    import popsynth.selection_probability as sp
    ps, r, lum = C.survey(ctx, n)
    sigma = ctx.real("sigma", pos=True, nominal=0.4) if noise else None
    if sel == "direct":
        f = ctx.array("f", n, pos=True)
        f0 = list(f)
        mark = len(ctx.draws)
        g = (ps.draw_log10_fobs if noise == "log10" else ps.draw_log_fobs)(f, sigma, size=n)
        lg = L.log10 if noise == "log10" else L.ln
        ctx.check_same(list(f), f0, "latent fluxes unchanged")
        L.match(ctx, n, ctx.draws[mark:], lambda i, d: L.norm_alts(d, (g[i] - lg(f0[i])) / sigma), "scatter")
        return
    s = None
    if sel:
        cls = getattr(sp, sel)
        s = cls() if sel in ("HardFluxSelection", "SoftFluxSelection", "BernoulliSelection") else cls(use_flux=True)
        b = ctx.real("b", pos=True, nominal=0.05)
        if sel == "BoxSelection":
            s.vmin, s.vmax = b, b + ctx.real("w", pos=True, nominal=0.2)
        elif sel == "BernoulliSelection":
            s.probability = 0.5
        else:
            s.boundary = b
            if sel.startswith("Soft"):
                s.strength = ctx.real("st", pos=True, nominal=2)
        ps.set_flux_selection(s)
    kw = {}
    if noise:
        kw["flux_sigma"] = sigma
    if noise in ("log10", "natural"):
        kw["log10_flux_draw"] = noise == "log10"
    mark = len(ctx.draws)
    pop = ps.draw_survey(n_samples=n, **kw)
    lat, obs = C.vals(pop.fluxes.latent), C.vals(pop.fluxes)
    ctx.check(len(lat) == n and len(obs) == n, "one flux per object")
    for i in range(n):
        ctx.check_eq(lat[i], lum[i] / (4 * L.pi() * (1 + r[i]) * (1 + r[i])), "latent flux")
    if sel and noise:
        ctx.reach("natural" if noise == "natural" else "log10")
        zs = [d for d in ctx.draws[mark:] if d["kind"][0] == "z"]
        lg = L.ln if noise == "natural" else L.log10
        for i in range(n):
            # (in double precision a deviate of a million widths underflows)
            ctx.check(obs[i] > 0 if ctx.symbolic else obs[i] >= 0, "observed flux is positive")
        L.match(ctx, n, zs, lambda i, d: L.norm_alts(d, (lg(obs[i]) - lg(lat[i])) / sigma), "scatter")
        ctx.check_same(pop.flux_sigma, sigma, "recorded flux uncertainty")
    else:
        ctx.reach("plain")
        for i in range(n):
            ctx.check_eq(obs[i], lat[i], "observed flux is the latent flux")
        ctx.check(not [d for d in ctx.draws[mark:] if d["kind"][0] == "z"], "no noise draws")
    got = C.flags(pop.selection)
    for i in range(n):
        if not sel:
            ctx.check(got[i], "no selection, everything detected")
        elif sel in ("HardFluxSelection", "LowerBound"):
            ctx.reach("judged")
            ctx.check_iff(got[i], obs[i] >= b, "selection judges the observed flux", near=(obs[i], b))
        elif sel == "UpperBound":
            ctx.check_iff(got[i], obs[i] <= b, "selection judges the observed flux", near=(obs[i], b))
        elif sel == "BoxSelection":
            if not ctx.symbolic and min(abs(obs[i] - s.vmin), abs(obs[i] - s.vmax)) < 1e-9:
                continue
            ctx.check_iff(got[i], (obs[i] >= s.vmin) & (obs[i] <= s.vmax), "selection judges the observed flux")
    if sel == "SoftFluxSelection":
        # the logistic curve may be drawn as a Bernoulli variable or a uniform
        us = [d for d in ctx.draws[mark:] if d["kind"] == "u:bern"]
        if len(us) == n:
            for i in range(n):
                ctx.check_eq(us[i]["params"][0], L.logistic(s.strength * (L.log10(obs[i]) - L.log10(b))), "soft selection judges the observed flux")
