"""Auxiliary draws lie in their support and follow the documented law."""
from fractions import Fraction

import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 objects per draw", "all real parameter values within the declared bounds, positive scales and widths, ordered bounds",
          "(broken) power law indices from a fixed list that contains -1, indices below and above -1 and a fractional one",
          "truncated log-normals with a positive lower bound"]
ASSUMPTIONS = ["scipy's truncated normal draws a standard normal between the bounds it is given"]
REACH = ["true", "observed", "latent", "support"]

IDX = ["1", "-2", "-1", "0", "-1/2", "-3/2"]
BPL = [("1", "-2"), ("-3", "-1"), ("-1", "-2")]
BPL_ALL = [(a, b) for a in ("1", "-3", "-1/2", "-1") for b in ("-2", "0", "1", "-1", "-5/2")]
KINDS = ["DeltaAuxSampler", "NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "ParetoAuxSampler",
         "PowerLawAuxSampler", "BrokenPowerLawAuxSampler", "TruncatedNormalAuxSampler", "TruncatedLogNormalAuxSampler",
         "TruncatedLog10NormalAuxSampler", "ViewingAngleSampler"]


def variants(tier):
    out = []
    for k in KINDS:
        for obs in ((True, False) if k != "ViewingAngleSampler" else (False,)):
            if k == "PowerLawAuxSampler":
                for a in IDX if tier == "quick" else IDX + ["2", "-3", "3", "-5/2"]:
                    out.append({"kind": k, "obs": obs, "a": a})
            elif k == "BrokenPowerLawAuxSampler":
                for a, b in BPL if tier == "quick" else BPL_ALL:
                    out.append({"kind": k, "obs": obs, "a": a, "b": b})
            else:
                out.append({"kind": k, "obs": obs})
    return out


def build(ctx, kind, obs, a, b):
    import popsynth.aux_samplers as A
    c = getattr(A, kind)
    s = c() if kind == "ViewingAngleSampler" else c("x", observed=obs)
    p = {}

    def put(name, v):
        setattr(s, name, v)
        p[name] = v
    if kind == "ViewingAngleSampler":
        put("max_angle", ctx.real("max_angle", lo=Fraction(1, 100), hi=180, nominal=50))
        return s, p
    if kind == "DeltaAuxSampler":
        put("xp", ctx.real("xp", nominal=2.5))
    elif kind == "ParetoAuxSampler":
        put("xmin", ctx.real("xmin", pos=True, nominal=1.7))
        put("alpha", ctx.real("alpha", pos=True, nominal=1.3))
    elif kind == "PowerLawAuxSampler":
        put("xmin", ctx.real("xmin", pos=True, nominal=1.2))
        put("xmax", p["xmin"] + ctx.real("dx", pos=True, nominal=3))
        put("alpha", float(Fraction(a)))
    elif kind == "BrokenPowerLawAuxSampler":
        put("xmin", ctx.real("xmin", pos=True, nominal=1.2))
        put("xbreak", p["xmin"] + ctx.real("d1", pos=True, nominal=2))
        put("xmax", p["xbreak"] + ctx.real("d2", pos=True, nominal=5))
        put("alpha", float(Fraction(a)))
        put("beta", float(Fraction(b)))
    else:
        put("mu", ctx.real("mu", nominal=0.4))
        put("tau", ctx.real("tau", pos=True, nominal=0.6))
        if kind.startswith("Trunc"):
            put("lower", ctx.real("lower", pos=True, nominal=0.5) if "Log" in kind else ctx.real("lower", nominal=-0.5))
            put("upper", p["lower"] + ctx.real("width", pos=True, nominal=2))
    put("sigma", ctx.real("sigma", pos=True, nominal=0.3))
    return s, p


def harness(ctx, kind, obs, a="1", b="-2"):
    n = 2
    s, p = build(ctx, kind, obs, a, b)
    if "sigma" not in p:
        p["sigma"] = 1
    if not accepted(ctx, kind, lambda: s.true_sampler(size=n)):
        return
    true = s.true_values
    ctx.reach("true")
    ctx.check(len(true) == n, "one true value per object")
    true = list(np.atleast_1d(true))
    dr = list(ctx.draws)
    law(ctx, kind, n, p, true, dr)
    # the complete draw, on an object of its own
    s, q = build(ctx, kind, obs, a, b)

    def use(s):
        s.draw(size=0)
        s.reset()
    C.earlier(s, q, use)
    mark = len(ctx.draws)
    if not accepted(ctx, kind, lambda: s.draw(size=n)):
        return
    true = list(np.atleast_1d(s.true_values))
    got = list(np.atleast_1d(s.obs_values))
    ctx.check(len(true) == n and len(got) == n, "one value per object")
    dr = ctx.draws[mark:]
    ctx.check(s.observed == (obs and kind != "ViewingAngleSampler"), "observed flag")
    if s.observed:
        ctx.reach("observed")
        zs = dr[-n:]
        ctx.check(len(dr) >= n, "noise draws")
        law(ctx, kind, n, p, true, dr[:-n])
        L.match(ctx, n, zs, lambda i, d: L.norm_alts(d, (got[i] - true[i]) / p["sigma"]), "%s observation noise" % kind)
    else:
        ctx.reach("latent")
        law(ctx, kind, n, p, true, dr)
        for i in range(n):
            ctx.check_eq(got[i], true[i], "unobserved value is the true value")


def accepted(ctx, kind, call):
    """samplers may check their own draws; right on a truncation bound that is left to rounding"""
    mark = len(ctx.draws)
    try:
        call()
        return True
    except AssertionError:
        if not ctx.symbolic:
            for d in ctx.draws[mark:]:
                if d["kind"][0] == "t" and any(abs(d["base"] - e) <= 1e-9 * (1 + abs(e)) for e in d["params"]):
                    return False
        ctx.check(False, "%s: true sampler refused its own draws" % kind)
        return False


def law(ctx, kind, n, p, true, dr):
    if kind == "DeltaAuxSampler":
        for i in range(n):
            ctx.check_eq(true[i], p["xp"], "delta value")
        return
    if kind == "BrokenPowerLawAuxSampler":
        bern = [d for d in dr if d["kind"] == "u:bern"]
        us = [d for d in dr if d["kind"] != "u:bern"]
        a, b, x0, x1, x2 = p["alpha"], p["beta"], p["xmin"], p["xbreak"], p["xmax"]
        lo = L.piece(x0, x1, a)
        hi = L.power(x1, a - b) * L.piece(x1, x2, b)
        ctx.check(len(us) == n and len(bern) == n, "%s draws per object" % kind)
        for i in range(n):
            low = bern[i]["value"] == 1
            ctx.check_eq(bern[i]["params"][0], lo / (lo + hi), "weight of the lower piece")
            F = L.piece_cdf(true[i], x0, x1, a) if low else L.piece_cdf(true[i], x1, x2, b)
            u = us[i]["base"]
            ctx.check_any([[(F, u)], [(F, 1 - u)]], "%s law" % kind)
        return
    for i in range(n):
        if kind == "ParetoAuxSampler":
            ctx.reach("support")
            ctx.check(true[i] >= p["xmin"], "in the support")
        if kind.startswith("Trunc"):
            ctx.reach("support")
            if ctx.symbolic:
                ctx.check(true[i] >= p["lower"], "above the lower bound")
                ctx.check(true[i] <= p["upper"], "below the upper bound")
            else:
                ctx.check(true[i] >= p["lower"] - 1e-9 * abs(p["lower"]), "above the lower bound")
                ctx.check(true[i] <= p["upper"] + 1e-9 * abs(p["upper"]), "below the upper bound")

    def alts(i, d):
        x = true[i]
        if kind == "NormalAuxSampler":
            return L.norm_alts(d, (x - p["mu"]) / p["tau"])
        if kind == "LogNormalAuxSampler":
            return L.norm_alts(d, (L.ln(x) - p["mu"]) / p["tau"])
        if kind == "Log10NormalAuxSampler":
            return L.norm_alts(d, (L.log10(x) - p["mu"]) / p["tau"])
        if kind == "ParetoAuxSampler":
            return L.cdf_alts(d, 1 - L.power(p["xmin"] / x, p["alpha"]))
        if kind == "PowerLawAuxSampler":
            return L.cdf_alts(d, L.piece_cdf(x, p["xmin"], p["xmax"], p["alpha"]))
        if kind == "ViewingAngleSampler":
            return L.cdf_alts(d, (1 - L.cos(x)) / (1 - L.cos(p["max_angle"] * L.pi() / 180)))
        f = {"TruncatedNormalAuxSampler": lambda v: v, "TruncatedLogNormalAuxSampler": L.ln, "TruncatedLog10NormalAuxSampler": L.log10}[kind]
        if d["kind"][0] != "t":
            from symx.core import Unsupported
            raise Unsupported("truncated law from a %s draw" % d["kind"])
        return [((f(x) - p["mu"]) / p["tau"], d["base"])]
    if kind.startswith("Trunc"):
        f = {"TruncatedNormalAuxSampler": lambda v: v, "TruncatedLogNormalAuxSampler": L.ln, "TruncatedLog10NormalAuxSampler": L.log10}[kind]
        for d in dr:
            if d["kind"][0] == "t":
                ctx.check_eq(d["params"][0], (f(p["lower"]) - p["mu"]) / p["tau"], "lower truncation")
                ctx.check_eq(d["params"][1], (f(p["upper"]) - p["mu"]) / p["tau"], "upper truncation")
    L.match(ctx, n, dr, alts, "%s law" % kind)
