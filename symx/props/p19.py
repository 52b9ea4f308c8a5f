"""Luminosity draws follow the documented density."""
from fractions import Fraction

import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 objects per draw", "all real parameter values within the declared bounds, positive scales, Lmin < Lbreak < Lmax",
          "broken power law indices from a fixed list (-1 included)"]
ASSUMPTIONS = ["gamma and the inverse incomplete gamma function are uninterpreted",
               "numerical integrals are two-node rules with arbitrary nodes and weights"]
REACH = ["draw", "phi", "below"]

BPL_ALL = [(a, b) for a in ("1", "-3", "-1/2", "-1") for b in ("-2", "0", "1", "-1", "-5/2")]
DISTS = ["ParetoDistribution", "SchechterDistribution", "LogNormalDistribution", "Log10NormalDistribution",
         "LogUniLuminiosityDistribution", "DeltaDistribution", "BPLDistribution"]


def variants(tier):
    out = []
    for d in DISTS:
        for what in ("draw", "phi"):
            if d == "BPLDistribution":
                # the two indices: concrete, every sign of index + 1 and the
                # exponents for which the pieces stay polynomial or radical
                for a, b in ([("1", "-2"), ("-3", "-1"), ("-1", "0"), ("-3", "1")] if tier == "quick" else BPL_ALL):
                    out.append({"dist": d, "what": what, "a": a, "b": b})
            else:
                out.append({"dist": d, "what": what})
    return out


def build(ctx, dist, a, b):
    import popsynth.distributions as D
    d = getattr(D, dist)()
    p = {}

    def put(name, v):
        setattr(d, name, v)
        p[name] = v
    if dist in ("ParetoDistribution", "SchechterDistribution"):
        put("Lmin", ctx.real("Lmin", pos=True, nominal=1.7))
        put("alpha", ctx.real("alpha", pos=True, nominal=1.3) if dist[0] == "P" else ctx.real("alpha", lo=-0.9, hi=3, nominal=-0.4))
    elif dist in ("LogNormalDistribution", "Log10NormalDistribution"):
        put("mu", ctx.real("mu", nominal=0.4))
        put("tau", ctx.real("tau", pos=True, nominal=0.6))
    elif dist.startswith("LogUni"):
        put("Lmin", ctx.real("Lmin", pos=True, nominal=1.5))
        put("Lmax", p["Lmin"] + ctx.real("dL", pos=True, nominal=9))
    elif dist == "DeltaDistribution":
        put("Lp", ctx.real("Lp", pos=True, nominal=2.5))
    else:
        put("Lmin", ctx.real("Lmin", pos=True, nominal=1.2))
        put("Lbreak", p["Lmin"] + ctx.real("d1", pos=True, nominal=2))
        put("Lmax", p["Lbreak"] + ctx.real("d2", pos=True, nominal=5))
        put("alpha", float(Fraction(a)))
        put("beta", float(Fraction(b)))
    return d, p


def bpl_pieces(p):
    a, b, x0, x1, x2 = p["alpha"], p["beta"], p["Lmin"], p["Lbreak"], p["Lmax"]
    lo = L.piece(x0, x1, a)
    hi = L.power(x1, a - b) * L.piece(x1, x2, b)
    return lo, hi


def harness(ctx, dist, what, a="1", b="-2"):
    d, p = build(ctx, dist, a, b)
    if what == "draw":
        draw(ctx, dist, d, p)
    else:
        phi(ctx, dist, d, p)


def draw(ctx, dist, d, p):
    n = 2
    C.earlier(d, p, lambda d: d.draw_luminosity(size=0))
    mark = len(ctx.draws)
    x = d.draw_luminosity(size=n)
    ctx.reach("draw")
    ctx.check(len(x) == n, "one luminosity per object")
    dr = [q for q in ctx.draws[mark:] if q["kind"] != "u:bern"]
    bern = [q for q in ctx.draws[mark:] if q["kind"] == "u:bern"]
    if dist == "DeltaDistribution":
        for i in range(n):
            ctx.check_eq(x[i], p["Lp"], "delta value")
        return
    if dist == "BPLDistribution":
        lo, hi = bpl_pieces(p)
        w = lo / (lo + hi)
        a, b, x0, x1, x2 = p["alpha"], p["beta"], p["Lmin"], p["Lbreak"], p["Lmax"]
        ctx.check(len(dr) == n and len(bern) in (0, n), "draws per object")
        for i in range(n):
            if not bern:
                from symx.core import Unsupported
                raise Unsupported("single-variate broken power law")
            low = bern[i]["value"] == 1
            v = bern[i]["base"]
            ctx.check_eq(bern[i]["params"][0], w, "weight of the lower piece")
            if low:
                ctx.reach("lower")
                F = L.piece_cdf(x[i], x0, x1, a)
            else:
                ctx.reach("upper")
                F = L.piece_cdf(x[i], x1, x2, b)
            u = dr[i]["base"]
            ctx.check_any([[(F, u)], [(F, 1 - u)]], "inverse of the piece's distribution")
        return
    ctx.check(not bern, "no acceptance draws")
    for i in range(n):
        if dist == "ParetoDistribution":
            ctx.check(x[i] >= p["Lmin"], "in the support", )
        if dist.startswith("Log10") or dist.startswith("LogN"):
            ctx.check(x[i] > 0, "positive")

    def alts(i, q):
        if dist == "ParetoDistribution":
            return L.cdf_alts(q, 1 - L.power(p["Lmin"] / x[i], p["alpha"]))
        if dist == "LogNormalDistribution":
            return L.norm_alts(q, (L.ln(x[i]) - p["mu"]) / p["tau"])
        if dist == "Log10NormalDistribution":
            return L.norm_alts(q, (L.log10(x[i]) - p["mu"]) / p["tau"])
        if dist.startswith("LogUni"):
            return L.cdf_alts(q, (L.ln(x[i]) - L.ln(p["Lmin"])) / (L.ln(p["Lmax"]) - L.ln(p["Lmin"])))
        if dist == "SchechterDistribution":
            return [(x[i] / p["Lmin"], L.gammaincinv(1 + p["alpha"], y)) for y in (q["base"], 1 - q["base"])]
    L.match(ctx, n, dr, alts, "%s law" % dist)


def phi(ctx, dist, d, p):
    ctx.reach("phi")
    n = 1 if dist == "BPLDistribution" else 2
    x = ctx.array("L", n, pos=True, nominal=2.2)
    for i in range(n):
        if dist == "BPLDistribution":
            for k in ("Lmin", "Lbreak", "Lmax"):
                ctx.assume(x[i] != p[k])
        if dist.startswith("LogUni"):
            ctx.assume(x[i] > p["Lmin"])
            ctx.assume(x[i] < p["Lmax"])
    if dist != "BPLDistribution":    # its numerical integral branches on every node
        C.earlier(d, p, lambda d: d.compute_probability(np.array([1.75, 3.0, 5.0])))
    d.compute_probability(x)
    f = d.probability
    ctx.check(len(f) == n, "one density per object")
    for i in range(n):
        y = x[i]
        if dist == "ParetoDistribution":
            if bool(y >= p["Lmin"]):
                ref = p["alpha"] * L.power(p["Lmin"], p["alpha"]) / L.power(y, p["alpha"] + 1)
            else:
                ctx.reach("below")
                ref = 0
        elif dist == "SchechterDistribution":
            ref = L.power(y / p["Lmin"], p["alpha"]) * L.exp(-y / p["Lmin"]) / (p["Lmin"] * L.gamma(1 + p["alpha"]))
        elif dist == "LogNormalDistribution":
            z = (L.ln(y) - p["mu"]) / p["tau"]
            ref = L.exp(-z * z / 2) / (y * p["tau"] * L.sqrt(2 * L.pi()))
        elif dist == "Log10NormalDistribution":
            z = (L.log10(y) - p["mu"]) / p["tau"]
            ref = L.exp(-z * z / 2) / (y * L.ln10() * p["tau"] * L.sqrt(2 * L.pi()))
        elif dist.startswith("LogUni"):
            ref = 1 / (y * (L.ln(p["Lmax"]) - L.ln(p["Lmin"])))
        elif dist == "DeltaDistribution":
            ref = 1 if bool(y == p["Lp"]) else 0
        else:
            def shape(v):
                if bool(v <= p["Lmin"]) or bool(v >= p["Lmax"]):
                    return 0
                if bool(v < p["Lbreak"]):
                    return L.power(v, p["alpha"])
                return L.power(v, p["beta"]) * L.power(p["Lbreak"], p["alpha"] - p["beta"])
            lo, hi = bpl_pieces(p)
            s = shape(y)
            if not ctx.symbolic:
                ctx.check_eq(f[i], s / (lo + hi), "density %d" % i)
                continue
            ctx.check_any([[(f[i], s / (lo + hi))], [(f[i], s / L.quad(shape, p["Lmin"], p["Lmax"]))]], "density %d" % i)
            continue
        ctx.check_eq(f[i], ref, "density %d" % i)
