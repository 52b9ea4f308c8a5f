"""Soft and Bernoulli selections use the documented detection probability."""
from symx import laws as L

BOUNDS = ["2 objects (3 in the thorough tier)", "all positive values and boundaries for logged selections, all reals otherwise, all strengths >= 0, all probabilities in [0, 1], all outcomes of the uniform draws (exact ties excluded)"]
ASSUMPTIONS = ["expit is 1/(1+exp(-x)); a Bernoulli variate is a uniform draw compared with the probability"]
REACH = ["yes", "no"]
QUANT = ["use_obs_value", "use_distance", "use_luminosity", "use_flux"]


def variants(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for q in QUANT:
        for log in (1, 0):
            out.append({"kind": "SoftSelection", "q": q, "log": log, "n": n})
    out.append({"kind": "SoftFluxSelection", "q": "use_flux", "log": 1, "n": n})
    for bar in (0, 1):
        for default in (0, 1):
            out.append({"kind": "BernoulliSelection", "q": "", "log": 0, "bar": bar, "default": default, "n": n + 1})
    out.append({"kind": "SoftSelection", "q": "use_obs_value", "log": 1, "n": n, "bar": 1})
    out.append({"kind": "SoftSelection", "q": "use_luminosity", "log": 1, "n": n, "again": 1})
    return out


def setup_ctx(ctx, kind, q, log, n, bar=0, default=0, again=0):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config.show_progress = bool(bar)


def teardown(ctx):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config.show_progress = False


def harness(ctx, kind, q, log, n, bar=0, default=0, again=0):
    import popsynth.selection_probability as sp
    cls = getattr(sp, kind)
    if kind == "BernoulliSelection":
        sel = cls()
        if default:
            p = 0.5
        else:
            p = ctx.real("p", lo=0, hi=1)
            sel.probability = p
        probs = [p] * n
        sel.select(n)
    else:
        sel = cls() if kind == "SoftFluxSelection" else cls(**{q: True})
        vals = {k: ctx.array(k, n, pos=bool(log), nominal=1.2 + 0.4 * j) for j, k in enumerate(QUANT)}
        b = ctx.real("boundary", pos=bool(log), nominal=1.4)
        s = ctx.real("strength", lo=0, nominal=2)
        sel.boundary, sel.strength = b, s
        if again:
            sel.set_observed_value(ctx.array("old", n, pos=True))
            sel.set_luminosity(ctx.array("oldL", n, pos=True))
            sel.select(n)
            sel.reset()
        sel.set_observed_value(vals["use_obs_value"])
        sel.set_distance(vals["use_distance"])
        sel.set_luminosity(vals["use_luminosity"])
        sel.set_observed_flux(vals["use_flux"])
        mark = len(ctx.draws)
        if log:
            sel.select(n)
        else:
            sel.draw(n, use_log=False)
        v = vals[q]
        ctx.draws = ctx.draws[mark:]
        if log:
            probs = [L.logistic(s * (L.log10(v[i]) - L.log10(b))) for i in range(n)]
        else:
            probs = [L.logistic(s * (v[i] - b)) for i in range(n)]
    flags = list(sel.selection)
    ctx.check(len(flags) == n, "one flag per object")
    flags = [bool(f) for f in flags]
    for f in flags:
        ctx.reach("yes" if f else "no")
    L.bernoulli_match(ctx, flags, [d for d in ctx.draws if d["kind"][0] == "u"], probs, "%s law" % kind)
