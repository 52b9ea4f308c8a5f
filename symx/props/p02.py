"""Hard selectors accept exactly the inclusive threshold region."""
import numpy as np

BOUNDS = ["2 or 3 objects per selector", "every IEEE double (NaN, infinities, signed zeros, subnormals) for every value and bound"]
ASSUMPTIONS = ["comparisons are decided in the IEEE-754 theory of Z3, not over reals"]
REACH = ["accepted", "rejected", "unity"]

QUANT = ["use_obs_value", "use_distance", "use_luminosity", "use_flux"]


def variants(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for kind in ("LowerBound", "UpperBound", "BoxSelection"):
        for q in QUANT:
            out.append({"kind": kind, "q": q, "n": n})
    out.append({"kind": "HardFluxSelection", "q": "use_flux", "n": n})
    out.append({"kind": "UnitySelection", "q": "use_flux", "n": n})
    # bounds given as ordinary parameter values, through the registry
    for kind in ("LowerBound", "UpperBound", "BoxSelection"):
        out.append({"kind": kind, "q": "use_obs_value", "n": n, "again": 1})
    return out


def harness(ctx, kind, q, n, again=0):
    import popsynth.selection_probability as sp
    from popsynth.selection_probability import generic_selectors, flux_selectors
    cls = getattr(sp, kind)
    sel = cls() if kind in ("HardFluxSelection", "UnitySelection") else cls(**{q: True})
    vals = {k: ctx.doubles(k, n) for k in QUANT}
    if again:
        # an earlier selection on other values must not matter after a reset
        if kind == "BoxSelection":
            sel.vmin, sel.vmax = 0.0, 1.0
        else:
            sel.boundary = 0.5
        sel.set_observed_value(np.array([0.2] * (n + 1)))
        sel.select(n + 1)
        sel.reset()
    if kind == "BoxSelection":
        lo, hi = ctx.double("vmin", nominal=1.0), ctx.double("vmax", nominal=2.0)
        sel.vmin, sel.vmax = lo, hi
    elif kind != "UnitySelection":
        b = ctx.double("boundary", nominal=1.0)
        sel.boundary = b
    sel.set_observed_value(vals["use_obs_value"])
    sel.set_distance(vals["use_distance"])
    sel.set_luminosity(vals["use_luminosity"])
    sel.set_observed_flux(vals["use_flux"])
    sel.select(n)
    s = sel.selection
    ctx.check(len(s) == n, "one flag per object")
    ctx.check(np.asarray(s).dtype == bool, "boolean flags")
    v = vals[q]
    for i in range(n):
        f = bool(s[i])
        if kind == "UnitySelection":
            ctx.reach("unity")
            ctx.check(f, "unity accepts object %d" % i)
            continue
        ctx.reach("accepted" if f else "rejected")
        if kind in ("LowerBound", "HardFluxSelection"):
            c = v[i] >= b
        elif kind == "UpperBound":
            c = v[i] <= b
        else:
            c = (v[i] >= lo) & (v[i] <= hi)
        ctx.check_iff(f, c, "%s %s object %d" % (kind, q, i))
