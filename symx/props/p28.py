"""Ready-made populations pass every argument to the model it names."""
import numpy as np

from . import p13

BOUNDS = ["every ready-made population class, its arguments given by name or by position in the documented order, optional ones present or left out",
          "every IEEE double (NaN, infinities, signed zeros) as value of every parameter argument; six seeds including 0 and 2**32-1; both rate flags",
          "two populations of a class alive at the same time"]
ASSUMPTIONS = ["the argument order, kinds and default values are the table in this module, written from the documentation",
               "a value outside the declared bounds of the parameter is refused (by any exception)"]
REACH = ["built", "refused", "defaults", "transient", "steady", "by position", "by name"]
OPTS = {"witnesses": 3}

SPACE = {
    "HomogeneousSpherical": ("ConstantSphericalDistribution", ["Lambda"], 5, False),
    "ZPowerSpherical": ("ZPowerSphericalDistribution", ["Lambda", "delta"], 5, False),
    "ZPowerCosmo": ("ZPowerCosmoDistribution", ["Lambda", "delta"], 5, True),
    "SFR": ("SFRDistribution", ["r0", "a", "rise", "decay", "peak"], 5, True),
}
LUM = {
    "Pareto": ("ParetoDistribution", ["Lmin", "alpha"]),
    "BPL": ("BPLDistribution", ["Lmin", "alpha", "Lbreak", "beta", "Lmax"]),
    "Schechter": ("SchechterDistribution", ["Lmin", "alpha"]),
    "LogNormal": ("LogNormalDistribution", ["mu", "tau"]),
    "Log10Normal": ("Log10NormalDistribution", ["mu", "tau"]),
}
# what is passed: r_max, seed, rate flag, by position
FORMS = [(1, 1, 1, 1), (1, 1, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0), (1, 0, 0, 1), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 0, 1)]
SEEDS = [0, 1, 7, 1234, 2 ** 31, 2 ** 32 - 1]


def variants(tier):
    out = [{"cls": c} for c in ("SphericalPopulation", "ZPowerSphericalPopulation", "ZPowerCosmoPopulation", "SFRPopulation", "MWRadialPopulation")]
    out += [{"cls": l + s + "Population"} for l in LUM for s in SPACE]
    if tier != "quick":
        out = [dict(v, deep=True) for v in out]
    return out


def describe(cls):
    """-> class, spatial class name, luminosity class name or None, [spatial parameters], [luminosity parameters], default of r_max, is a rate"""
    import popsynth.populations as P
    import popsynth.populations.spatial_populations as SP
    if cls == "MWRadialPopulation":
        return SP.MWRadialPopulation, "SpiralGalaxyDistribution", None, ["rho", "a", "b", "R1", "R0"], [], 20, False
    stem = cls[:-len("Population")]
    for s, (sd, pars, rmax, rate) in SPACE.items():
        bare = "Spherical" if s == "HomogeneousSpherical" else s
        if stem == bare:
            return getattr(P, cls), sd, None, pars, [], rmax, rate
        for l, (ld, lp) in LUM.items():
            if stem == l + s:
                return getattr(P, cls), sd, ld, pars, lp, 10 if l == "Schechter" else rmax, rate
    raise KeyError(cls)


def build(ctx, cls, form, values, seed, rate):
    """values: name -> value of every parameter (r_max last); returns (population or None, expected parameters)"""
    C, sd, ld, sp, lp, rmax, can = describe(cls)
    import popsynth
    names = sp + lp
    use_r, use_seed, use_rate, positional = FORMS[form]
    use_rate = use_rate and can
    ctx.reach("by position" if positional else "by name")
    # the spiral galaxy has documented default values for its shape
    kw = {}
    optional = {"a": 1.64, "b": 4.01, "R1": .55, "R0": 8.5} if sd == "SpiralGalaxyDistribution" else {}
    expect = {}
    skip = bool(optional) and bool(ctx.bool("shape left out"))
    args = []
    for k in names:
        if skip and k in optional:
            expect[k] = optional[k]
            continue
        expect[k] = values[k]
        if positional:
            args.append(values[k])
        else:
            kw[k] = values[k]
    expect["r_max"] = values["r_max"] if use_r else rmax
    by_place = positional and not skip
    if use_r:
        if by_place:
            args.append(values["r_max"])
        else:
            kw["r_max"] = values["r_max"]
    if use_seed:
        if by_place and use_r:
            args.append(seed)
        else:
            kw["seed"] = seed
    if not (use_r and use_seed):
        ctx.reach("defaults")
    lum = None
    if ld is None and bool(ctx.bool("luminosity given")):
        lum = popsynth.DeltaDistribution()
        kw["luminosity_distribution"] = lum
    if use_rate:
        if by_place and use_r and use_seed and ld is not None:
            args.append(rate)
        else:
            kw["is_rate"] = rate
    try:
        ps = C(*args, **kw)
    except Exception:
        ps = None
    return ps, expect, (seed if use_seed else 1234), (rate if use_rate else True), lum


def conds(tab, expect):
    out = []
    for k, v in expect.items():
        _, lo, hi = tab[k]
        if lo is not None:
            out.append(v >= lo)
        if hi is not None:
            out.append(v <= hi)
    return out


def verify(ctx, cls, ps, expect, seed, rate, lum, label):
    import popsynth
    C, sd, ld, sp, lp, rmax, can = describe(cls)
    d = ps.spatial_distribution
    ctx.check(type(d) is getattr(popsynth, sd), "%s spatial kind" % label)
    l = ps.luminosity_distribution
    if ld is None:
        ctx.check(l is lum, "%s luminosity distribution passed on" % label)
    else:
        ctx.check(type(l) is getattr(popsynth, ld), "%s luminosity kind" % label)
    for k in sp + ["r_max"]:
        ctx.check_same(getattr(d, k), expect[k], "%s %s" % (label, k))
        if k != "r_max":
            ctx.check_same(d.params[k], expect[k], "%s %s among the parameters" % (label, k))
    for k in lp:
        ctx.check_same(getattr(l, k), expect[k], "%s %s" % (label, k))
        ctx.check_same(l.params[k], expect[k], "%s %s among the parameters" % (label, k))
    desc = ps.to_dict()
    ctx.check(desc["seed"] == seed, "%s seed" % label)
    ctx.check(sd in desc["spatial distribution"], "%s described kind" % label)
    body = desc["spatial distribution"][sd]
    for k in sp + ["r_max"]:
        ctx.check_same(body[k], expect[k], "%s described %s" % (label, k))
    if ld is not None:
        for k in lp:
            ctx.check_same(desc["luminosity distribution"][ld][k], expect[k], "%s described %s" % (label, k))
    if can:
        z = 1.5
        t = d.time_adjustment(z)
        ctx.check(abs(float(t) - ((1 + z) if rate else 1.0)) < 1e-12, "%s rate flag" % label)
        ctx.reach("transient" if rate else "steady")
    elif sd != "SpiralGalaxyDistribution":
        ctx.check(abs(float(d.time_adjustment(1.5)) - 1) < 1e-12, "%s no time dilation" % label)
    # nothing is selected, attached or added
    ctx.check("flux selection" not in desc and "distance selection" not in desc and "spatial selection" not in desc, "%s no selections" % label)
    ctx.check(not desc.get("auxiliary samplers"), "%s no auxiliary samplers" % label)


def harness(ctx, cls, deep=False):
    import popsynth
    C, sd, ld, sp, lp, rmax, can = describe(cls)
    tab = dict(p13.table(sd))
    if ld is not None:
        tab.update(p13.table(ld))
    names = sp + lp + ["r_max"]
    v1 = {k: ctx.double("%s" % k) for k in names}
    form = ctx.choice("form", len(FORMS))
    seed = SEEDS[form % len(SEEDS)] if not deep else SEEDS[ctx.choice("seed", len(SEEDS))]
    rate = bool(ctx.bool("rate")) if can else True
    ps, expect, s1, r1, lum1 = build(ctx, cls, form, v1, seed, rate)
    cs = conds(tab, expect)
    if ps is None:
        ctx.reach("refused")
        ok = cs[0]
        for c in cs[1:]:
            ok = ok & c
        ctx.check_iff(False, ok, "%s refused although all arguments are within bounds" % cls)
        return
    ctx.reach("built")
    for c in cs:
        ctx.check_iff(True, c, "%s accepted an argument out of bounds" % cls)
    verify(ctx, cls, ps, expect, s1, r1, lum1, cls)
    # a second population of the kind does not disturb the first, and the other way round
    v2 = {k: i + 3.25 for i, k in enumerate(names)}
    kw = dict(v2, seed=SEEDS[(SEEDS.index(seed) + 1) % 6])
    if can:
        kw["is_rate"] = not rate
    qs = C(**kw)
    verify(ctx, cls, qs, v2, kw["seed"], kw.get("is_rate", True), None, cls + " again")
    verify(ctx, cls, ps, expect, s1, r1, lum1, cls + " afterwards")
