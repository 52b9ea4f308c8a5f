"""Parameters respect their bounds, defaults and instance isolation."""
import numpy as np

BOUNDS = ["histories of 4 assignments over two objects of a class (6 in the thorough tier)",
          "every IEEE double (NaN, infinities, signed zeros, subnormals) as assigned value",
          "every parameter of every built-in distribution, selection and auxiliary sampler, and a class declared in the harness"]
ASSUMPTIONS = ["the declared bounds and defaults are the table in this module, written from the documentation and declarations",
               "a refused assignment may raise any Exception"]
REACH = ["accepted", "refused", "default", "unset", "fixed"]

N = None
# kind, class, {parameter: (default, vmin, vmax)}
TABLE = [
    ("dist", "SFRDistribution", dict(r_max=(10, 0, N), r0=(N, 0, N), a=(N, 0, N), rise=(N, N, N), decay=(N, N, N), peak=(N, 0, N))),
    ("dist", "ZPowerCosmoDistribution", dict(r_max=(10, 0, N), Lambda=(1, 0, N), delta=(N, N, N))),
    ("dist", "UniformCosmoDistribution", dict(r_max=(10, 0, N), r0=(N, 0, N), zmin=(N, 0, N), zmax=(N, 0, N))),
    ("dist", "ConstantSphericalDistribution", dict(r_max=(10, 0, N), Lambda=(1, 0, N))),
    ("dist", "ZPowerSphericalDistribution", dict(r_max=(10, 0, N), Lambda=(1, 0, N), delta=(1, N, N))),
    ("dist", "SpiralGalaxyDistribution", dict(r_max=(10, 0, N), rho=(N, 0, N), a=(N, N, N), b=(N, N, N), R1=(N, N, N), R0=(N, N, N))),
    ("dist", "FlatlandDistribution", dict(r_max=(10, 0, N), Lambda=(1, 0, N))),
    ("dist", "BPLDistribution", dict(Lmin=(N, 0, N), alpha=(N, N, N), Lbreak=(N, 0, N), beta=(N, N, N), Lmax=(N, 0, N))),
    ("dist", "DeltaDistribution", dict(Lp=(0, 0, N))),
    ("dist", "Log10NormalDistribution", dict(mu=(N, N, N), tau=(N, 0, N))),
    ("dist", "LogNormalDistribution", dict(mu=(N, N, N), tau=(N, 0, N))),
    ("dist", "ParetoDistribution", dict(Lmin=(1, 0, N), alpha=(1, N, N))),
    ("dist", "SchechterDistribution", dict(Lmin=(1, 0, N), alpha=(1, N, N))),
    ("dist", "LogUniLuminiosityDistribution", dict(Lmin=(N, 0, N), Lmax=(N, 0, N))),
    ("sel", "BernoulliSelection", dict(probability=(.5, 0, 1))),
    ("sel", "BoxSelection", dict(vmin=(N, N, N), vmax=(N, N, N))),
    ("sel", "LowerBound", dict(boundary=(N, N, N))),
    ("sel", "UpperBound", dict(boundary=(N, N, N))),
    ("sel", "HardFluxSelection", dict(boundary=(N, N, N))),
    ("sel", "SoftSelection", dict(boundary=(N, N, N), strength=(N, 0, N))),
    ("sel", "SoftFluxSelection", dict(boundary=(N, N, N), strength=(N, 0, N))),
    ("sel", "GalacticPlaneSelection", dict(b_limit=(N, 0, 90))),
    ("sel", "DistanceSelection", dict(min_distance=(N, 0, N), max_distance=(N, 0, N))),
    ("aux", "DeltaAuxSampler", dict(xp=(0, N, N), sigma=(1, 0, N))),
    ("aux", "LogNormalAuxSampler", dict(mu=(0, N, N), tau=(1, 0, N), sigma=(1, 0, N))),
    ("aux", "Log10NormalAuxSampler", dict(mu=(0, N, N), tau=(1, 0, N), sigma=(1, 0, N))),
    ("aux", "NormalAuxSampler", dict(mu=(0, N, N), tau=(1, 0, N), sigma=(1, 0, N))),
    ("aux", "ParetoAuxSampler", dict(xmin=(1, 0, N), alpha=(1, 0, N), sigma=(1, 0, N))),
    ("aux", "PowerLawAuxSampler", dict(xmin=(1, 0, N), xmax=(2, 0, N), alpha=(1, N, N), sigma=(1, 0, N))),
    ("aux", "BrokenPowerLawAuxSampler", dict(xmin=(N, 0, N), alpha=(N, N, N), xbreak=(N, 0, N), beta=(N, N, N), xmax=(N, 0, N), sigma=(1, 0, N))),
    ("aux", "TruncatedNormalAuxSampler", None),
    ("aux", "TruncatedLogNormalAuxSampler", None),
    ("aux", "TruncatedLog10NormalAuxSampler", None),
    ("aux", "ViewingAngleSampler", dict(max_angle=(90, 0, 180))),
    ("own", "Own", dict(both=(2, 1, 3), low=(N, -1, N), high=(0, N, 0), fixed=(5, 0, N), plain=(N, N, N))),
]


def variants(tier):
    out = []
    for kind, c, params in TABLE:
        names = list(params if params is not None else TRUNC[c])
        for k in range(0, len(names), 3):
            out.append({"kind": kind, "cls": c, "names": names[k:k + 3], "steps": 3 if tier == "quick" else 5})
    return out


TRUNC = {
    "TruncatedNormalAuxSampler": dict(mu=(0, N, N), tau=(1, 0, N), lower=(N, N, N), upper=(N, N, N), sigma=(1, 0, N)),
    "TruncatedLogNormalAuxSampler": dict(mu=(0, N, N), tau=(1, 0, N), lower=(N, 0, N), upper=(N, 0, N), sigma=(1, 0, N)),
    "TruncatedLog10NormalAuxSampler": dict(mu=(0, N, N), tau=(1, 0, N), lower=(N, 0, N), upper=(N, 0, N), sigma=(1, 0, N)),
}


def table(cls):
    return next((p if p is not None else TRUNC[c]) for _, c, p in TABLE if c == cls)


def make(kind, cls):
    import popsynth
    import popsynth.selection_probability as sp
    from popsynth.utils.registry import distribution_registry
    if kind == "dist":
        return distribution_registry.get_class(cls)() if hasattr(distribution_registry, "get_class") else distribution_registry[cls]
    if kind == "sel":
        return getattr(sp, cls)(use_obs_value=True) if cls in ("BoxSelection", "LowerBound", "UpperBound", "SoftSelection") else getattr(sp, cls)()
    import popsynth.aux_samplers as ax
    c = getattr(ax, cls)
    return c() if cls == "ViewingAngleSampler" else c("x")


def own():
    from popsynth.utils.meta import Parameter, ParameterMeta

    class Own(object, metaclass=ParameterMeta):
        both = Parameter(default=2, vmin=1, vmax=3)
        low = Parameter(vmin=-1)
        high = Parameter(default=0, vmax=0)
        fixed = Parameter(default=5, vmin=0, free=False)
        plain = Parameter()

        def __init__(self):
            self._parameter_storage = {}
    return Own


def get(o, p):
    try:
        return getattr(o, p)
    except Exception:
        return None


def harness(ctx, kind, cls, names, steps):
    if kind == "own":
        C = own()
        a, b = C(), C()
    else:
        a, b = make(kind, cls), make(kind, cls)
    ctx.check(a is not b, "two objects")
    tab = table(cls)
    p = names[ctx.choice("parameter", len(names))]
    default, vmin, vmax = tab[p]
    expect = {}         # (object, name) -> value
    is_fixed = kind == "own" and p == "fixed"
    if kind == "own" and p == "plain":
        # a parameter can be fixed and freed again
        par = C.__dict__["plain"]
        ctx.check(par.free is True and par.fix is False, "free by default")
        par.fix = True
        ctx.check(par.free is False, "fix means not free")
        try:
            a.plain = 1.0
            ctx.check(False, "a fixed parameter was set")
        except Exception:
            ctx.reach("fixed")
        ctx.check(get(a, "plain") is None, "refused by a fixed parameter")
        par.free = True
        ctx.check(par.fix is False, "free means not fixed")
    for k in range(steps):
        who = 0 if k == 0 else int(ctx.bool("object%d" % k))
        o = (a, b)[who]
        v = ctx.double("v%d" % k)
        try:
            setattr(o, p, v)
            ok = True
        except Exception:
            ok = False
        ctx.reach("accepted" if ok else "refused")
        if is_fixed:
            ctx.reach("fixed")
            ctx.check(not ok, "a fixed parameter was set")
        else:
            conds = []
            if vmin is not None:
                conds.append(v >= vmin)
            if vmax is not None:
                conds.append(v <= vmax)
            if not conds:
                ctx.check(ok, "%s.%s takes every value" % (cls, p))
            elif len(conds) == 1:
                ctx.check_iff(ok, conds[0], "%s.%s accepted iff within bounds" % (cls, p))
            else:
                ctx.check_iff(ok, conds[0] & conds[1], "%s.%s accepted iff within bounds" % (cls, p))
        if ok:
            expect[who] = v
        for w, x in enumerate((a, b)):
            got = get(x, p)
            if w in expect:
                ctx.check(got is not None, "%s.%s has a value" % (cls, p))
                ctx.check_same(got, expect[w], "%s.%s reads back" % (cls, p))
            elif default is None:
                ctx.reach("unset")
                ctx.check(got is None, "%s.%s unset raises" % (cls, p))
            else:
                ctx.reach("default")
                ctx.check(got is not None and float(got) == default, "%s.%s default" % (cls, p))
    for w, x in enumerate((a, b)):
        for q in tab:
            if q == p:
                continue
            got = get(x, q)
            d = tab[q][0]
            if d is None:
                ctx.check(got is None, "%s.%s untouched" % (cls, q))
            else:
                ctx.check(got is not None and not hasattr(got, "e") and float(got) == d, "%s.%s untouched" % (cls, q))
