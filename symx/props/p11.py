"""A synthesiser survives the dictionary and YAML round trip."""
import copy
import os
import shutil
import tempfile

import numpy as np

from symx import core, h5
from . import common as C

BOUNDS = ["every built-in spatial and luminosity distribution, selection and auxiliary sampler, with all parameters set to arbitrary values within their "
          "declared bounds, with none set and with one of them left unset",
          "nestings of up to five samplers, three deep, shared secondaries and derived luminosities included",
          "dictionary, YAML file, description carried by a population; two round trips in a row"]
ASSUMPTIONS = ["selections work on the quantity of the place they are attached to (flux, distance, sky position, observed value)",
               "parameter values are Python numbers; PyYAML writes and reads a float unchanged (the real library; values go through it as opaque doubles)"]
REACH = ["dict", "yaml", "rate", "steady", "observed", "latent", "secondary", "shared", "derived", "flux selection", "distance selection", "spatial selection",
         "sampler selection", "unset"]

FLUXSEL = ["HardFluxSelection", "SoftFluxSelection"]
GENERIC = ["UnitySelection", "BernoulliSelection", "BoxSelection", "LowerBound", "UpperBound", "SoftSelection"]
LUM = ["ParetoDistribution", "BPLDistribution", "SchechterDistribution", "LogUniLuminiosityDistribution", "LogNormalDistribution", "Log10NormalDistribution",
       "DeltaDistribution"]
AUX = ["DeltaAuxSampler", "NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "ParetoAuxSampler", "PowerLawAuxSampler",
       "BrokenPowerLawAuxSampler", "TruncatedNormalAuxSampler", "TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler", "ViewingAngleSampler"]


def variants(tier):
    out = []
    for how in ("dict", "yaml") if tier == "quick" else ("dict", "yaml", "population"):
        for i, s in enumerate(C.SPATIAL):
            for unset in (0, 1) if how == "dict" else (0,):
                out.append({"how": how, "spatial": s, "lum": LUM[i % len(LUM)], "unset": unset})
        for i, k in enumerate(GENERIC):
            f = FLUXSEL[i % 2] if i < 2 else k
            d = GENERIC[(i + 1) % len(GENERIC)]
            sp = ("GalacticPlaneSelection", "DistanceSelection")[i % 2]
            out.append({"how": how, "flux": f, "dist": d, "sky": sp, "aux": AUX[i], "auxsel": k})
        for i, k in enumerate(AUX):
            if how == "yaml" and tier == "quick":
                break
            out.append({"how": how, "aux": k, "auxsel": GENERIC[(i + 2) % len(GENERIC)], "unset": i % 2})
        for lay in C.LAYOUTS:
            if lay != "none":
                out.append({"how": how, "layout": lay})
    out.append({"how": "population", "layout": "mixed"})
    out.append({"how": "population", "flux": "HardFluxSelection", "dist": "BoxSelection", "sky": "DistanceSelection", "aux": "NormalAuxSampler",
                "auxsel": "UpperBound"})
    return out


def descriptors(o):
    """declared parameters of an object and their bounds"""
    out = {}
    for c in type(o).mro():
        for k, v in c.__dict__.items():
            if hasattr(v, "_vmin") and hasattr(v, "_is_normalization") and k not in out:
                out[k] = v
    return out


FREE = [True]           # observed flags are arbitrary, otherwise they alternate
POSITIVE = [False]      # surveys need strictly positive parameters


def fill(ctx, o, tag, skip=()):
    """set every declared parameter to an arbitrary value within its bounds"""
    for k, d in sorted(descriptors(o).items()):
        if k in skip:
            continue
        kw = {}
        if d._vmin is not None:
            kw["lo"] = d._vmin
        if d._vmax is not None:
            kw["hi"] = d._vmax
        lo, hi = kw.get("lo", 0), kw.get("hi", 5)
        if POSITIVE[0] and kw.get("lo") == 0:
            kw["pos"] = True
        setattr(o, k, ctx.real("%s.%s" % (tag, k), nominal=lo + (hi - lo) * 0.37, **kw))
    return o


def selector(ctx, kind, tag, **use):
    import popsynth.selection_probability as sp
    c = getattr(sp, kind)
    takes = kind in ("BoxSelection", "LowerBound", "UpperBound", "SoftSelection")
    return fill(ctx, c(**use) if takes else c(), tag)


CUSTOM = []


def custom():
    if not CUSTOM:
        CUSTOM.append(_custom())
    return CUSTOM[0]


def _custom():
    """user-defined samplers: one with a fixed name, one with parameters and secondaries, one luminosity source"""
    from popsynth.auxiliary_sampler import AuxiliaryParameter, AuxiliarySampler, DerivedLumAuxSampler

    class Fixed(AuxiliarySampler):
        _auxiliary_sampler_name = "HarnessFixed"
        scale = AuxiliaryParameter(default=2, vmin=0)

        def __init__(self):
            super().__init__("fixed", observed=False, uses_distance=True)

        def true_sampler(self, size):
            self._true_values = np.array([self.scale * (1 + i) for i in range(size)])

    class Plain(AuxiliarySampler):
        _auxiliary_sampler_name = "HarnessPlain"
        mu = AuxiliaryParameter(default=1)
        tau = AuxiliaryParameter(vmin=0, vmax=9)

        def __init__(self, name, observed=True):
            super().__init__(name=name, observed=observed)

        def true_sampler(self, size):
            self._true_values = np.array([self.mu + self.tau * i for i in range(size)])

        def observation_sampler(self, size):
            self._obs_values = self._true_values

    class Lum(DerivedLumAuxSampler):
        _auxiliary_sampler_name = "HarnessLum"
        factor = AuxiliaryParameter(default=3, vmin=0)

        def __init__(self, name="D"):
            super().__init__(name, uses_distance=True)

        def true_sampler(self, size):
            self._true_values = np.array([self.factor * (1 + i) for i in range(size)])

        def observation_sampler(self, size):
            self._obs_values = self._true_values

        def compute_luminosity(self):
            return 1 + self._true_values
    return Fixed, Plain, Lum


def build(ctx, spatial="ZPowerCosmoDistribution", lum="ParetoDistribution", unset=0, flux=None, dist=None, sky=None, aux=None, auxsel=None, layout=None):
    """a synthesiser with symbolic parameters everywhere"""
    import popsynth
    import popsynth.aux_samplers as A
    import popsynth.distributions as D
    from popsynth import PopulationSynth
    from popsynth.utils.cosmology import cosmology  # noqa: F401
    c = getattr(D, spatial)
    if spatial in C.COSMO:
        rate = not bool(ctx.bool("steady"))
        ctx.reach("rate" if rate else "steady")
        sd = c(is_rate=rate)
    else:
        sd = c()
    names = sorted(descriptors(sd))
    fill(ctx, sd, "sd", skip=names[:1] if unset else ())
    if unset:
        ctx.reach("unset")
    lay = C.LAYOUTS[layout] if layout else {}
    ld = None
    if "D" not in lay:
        ld = getattr(D, lum)()
        names = sorted(descriptors(ld))
        fill(ctx, ld, "ld", skip=names[-1:] if unset else ())
    seed = (987, 0, 2 ** 31 + 11)[ctx.choice("seed", 3)] if layout is None and aux is None else 987
    ps = PopulationSynth(sd, luminosity_distribution=ld, seed=seed)
    if flux:
        ctx.reach("flux selection")
        ps.set_flux_selection(selector(ctx, flux, "fs", **({"use_flux": True} if flux not in FLUXSEL else {})))
    if dist:
        ctx.reach("distance selection")
        ps.set_distance_selection(selector(ctx, dist, "ds", use_distance=True))
    if sky:
        ctx.reach("spatial selection")
        ps.add_spatial_selector(selector(ctx, sky, "ss"))
    if aux:
        obs = aux == "ViewingAngleSampler" or bool(ctx.bool("observed"))
        k = getattr(A, aux)
        a = k() if aux == "ViewingAngleSampler" else k(name="quantity", observed=obs)
        ctx.reach("observed" if a.observed else "latent")
        names = sorted(descriptors(a))
        fill(ctx, a, "aux", skip=names[:1] if unset else ())
        if auxsel:
            ctx.reach("sampler selection")
            a.set_selection_probability(selector(ctx, auxsel, "as", use_obs_value=True))
        ps.add_observed_quantity(a)
    if lay:
        Fixed, Plain, Lum = custom()
        kinds = {"A": A.NormalAuxSampler, "B": Plain, "C": A.ParetoAuxSampler, "E": A.TruncatedNormalAuxSampler, "S": Plain, "F": None, "D": None}
        s = {}
        for k in lay:
            if k == "D":
                s[k] = Lum()
            elif kinds[k] is None:
                s[k] = Fixed()
            else:
                s[k] = kinds[k]("q_" + k, observed=bool(ctx.bool("observed_" + k)) if FREE[0] else k in "ACS")
            fill(ctx, s[k], k)
            if k in ("B", "D", "S"):
                s[k].set_selection_probability(selector(ctx, "LowerBound", "sel" + k, use_obs_value=True))
        for k, v in lay.items():
            for c2 in v:
                s[k].set_secondary_sampler(s[c2])
                ctx.reach("secondary")
        for k in lay:
            if not any(k in v for v in lay.values()):
                ps.add_observed_quantity(s[k])
        if layout in ("shared", "bridge"):
            ctx.reach("shared")
        if "D" in lay:
            ctx.reach("derived")
    return ps


def state(v):
    return {k: x for k, x in v._parameter_storage.items() if x is not None}


def same_selector(ctx, a, b, label, use=None):
    ctx.check(type(a) is type(b), "%s: kind %s" % (label, type(b).__name__))
    ctx.check_same(state(b), state(a), label)
    if use:
        ctx.check(bool(getattr(b, use)), "%s: works on its own quantity" % label)
        for o in ("_use_obs_value", "_use_distance", "_use_flux", "_use_luminosity"):
            ctx.check(o == use or not getattr(b, o), "%s: works on no other quantity" % label)


def same_sampler(ctx, a, b, label):
    ctx.check(type(a) is type(b), "%s: kind %s" % (label, type(b).__name__))
    ctx.check(a.name == b.name and a.obs_name == b.obs_name, label + ": name")
    ctx.check(bool(a.observed) == bool(b.observed), label + ": observed flag")
    ctx.check(bool(a.uses_distance) == bool(b.uses_distance), label + ": uses distance")
    ctx.check_same(state(b), state(a), label)
    same_selector(ctx, a.selector, b.selector, label + ": selection", use=None if type(a.selector).__name__ in ("UnitySelection", "BernoulliSelection")
                  else "_use_obs_value")
    x, y = a.secondary_samplers, b.secondary_samplers
    ctx.check(sorted(x) == sorted(y), "%s: secondaries %s" % (label, sorted(y)))
    ctx.check(bool(a.is_secondary) == bool(b.is_secondary) and sorted(a.parents) == sorted(b.parents), "%s: parents %s" % (label, sorted(b.parents)))
    for k in x:
        same_sampler(ctx, x[k], y[k], "%s.%s" % (label, k))


def identities(tops):
    """names of samplers -> identity class, to see which are shared"""
    seen = {}

    def go(s, path):
        seen.setdefault(id(s), set()).add(path)
        for k, v in s.secondary_samplers.items():
            go(v, path + "/" + k)
    for s in tops:
        go(s, s.name)
    return sorted(sorted(v) for v in seen.values())


def tops(ps):
    out = [ps._auxiliary_observations[k] for k in sorted(ps._auxiliary_observations)]
    if ps._has_derived_luminosity:
        out.append(ps._derived_luminosity_sampler)
    return out


def same(ctx, a, b, label):
    ctx.check(int(a._seed) == int(b._seed), label + ": seed")
    for k in ("_spatial_distribution", "_luminosity_distribution"):
        x, y = getattr(a, k), getattr(b, k)
        if x is None:
            ctx.check(y is None, "%s: no %s" % (label, k))
            continue
        ctx.check(type(x) is type(y), "%s: %s is %s" % (label, k, type(y).__name__))
        ctx.check_same(state(y), state(x), "%s: %s" % (label, k))
    if hasattr(a._spatial_distribution, "_is_rate"):
        ctx.check(bool(a._spatial_distribution._is_rate) == bool(b._spatial_distribution._is_rate), label + ": rate flag")
    ctx.check(bool(a._flux_selector_set) == bool(b._flux_selector_set), label + ": flux selection")
    if a._flux_selector_set:
        same_selector(ctx, a._flux_selector, b._flux_selector, label + ": flux selection",
                      "_use_flux" if type(a._flux_selector).__name__ not in ("UnitySelection", "BernoulliSelection") else None)
    ctx.check(bool(a._distance_selector_set) == bool(b._distance_selector_set), label + ": distance selection")
    if a._distance_selector_set:
        same_selector(ctx, a._distance_selector, b._distance_selector, label + ": distance selection",
                      "_use_distance" if type(a._distance_selector).__name__ not in ("UnitySelection", "BernoulliSelection") else None)
    x, y = a._spatial_selector, b._spatial_selector
    ctx.check((x is None) == (y is None), label + ": spatial selection")
    if x is not None:
        same_selector(ctx, x, y, label + ": spatial selection")
    ctx.check(sorted(a._auxiliary_observations) == sorted(b._auxiliary_observations), "%s: attached samplers %s" % (label, sorted(b._auxiliary_observations)))
    ctx.check(bool(a._has_derived_luminosity) == bool(b._has_derived_luminosity), label + ": derived luminosity")
    for s, t in zip(tops(a), tops(b)):
        same_sampler(ctx, s, t, "%s: %s" % (label, s.name))
    ctx.check(identities(tops(a)) == identities(tops(b)), "%s: shared samplers %s" % (label, identities(tops(b))))
    g, h = a.graph, b.graph
    strip = {a._spatial_distribution.name: "SD"}
    if a._luminosity_distribution is not None:
        strip[a._luminosity_distribution.name] = "LD"
    ctx.check(sorted(g.edges) == sorted(h.edges) and sorted(g.nodes) == sorted(h.nodes), label + ": graph")


class Yaml:
    """PyYAML writes a symbolic value as the double of its token"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        if not self.ctx.symbolic:
            return self
        import yaml
        t = self.t = h5.Tokens()
        self.rep = dict(yaml.SafeDumper.yaml_representers)
        yaml.SafeDumper.yaml_representers = dict(self.rep)
        yaml.SafeDumper.yaml_representers[core.S] = lambda d, s: d.represent_float(t.put(s))
        self.con = dict(yaml.SafeLoader.yaml_constructors)
        old = self.con["tag:yaml.org,2002:float"]
        yaml.SafeLoader.yaml_constructors = dict(self.con)
        yaml.SafeLoader.yaml_constructors["tag:yaml.org,2002:float"] = lambda l, n: t.decode(old(l, n))
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            import yaml
            yaml.SafeDumper.yaml_representers = self.rep
            yaml.SafeLoader.yaml_constructors = self.con


def harness(ctx, how, **kw):
    from popsynth import PopulationSynth
    POSITIVE[0] = how == "population"
    FREE[0] = how != "yaml"
    ps = build(ctx, **kw)
    ref = copy.deepcopy(ps.to_dict())
    if how == "dict":
        ctx.reach("dict")
        new = PopulationSynth.from_dict(ps.to_dict())
        same(ctx, ps, new, "rebuilt")
        ctx.check_same(new.to_dict(), ref, "description of the rebuilt synthesiser")
        again = PopulationSynth.from_dict(new.to_dict())
        same(ctx, ps, again, "rebuilt twice")
    elif how == "yaml":
        ctx.reach("yaml")
        tmp = tempfile.mkdtemp(prefix="symx-yaml-")
        try:
            path = os.path.join(tmp, "ps.yml")
            with Yaml(ctx):
                ps.write_to(path)
                new = PopulationSynth.from_file(path)
                same(ctx, ps, new, "read back")
                ctx.check_same(new.to_dict(), ref, "description of the synthesiser read back")
                new.write_to(path)
                same(ctx, ps, PopulationSynth.from_file(path), "written and read twice")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        with C.OpaqueDL(ctx, volume=True):
            n = 0 if kw.get("layout") else 1
            C.stub_distances(ctx, ps._spatial_distribution, n)
            if ps._luminosity_distribution is not None:
                C.stub_luminosities(ctx, ps._luminosity_distribution, n)
            for s in tops(ps):
                stub_sampler(ctx, s)
            pop = ps.draw_survey(n_samples=n)
        same(ctx, ps, PopulationSynth.from_dict(pop.pop_synth), "rebuilt from the population")
        sub = PopulationSynth.from_dict(pop.pop_synth)
        ctx.check_same(sub.to_dict(), ps.to_dict(), "description carried by the population")
    ctx.check_same(ps.to_dict(), ref, "the synthesiser itself is as before")


def stub_sampler(ctx, s):
    """arbitrary values instead of the sampler's own draws (P20 decides these)"""
    for k, v in s.secondary_samplers.items():
        stub_sampler(ctx, v)

    def put(attr):
        def f(size, s=s):
            setattr(s, attr, np.array(list(ctx.array("%s.%s" % (attr, s.name), size, nominal=1.3)), dtype=object if ctx.symbolic else float))
        return f
    s.true_sampler = put("_true_values")
    if s.observed:
        s.observation_sampler = put("_obs_values")
