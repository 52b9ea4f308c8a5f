"""Shared pieces of the property modules: synthesisers whose inputs are symbolic."""
import numpy as np

SPHERICAL = ["ConstantSphericalDistribution", "ZPowerSphericalDistribution", "SpiralGalaxyDistribution"]
COSMO = ["SFRDistribution", "ZPowerCosmoDistribution", "UniformCosmoDistribution"]
FLAT = ["FlatlandDistribution"]
SPATIAL = SPHERICAL + COSMO + FLAT


def cosmology():
    from popsynth.utils.cosmology import cosmology as c
    return c


class Cosmo:
    """the shared cosmology with other (symbolic) parameters, restored afterwards"""

    def __init__(self, Om=None, h0=None):
        self.v = {k: v for k, v in (("Om", Om), ("h0", h0)) if v is not None}

    def __enter__(self):
        c = cosmology()
        self.old = {k: getattr(c, k) for k in self.v}
        for k, v in self.v.items():
            setattr(c, k, v)
        return c

    def __exit__(self, *a):
        c = cosmology()
        for k, v in self.old.items():
            setattr(c, k, v)


def uf(ctx, name, f, sign="pos"):
    """an arbitrary function: uninterpreted when symbolic, f when replaying; scalars and arrays"""
    if not ctx.symbolic:
        return f
    from symx import core

    def g(z):
        h = lambda v: core.apply_uf(name, v, sign=sign)
        if isinstance(z, np.ndarray):
            zz = z.view(np.ndarray)
            out = np.empty(z.shape, dtype=object)
            for i in np.ndindex(*z.shape):
                out[i] = h(zz[i])
            return out
        return h(z)
    return g


class OpaqueDL:
    """the shared cosmology's luminosity distance (and volume) as an arbitrary positive function (P22 decides the real ones)"""

    def __init__(self, ctx, volume=False):
        self.ctx, self.volume = ctx, volume

    def __enter__(self):
        c = cosmology()
        if self.ctx.symbolic:
            c.luminosity_distance = uf(self.ctx, "dL", None)
            if self.volume:
                c.differential_comoving_volume = uf(self.ctx, "dV", None)
        return c

    def __exit__(self, *a):
        cosmology().__dict__.pop("luminosity_distance", None)
        cosmology().__dict__.pop("differential_comoving_volume", None)


def generic(ctx, normalised=True, amplitude=True):
    """a user-defined spatial distribution: arbitrary density shape, volume and time adjustment"""
    from popsynth.distribution import DistributionParameter, SpatialDistribution
    dens = uf(ctx, "dens", lambda r: 1.3 + np.sin(1.7 * r))
    vol = uf(ctx, "vol", lambda r: 0.7 + r * r)
    tadj = uf(ctx, "tadj", lambda r: 1.1 + 0.6 * r)

    class Generic(SpatialDistribution):
        _distribution_name = "HarnessGeneric"
        amp = DistributionParameter(default=1, vmin=0, is_normalization=normalised)

        def __init__(self):
            super().__init__("generic", 1, "g")

        def dNdV(self, r):
            return self.amp * dens(r)

        def differential_volume(self, r):
            return vol(r)

        def time_adjustment(self, r):
            return tadj(r)

        def transform(self, L, r):
            return L / (1 + r)
    d = Generic()
    p = {"r_max": ctx.real("r_max", pos=True, nominal=4)}
    d.r_max = p["r_max"]
    if amplitude:
        p["amp"] = ctx.real("amp", pos=True, nominal=1.7)
        d.amp = p["amp"]
    return d, p


def spatial(ctx, name, tag="", is_rate=True, r_max=None, values=True):
    """a spatial distribution with symbolic parameter values; returns it and the values"""
    import popsynth.distributions as D
    c = getattr(D, name)
    d = c(is_rate=is_rate) if name in COSMO else c()
    p = {}

    def put(k, v):
        setattr(d, k, v)
        p[k] = v
    put("r_max", ctx.real("r_max" + tag, pos=True, nominal=4) if r_max is None else r_max)
    if not values:
        return d, p
    if name in ("ConstantSphericalDistribution", "FlatlandDistribution"):
        put("Lambda", ctx.real("Lambda" + tag, pos=True, nominal=1.4))
    elif name in ("ZPowerSphericalDistribution", "ZPowerCosmoDistribution"):
        put("Lambda", ctx.real("Lambda" + tag, pos=True, nominal=1.4))
        put("delta", ctx.real("delta" + tag, nominal=-1.3))
    elif name == "SFRDistribution":
        put("r0", ctx.real("r0" + tag, pos=True, nominal=1.1))
        put("a", ctx.real("a" + tag, pos=True, nominal=0.7))
        put("rise", ctx.real("rise" + tag, pos=True, nominal=1.9))
        put("decay", ctx.real("decay" + tag, pos=True, nominal=2.3))
        put("peak", ctx.real("peak" + tag, pos=True, nominal=1.6))
    elif name == "UniformCosmoDistribution":
        put("r0", ctx.real("r0" + tag, pos=True, nominal=1.1))
        put("zmin", ctx.real("zmin" + tag, pos=True, nominal=0.2))
        put("zmax", p["zmin"] + ctx.real("dz" + tag, pos=True, nominal=2.5))
    else:
        put("rho", ctx.real("rho" + tag, pos=True, nominal=1.2))
        put("a", ctx.real("a" + tag, nominal=1.6))
        put("b", ctx.real("b" + tag, nominal=4))
        put("R1", ctx.real("R1" + tag, pos=True, nominal=0.55))
        put("R0", ctx.real("R0" + tag, pos=True, nominal=8.5))
    return d, p


OTHER = dict(Lmin=1.25, Lbreak=2.5, Lmax=7.5, mu=0.25, tau=0.75, sigma=0.375, alpha=1.0, beta=-2.0, Lp=1.75, xp=1.75, xmin=1.25, xbreak=2.5,
             xmax=7.5, lower=0.5, upper=2.25, max_angle=35.0, Lambda=2.75, delta=2.0, r0=2.75, a=2.0, rise=3.0, decay=1.0, peak=1.25, zmin=0.25,
             zmax=2.25, rho=2.75, b=1.0, R1=0.5, R0=7.5)


def earlier(obj, p, call):
    """use the object with other parameter values first: nothing of that may be left over"""
    for k in p:
        if k in OTHER:
            setattr(obj, k, OTHER[k])
    call(obj)
    for k, v in p.items():
        setattr(obj, k, v)


def stub_distances(ctx, d, n, tag="", pos=True):
    """stand-in for the rejection sampler (P16): arbitrary distances and densities"""
    r = ctx.array("r" + tag, n, pos=True, nominal=1.3) if pos else ctx.array("r" + tag, n, nonneg=True, nominal=1.3)
    q = ctx.array("q" + tag, n, pos=True, nominal=0.6)

    def draw_distance(size, normalize=False):
        if size != n:
            ctx.check(False, "%s distances asked for, %s objects" % (size, n))
        d._distances = np.array(list(r), dtype=object if ctx.symbolic else float)
        d._probability = np.array(list(q), dtype=object if ctx.symbolic else float)
    d.draw_distance = draw_distance
    return list(r), list(q)


def stub_luminosities(ctx, ld, n, tag=""):
    """stand-in for a luminosity sampler (P19): arbitrary positive luminosities"""
    l = ctx.array("lum" + tag, n, pos=True, nominal=5.0)
    if type(ld).__name__ == "ParetoDistribution":
        # at or above the minimum, as every draw is (P19): the density has one branch
        l = [ld.Lmin + v for v in l]

    def draw_luminosity(size=1):
        if size != n:
            ctx.check(False, "%s luminosities asked for, %s objects" % (size, n))
        return np.array(list(l), dtype=object if ctx.symbolic else float)
    ld.draw_luminosity = draw_luminosity
    return list(l)


def vals(x):
    """the plain values of an array or simulated variable"""
    a = np.asarray(x)
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
    return [a[i] for i in range(len(a))]


def flags(x):
    return [bool(v) for v in np.asarray(x)]


def pareto(ctx, tag=""):
    import popsynth.distributions as D
    ld = D.ParetoDistribution()
    ld.Lmin = ctx.real("Lmin" + tag, pos=True, nominal=1.3)
    ld.alpha = ctx.real("alpha" + tag, pos=True, nominal=1.7)
    return ld


def survey(ctx, n, spatial_name="ConstantSphericalDistribution", tag="", luminosity=True, seed=11, stub_lum=True, is_rate=True):
    """a synthesiser over stand-in distances and luminosities; returns it, the distances and the luminosities"""
    from popsynth import PopulationSynth
    d, p = spatial(ctx, spatial_name, tag=tag, is_rate=is_rate, r_max=10.0, values=spatial_name in FLAT + SPHERICAL[:1])
    r, q = stub_distances(ctx, d, n, tag)
    lum = None
    ld = None
    if luminosity:
        ld = pareto(ctx, tag)
        if stub_lum:
            lum = stub_luminosities(ctx, ld, n, tag)
    ps = PopulationSynth(d, luminosity_distribution=ld, seed=seed)
    return ps, r, lum


def sampler(ctx, name, n, observed=True, derived=False, uses=(), log=None, cls="", prob=False, reads=()):
    """an auxiliary sampler with arbitrary true and observed values of its own; what it
    sees when it is sampled is recorded in log.  With derived it is a luminosity source."""
    from popsynth.auxiliary_sampler import AuxiliarySampler, DerivedLumAuxSampler
    true = list(ctx.array("t_" + name, n, nominal=1.2))
    obs = list(ctx.array("o_" + name, n, nominal=1.4)) if observed and not derived else true
    lum = list(ctx.array("l_" + name, n, pos=True, nominal=2.6)) if derived else None
    arr = lambda v: np.array(list(v), dtype=object if ctx.symbolic else float)
    log = log if log is not None else []

    def peek(s, what):
        e = {"name": name, "what": what, "secondaries": {}}
        for k, v in s.secondary_samplers.items():
            e["secondaries"][k] = (v.true_values, v.obs_values)
        for k in ("_luminosity", "_distance", "_theta", "_phi", "_ra", "_dec"):
            e[k] = getattr(s, k, None)
        return e

    base = DerivedLumAuxSampler if derived else AuxiliarySampler

    class Sampler(base):
        _auxiliary_sampler_name = "Harness%s_%s" % (cls, name)

        def __init__(self):
            kw = {} if derived else {"observed": observed, "uses_luminosity": "luminosity" in uses,
                                     "uses_sky_position": "sky" in uses}
            super().__init__(name, uses_distance="distance" in uses, **kw)

        def true_sampler(self, size=1):
            e = peek(self, "true")
            e["size"] = size
            log.append(e)
            self._true_values = arr(true[:size])

        def observation_sampler(self, size=1):
            e = peek(self, "obs")
            e["size"] = size
            log.append(e)
            self._obs_values = arr(obs[:size])

        def compute_luminosity(self):
            e = peek(self, "lum")
            e["size"] = n
            log.append(e)
            return arr(lum)
    s = Sampler()
    s.h_true, s.h_obs, s.h_lum = true, obs, lum
    return s


def bound(ctx, tag, kind="LowerBound", **use):
    """a bound selector with an arbitrary boundary"""
    import popsynth.selection_probability as sp
    s = getattr(sp, kind)(name="sel_" + tag, **use)
    s.boundary = ctx.real("b_" + tag, pos=True, nominal=1.3) if "use_flux" in use or "use_luminosity" in use or "use_distance" in use \
        else ctx.real("b_" + tag, nominal=1.3)
    return s


# name -> its secondaries; the tops are attached to the synthesiser, a capital D is a luminosity source
LAYOUTS = {
    "none": {},
    "flat": {"A": [], "B": []},
    "chain": {"A": ["B"], "B": ["C"], "C": []},
    "shared": {"A": ["S"], "B": ["S"], "S": []},
    "tree": {"A": ["B", "C"], "B": [], "C": ["E"], "E": []},
    "derived": {"D": ["E"], "E": ["F"], "F": []},
    "mixed": {"D": ["E"], "E": [], "A": ["B"], "B": []},
    "bridge": {"D": ["E"], "E": [], "A": ["E"]},
    "fork": {"A": ["S"], "B": ["S"], "S": ["T"], "T": []},
}


class World:
    """a synthesiser over stand-in distances, luminosities and auxiliary values"""

    def __init__(self, ctx, layout, n, uses=None, observed=None, spatial_name="ConstantSphericalDistribution", seed=11, tag="",
                 stub_sky=True, attach=True, lum=True, prefix=""):
        self.ctx, self.n, self.layout = ctx, n, layout
        lay = LAYOUTS[layout]
        self.derived = "D" in lay
        self.ps, self.r, self.lum = survey(ctx, n, spatial_name, tag=tag, luminosity=not self.derived, seed=seed)
        if stub_sky:
            self.theta = list(ctx.array("theta" + tag, n, lo=0, hi=3, nominal=1.1))
            self.phi = list(ctx.array("phi" + tag, n, lo=0, hi=6, nominal=2.2))
            d = self.ps._spatial_distribution

            def sky(size):
                d._theta = self.arr(self.theta[:size])
                d._phi = self.arr(self.phi[:size])
            d.draw_sky_positions = sky
        self.log = []
        self.s = {}
        uses, observed = uses or {}, observed or {}
        for k in lay:
            self.s[k] = sampler(ctx, prefix + k, n, derived=k == "D", observed=observed.get(k, True), uses=uses.get(k, ()), log=self.log, cls=layout)
        self.tops = [k for k in lay if not any(k in v for v in lay.values())]
        if attach:
            self.attach()

    def attach(self, link=True, reverse=False):
        lay = LAYOUTS[self.layout]
        if link:
            for k, v in lay.items():
                for c in v:
                    self.s[k].set_secondary_sampler(self.s[c])
        for k in self.tops[::-1] if reverse else self.tops:
            self.ps.add_observed_quantity(self.s[k])
        if self.derived:
            self.lum = self.s["D"].h_lum

    def arr(self, v):
        return np.array(list(v), dtype=object if self.ctx.symbolic else float)

    def obs(self, k):
        return self.s[k].h_obs

    def true(self, k):
        return self.s[k].h_true
