"""Reported draw probabilities are the product of the active densities."""
import numpy as np

from symx import core, laws as L
from . import common as C

BOUNDS = ["1 or 2 objects", "an arbitrary positive rate density and built-in distributions, all parameter values (star-formation exponents: one pair, all in the thorough tier)", "every proposal accepted (P16 decides rejection)",
          "up to 3 auxiliary quantities (one nested), with trivial and non-trivial selections"]
ASSUMPTIONS = ["integrals are an arbitrary positive two-point rule on the range", "the differential comoving volume is an arbitrary positive function of redshift (P22)",
               "the spiral galaxy is left out: its sky drawing smears the distances after their density is known"]
OPTS = {"witnesses": 3}
REACH = ["spatial", "luminosity", "derived", "auxiliary", "hidden"]


def variants(tier):
    out = []
    for norm in (0, 1):
        for src in ("pareto", "generic", "derived"):
            out.append({"what": "generic", "src": src, "norm": norm, "aux": 0, "flux": 0})
        for aux in (1, 2, 3):
            out.append({"what": "generic", "src": "generic", "norm": norm, "aux": aux, "flux": int(aux == 1), "n": 1 + (aux < 3)})
            out.append({"what": "generic", "src": "derived", "norm": norm, "aux": aux, "flux": 0, "n": 1})
        for s in C.SPATIAL:
            if not s.startswith("Spiral"):
                out.append({"what": s, "src": "generic", "norm": norm, "aux": 0, "flux": 0, "n": 1})
    for k in ("SchechterDistribution", "LogNormalDistribution", "Log10NormalDistribution"):
        out.append({"what": "generic", "src": k, "norm": 0, "aux": 0, "flux": 0, "n": 1})
    if tier != "quick":
        out += [dict(v, free=1) for v in out if v["what"] == "SFRDistribution"]
    out.sort(key=lambda v: (v["what"] == "generic", v["what"][0] not in "SZ"))
    return out


def setup_ctx(ctx, n=2, **k):
    if ctx.symbolic:
        ctx.max_draws = 4 * n    # heights and proposals, sky positions


AMPS = {"generic": "amp", "ConstantSphericalDistribution": "Lambda", "ZPowerSphericalDistribution": "Lambda",
        "SFRDistribution": "r0", "ZPowerCosmoDistribution": "Lambda", "UniformCosmoDistribution": "r0"}


def lumdist(ctx, src):
    from popsynth.distribution import LuminosityDistribution
    if src == "pareto":
        return C.pareto(ctx)
    if src == "generic":
        phi = C.uf(ctx, "phi", lambda l: 1 / (1 + l * l))

        class Lum(LuminosityDistribution):
            _distribution_name = "HarnessLum"

            def __init__(self):
                super().__init__("lum", 1, "l")

            def phi(self, l):
                return phi(l)

            def draw_luminosity(self, size=1):
                raise NotImplementedError
        return Lum()
    import popsynth.distributions as D
    d = getattr(D, src)()
    if src == "SchechterDistribution":
        d.Lmin = ctx.real("Lmin", pos=True, nominal=1.2)
        d.alpha = ctx.real("alpha", pos=True, nominal=1.4)
    else:
        d.mu = ctx.real("mu", nominal=0.3)
        d.tau = ctx.real("tau", pos=True, nominal=0.8)
    return d


def aux(ctx, ps, N, kind, root=None):
    """auxiliary quantities with densities of their own; returns {name: density values that count}"""
    from popsynth.auxiliary_sampler import AuxiliarySampler
    from popsynth.selection_probability import LowerBound

    def make(name, pick):
        vals = ctx.array("v_" + name, N, nominal=1.2)
        pr = ctx.array("p_" + name, N, pos=True, nominal=0.7)

        class A(AuxiliarySampler):
            _auxiliary_sampler_name = "Harness_" + name

            def __init__(self):
                super().__init__(name, observed=False)

            def true_sampler(self, size):
                self._true_values = np.array(list(vals), dtype=object if ctx.symbolic else float)

            def _compute_probability(self):
                return np.array(list(pr), dtype=object if ctx.symbolic else float)
        a = A()
        if pick:
            s = LowerBound(use_obs_value=True, name=name + "_sel")
            s.boundary = ctx.real("b_" + name, nominal=1.0)
            a.set_selection_probability(s)
            active[name] = list(pr)
        return a
    active = {}
    one = make("one", kind != 2)
    if kind == 3:
        # a selected quantity nested under an unselected one
        two, three = make("two", False), make("three", True)
        two.set_secondary_sampler(three)
        one.set_secondary_sampler(two)
    if root is not None:
        root.set_secondary_sampler(one)
    else:
        ps.add_observed_quantity(one)
    return active


def harness(ctx, what, src, norm, aux, flux, n=2, free=0):
    N = n
    from popsynth import PopulationSynth
    from popsynth.auxiliary_sampler import DerivedLumAuxSampler
    with C.OpaqueDL(ctx, volume=True):
        d, p = C.generic(ctx) if what == "generic" else C.spatial(ctx, what)
        if what == "SFRDistribution" and not free:
            d.rise, d.decay = 2.0, 3.0
        ld = None
        if src != "derived":
            ld = lumdist(ctx, src)
            C.stub_luminosities(ctx, ld, N)
        ps = PopulationSynth(d, luminosity_distribution=ld, seed=3)
        root = None
        if src == "derived":
            ctx.reach("derived")
            lum = ctx.array("dl", N, pos=True, nominal=2.0)

            class Derived(DerivedLumAuxSampler):
                _auxiliary_sampler_name = "HarnessDerivedP"

                def __init__(self):
                    super().__init__("derived")

                def true_sampler(self, size):
                    self._true_values = np.array(list(lum), dtype=object if ctx.symbolic else float)

                def compute_luminosity(self):
                    return self._true_values
            root = Derived()
        active = {}
        if aux:
            ctx.reach("auxiliary")
            active = globals()["aux"](ctx, ps, N, aux, root)
        if root is not None:
            ps.add_observed_quantity(root)
        if flux:
            from popsynth.selection_probability import HardFluxSelection
            s = HardFluxSelection()
            s.boundary = ctx.real("boundary", pos=True, nominal=0.2)
            ps.set_flux_selection(s)
        pop = ps.draw_survey(n_samples=N, normalize=bool(norm))
        ctx.reach("spatial")
        got = C.vals(pop.probability)
        ctx.check(len(got) == N, "one probability per object")
        lat = C.vals(pop.probability.latent)
        r = C.vals(pop.distances)
        lums = C.vals(pop.luminosities.latent)
        f = lambda x: d.dNdV(x) * d.differential_volume(x) / d.time_adjustment(x)
        # the documented product
        k = AMPS.get(what)
        if k:
            setattr(d, k, 1)
        I = L.quad(f, 0.0, p["r_max"]) if norm else 1
        for i in range(N):
            want = f(r[i]) / I
            if ld is not None:
                ctx.reach("luminosity")
                want = want * ld.phi(np.array([lums[i]], dtype=object if ctx.symbolic else float))[0]
            for v in active.values():
                want = want * v[i]
            ctx.check_eq(got[i], want, "%s probability of an object" % what)
            ctx.check_eq(lat[i], got[i], "latent probability")
        fl = C.flags(pop.selection)
        if not all(fl):
            ctx.reach("hidden")
        sel = C.vals(pop.probability.selected)
        ctx.check(len(sel) == sum(fl), "probabilities of the detected objects")
        for v, i in zip(sel, [i for i in range(N) if fl[i]]):
            ctx.check_eq(v, got[i], "probability of a detected object")

