"""Cleaning with reset leaves no trace of earlier draws."""
import numpy as np

from . import common as C
from . import p10

BOUNDS = ["a survey of 1 or 2 objects, cleaning with reset, a survey of 0 to 3 objects with the same or fewer attachments",
          "attachments: none, two samplers, chain, shared secondary, derived luminosity, both; a flux, distance, spatial or sampler selection, one at a time (all at once in the thorough tier, at one object)"]
ASSUMPTIONS = ["the rejection sampler, the luminosity sampler and the samplers' own draws are replaced by arbitrary values, different in each survey; a "
               "sampler's values depend on everything it is given (secondaries, distance, sky position, luminosity)"]
REACH = ["smaller", "larger", "equal", "again", "fewer", "derived", "cleaned"]

OPTS = {"witnesses": 2}
PHASE = ["1"]
LAY = ("none", "flat", "chain", "shared", "derived", "mixed")


def variants(tier):
    out = []
    full = tier != "quick"
    for i, lay in enumerate(LAY):
        foci = ["flux", "dist"] + (["sky"] if lay in ("none", "mixed") else []) + (["aux"] if lay != "none" else [])
        for j, f in enumerate(foci):
            sizes = [((2, 1), (1, 2))[(i + j) % 2] if lay not in ("shared", "derived") else (1, 1)] if not full else [(2, 1), (1, 2), (2, 2), (1, 3), (2, 0), (3, 1)]
            for n1, n2 in sizes:
                for fewer in (0, 1) if full or j == i % len(foci) else (0,):
                    out.append({"layout": lay, "n1": n1, "n2": n2, "fewer": fewer, "kind": "LowerBound", "focus": f})
    for lay in ("flat", "chain", "shared", "derived", "mixed"):
        # none of the samplers is observed
        out.append({"layout": lay, "n1": 1, "n2": 2 if lay in ("flat", "chain") else 1, "fewer": 0, "kind": "LowerBound", "focus": "flux" if lay == "flat" else "none", "latent": 1})
    for k in ("SoftSelection", "BernoulliSelection", "BoxSelection", "UpperBound"):
        for f in ("flux", "dist", "aux"):
            if not (k == "BernoulliSelection" and f == "flux") and not (k == "SoftSelection" and f != "flux"):
                out.append({"layout": "flat", "n1": 1, "n2": 2 if full else 1, "fewer": 0, "kind": k, "focus": f})
    if full:
        for lay in ("none", "flat", "mixed"):
            out.append({"layout": lay, "n1": 1, "n2": 1, "fewer": 0, "kind": "LowerBound", "focus": "all"})
    return out


def arr(ctx, v):
    return np.array(list(v), dtype=object if ctx.symbolic else float)


def phased(ctx, name, derived, uses, observed=True):
    """a sampler whose values differ from survey to survey and depend on what it is given"""
    from popsynth.auxiliary_sampler import AuxiliarySampler, DerivedLumAuxSampler
    base = DerivedLumAuxSampler if derived else AuxiliarySampler

    class Sampler(base):
        _auxiliary_sampler_name = "HarnessPhased_%s" % name

        def __init__(self):
            kw = {} if derived else {"observed": observed, "uses_luminosity": "lum" in uses, "uses_sky_position": "sky" in uses}
            super().__init__(name, uses_distance="dist" in uses, **kw)

        def h(self, what, size, **kw):
            v = arr(ctx, ctx.array("%s%s_%s" % (what, PHASE[0], name), size, nominal=1.2, **kw))
            for s in self.secondary_samplers.values():
                v = v + 3 * np.asarray(s.true_values) + 5 * np.asarray(s.obs_values)
            for k, f in (("_distance", 7), ("_luminosity", 11), ("_theta", 13)):
                x = getattr(self, k, None)
                if x is not None:
                    v = v + f * np.asarray(x)
            return v

        def true_sampler(self, size=1):
            self._true_values = self.h("t", size)

        def observation_sampler(self, size=1):
            self._obs_values = self.h("o", size) + self._true_values

        def compute_luminosity(self):
            n = len(self._true_values)
            return arr(ctx, ctx.array("l%s_%s" % (PHASE[0], name), n, pos=True, nominal=2.6)) + 2 * self._true_values * self._true_values
    return Sampler()


def stub(ctx, ps):
    d = ps._spatial_distribution

    def distances(size, normalize=False):
        d._distances = arr(ctx, ctx.array("r" + PHASE[0], size, pos=True, nominal=1.3))
        d._probability = arr(ctx, ctx.array("q" + PHASE[0], size, pos=True, nominal=0.6))

    def sky(size):
        d._theta = arr(ctx, ctx.array("th" + PHASE[0], size, lo=0, hi=3, nominal=1.1))
        d._phi = arr(ctx, ctx.array("ph" + PHASE[0], size, lo=0, hi=6, nominal=2.2))
    d.draw_distance, d.draw_sky_positions = distances, sky
    if ps._luminosity_distribution is not None:
        ld = ps._luminosity_distribution
        # at or above the minimum: the density has one branch
        ld.draw_luminosity = lambda size=1: ld.Lmin + arr(ctx, ctx.array("lum" + PHASE[0], size, pos=True, nominal=3.0))


class Parts:
    """a synthesiser and everything that is to be attached to it"""

    def __init__(self, ctx, layout, kind, focus, latent=0):
        import popsynth
        import popsynth.selection_probability as sp
        self.ctx, self.lay = ctx, C.LAYOUTS[layout]
        d, _ = C.spatial(ctx, "ConstantSphericalDistribution", r_max=10.0)
        ld = None if "D" in self.lay else C.pareto(ctx)
        self.ps = popsynth.PopulationSynth(d, luminosity_distribution=ld, seed=11)
        stub(ctx, self.ps)
        uses = {"A": ("dist", "sky"), "B": ("lum",) if "D" not in self.lay else ("dist",), "E": ("dist",)}
        self.s = {k: phased(ctx, k, k == "D", uses.get(k, ()), not latent) for k in self.lay}
        for k, v in self.lay.items():
            for c in v:
                self.s[k].set_secondary_sampler(self.s[c])
        self.tops = [k for k in self.lay if not any(k in v for v in self.lay.values())]

        def sel(tag, kind, **use):
            if kind == "BernoulliSelection":
                s = sp.BernoulliSelection()
                s.probability = ctx.real("p_" + tag, lo=0, hi=1, nominal=0.4)
                return s
            s = getattr(sp, kind)(**use)
            if kind == "BoxSelection":
                s.vmin = ctx.real("v_" + tag, pos=True, nominal=0.8)
                s.vmax = s.vmin + ctx.real("w_" + tag, pos=True, nominal=30)
            else:
                s.boundary = ctx.real("b_" + tag, pos=True, nominal=1.3)
                if kind == "SoftSelection":
                    s.strength = ctx.real("k_" + tag, pos=True, nominal=2.0)
            return s
        on = lambda f: focus in (f, "all")
        self.flux = sel("flux", kind, use_flux=True) if on("flux") else None
        self.dist = sel("dist", kind, use_distance=True) if on("dist") else None
        self.sky = None
        if on("sky"):
            self.sky = popsynth.DistanceSelection()
            self.sky.min_distance, self.sky.max_distance = 0, ctx.real("dmax", pos=True, nominal=1.5)
        if on("aux") and layout != "none":
            k = {"flat": "A", "chain": "C", "shared": "S", "derived": "E", "mixed": "D"}[layout]
            self.s[k].set_selection_probability(sel("sec", kind, use_obs_value=True))

    def attach(self, fewer):
        for k in self.tops:
            if not (fewer and k in ("A", "B")):
                self.ps.add_observed_quantity(self.s[k])
        if self.dist is not None:
            self.ps.set_distance_selection(self.dist)
        if not fewer:
            if self.flux is not None:
                self.ps.set_flux_selection(self.flux)
            if self.sky is not None:
                self.ps.add_spatial_selector(self.sky)


def harness(ctx, layout, n1, n2, fewer, kind, focus, latent=0):
    PHASE[0] = "1"
    w = Parts(ctx, layout, kind, focus, latent)
    w.attach(0)
    w.ps.draw_survey(n_samples=n1)
    w.ps.clean(reset=True)
    ctx.reach("smaller" if n2 < n1 else ("larger" if n2 > n1 else "equal"))
    ctx.reach("fewer" if fewer else "again")
    derived = "D" in w.lay
    # nothing is attached any more
    left = w.ps.to_dict()
    extra = [k for k in ("flux selection", "distance selection", "spatial selection") if k in left]
    ctx.check(not extra, "selections left after cleaning: %s" % extra)
    ctx.check(not left["auxiliary samplers"], "samplers left after cleaning: %s" % sorted(left["auxiliary samplers"]))
    ctx.reach("cleaned")
    if derived:
        ctx.reach("derived")
    else:
        g = w.ps.graph
        want = {w.ps._spatial_distribution.name, w.ps._luminosity_distribution.name, "obs_flux"}
        ctx.check(set(g.nodes) == want, "graph after cleaning: %s" % sorted(g.nodes))
    w.attach(fewer)
    f = Parts(ctx, layout, kind, focus, latent)
    f.attach(fewer)
    PHASE[0] = "2"
    a = w.ps.draw_survey(n_samples=n2)
    b = f.ps.draw_survey(n_samples=n2)
    ctx.check(len(a.selection) == n2, "size of the second survey")
    p10.same(ctx, b, a, "cleaned synthesiser", stan=False)
    PHASE[0] = "3"
    if not fewer and n2 == 1 and layout == "flat" and kind != "SoftSelection" and n1 == 1 and focus == "aux":
        # once more, with another selection left out
        w.ps.clean(reset=True)
        f.ps.clean(reset=True)
        for x in (w, f):
            for k in x.tops:
                x.ps.add_observed_quantity(x.s[k])
        p10.same(ctx, f.ps.draw_survey(n_samples=1), w.ps.draw_survey(n_samples=1), "cleaned twice", stan=False)
