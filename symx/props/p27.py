"""Invalid attachments are refused without changing the synthesiser."""
import copy

import numpy as np

from . import common as C
from . import p11

BOUNDS = ["all sequences of three (quick: two) operations out of 22 valid and invalid ones, arbitrary parameter values",
          "objects of every wrong kind: other popsynth objects, classes, numbers, strings, nothing"]
ASSUMPTIONS = ["a luminosity source attached after another one replaces it", "spatial selectors are only compared with objects that are no selection at all"]
REACH = ["refused", "accepted", "secondary", "duplicate", "wrong kind"]

OPTS = {"witnesses": 3}


def variants(tier):
    out = [{"first": k, "steps": 2 if tier == "quick" else 3} for k in range(len(OPS))]
    out.append({"first": -1, "steps": 1})
    return out


class World:
    def __init__(self, ctx):
        import popsynth
        import popsynth.aux_samplers as A
        self.ctx, self.n = ctx, 0
        self.Fixed, self.Plain, self.Lum = p11.custom()
        self.A = A
        d, _ = C.spatial(ctx, "ConstantSphericalDistribution", r_max=10.0)
        self.ps = popsynth.PopulationSynth(d, luminosity_distribution=C.pareto(ctx), seed=3)
        self.first = self.plain("x")
        self.model = {"aux": {}, "lum": None, "flux": None, "dist": None, "sky": None}

    def plain(self, name):
        self.n += 1
        s = self.Plain(name)
        s.mu, s.tau = self.ctx.real("mu%d" % self.n), self.ctx.real("tau%d" % self.n, lo=0, hi=9)
        return s

    def lum(self, name):
        self.n += 1
        s = self.Lum(name)
        s.factor = self.ctx.real("factor%d" % self.n, lo=0, hi=9)
        return s

    def sel(self, kind, **use):
        self.n += 1
        return p11.selector(self.ctx, kind, "s%d" % self.n, **use)


def wrong(w, k):
    """objects that are neither samplers, selections nor distributions (of that kind)"""
    import popsynth
    sd, ld = popsynth.ConstantSphericalDistribution(), C.pareto(w.ctx, "w")
    return [None, "x", 3.5, {"x": 1}, object(), sd, ld, w.Plain, popsynth.HardFluxSelection, w.plain("w"), w.sel("HardFluxSelection"), np.zeros(2)][k]


def attach(w, s, ok):
    """expected: ok tells whether it is accepted"""
    add = (w.ps.add_observed_quantity, w.ps.add_auxiliary_sampler)[w.n % 2]
    expect(w, lambda: add(s), ok)
    if ok:
        if isinstance(s, w.Lum):
            w.model["lum"] = s
        else:
            w.model["aux"][s.name] = s


def expect(w, f, ok):
    err = None
    try:
        f()
    except Exception as e:
        err = e
    if ok:
        w.ctx.reach("accepted")
        w.ctx.check(err is None, "a valid attachment is accepted (%s)" % type(err).__name__)
    else:
        w.ctx.reach("refused")
        w.ctx.check(err is not None, "an invalid attachment is refused")


def taken(w, name):
    return name in w.model["aux"] or (w.model["lum"] is not None and w.model["lum"].name == name)


def op_new(w):
    name = ("x", "y")[w.ctx.choice("name%d" % w.n, 2)]
    t = taken(w, name)
    if t:
        w.ctx.reach("duplicate")
    attach(w, w.plain(name), not t)


def op_same(w):
    t = taken(w, "x")
    attach(w, w.first, not t and not w.first.is_secondary)


def op_other_kind(w):
    s = w.A.NormalAuxSampler("x")
    s.mu = w.ctx.real("nm%d" % w.n)
    w.n += 1
    attach(w, s, not taken(w, "x"))


def op_secondary(w):
    w.ctx.reach("secondary")
    p, s = w.plain("p%d" % w.n), w.plain("s%d" % w.n)
    p.set_secondary_sampler(s)
    attach(w, s, False)
    attach(w, p, True)
    attach(w, s, False)


def op_deep_secondary(w):
    w.ctx.reach("secondary")
    p, s, t = w.plain("p%d" % w.n), w.plain("q%d" % w.n), w.plain("r%d" % w.n)
    p.set_secondary_sampler(s)
    s.set_secondary_sampler(t)
    attach(w, t, False)
    attach(w, s, False)
    attach(w, p, True)


def op_shared_secondary(w):
    w.ctx.reach("secondary")
    p, q, s = w.plain("p%d" % w.n), w.plain("q%d" % w.n), w.plain("s%d" % w.n)
    p.set_secondary_sampler(s)
    q.set_secondary_sampler(s)
    attach(w, s, False)
    attach(w, q, True)
    attach(w, p, True)
    attach(w, s, False)


def op_lum_secondary(w):
    w.ctx.reach("secondary")
    l, s = w.lum("lum"), w.plain("z%d" % w.n)
    l.set_secondary_sampler(s)
    attach(w, s, False)
    attach(w, l, not (taken(w, "lum") and w.model["lum"] is None))
    attach(w, s, False)


def op_lum(w):
    name = ("lum", "x")[w.ctx.choice("lname%d" % w.n, 2)]
    t = name in w.model["aux"]
    attach(w, w.lum(name), not t)


def op_wrong_sampler(w):
    w.ctx.reach("wrong kind")
    k = w.ctx.choice("bad%d" % w.n, 11)
    attach(w, wrong(w, k if k < 9 else k + 1), False)


def setter(what, method, kinds, **use):
    def good(w):
        s = w.sel(kinds[w.ctx.choice("sel%d" % w.n, len(kinds))], **use)
        expect(w, lambda: getattr(w.ps, method)(s), True)
        w.model[what] = s

    def bad(w):
        w.ctx.reach("wrong kind")
        k = w.ctx.choice("bad%d" % w.n, 11)
        x = wrong(w, k if k < 10 else 11)
        expect(w, lambda: getattr(w.ps, method)(x), False)
    return good, bad


op_flux, op_bad_flux = setter("flux", "set_flux_selection", ["HardFluxSelection", "SoftFluxSelection", "BernoulliSelection"])
op_dist, op_bad_dist = setter("dist", "set_distance_selection", ["BernoulliSelection", "BernoulliSelection"])
op_sky, op_bad_sky = setter("sky", "add_spatial_selector", ["GalacticPlaneSelection", "DistanceSelection"])


def op_bad_sampler_selection(w):
    w.ctx.reach("wrong kind")
    w.first.set_selection_probability(w.sel("LowerBound", use_obs_value=True))
    before = w.first.selector
    k = w.ctx.choice("bad%d" % w.n, 11)
    x = wrong(w, k if k < 10 else 11)
    expect(w, lambda: w.first.set_selection_probability(x), False)
    w.ctx.check(w.first.selector is before, "the selection of the sampler is kept")


def op_sampler_selection(w):
    s = w.sel("UpperBound", use_obs_value=True)
    expect(w, lambda: w.first.set_selection_probability(s), True)
    w.ctx.check(w.first.selector is s, "the selection of the sampler is the one that was set")


def op_clean(w):
    w.ps.clean(reset=bool(w.ctx.bool("reset%d" % w.n)))
    w.n += 1
    w.model = {"aux": {}, "lum": None, "flux": None, "dist": None, "sky": None}


OPS = [op_new, op_same, op_other_kind, op_secondary, op_deep_secondary, op_shared_secondary, op_lum_secondary, op_lum, op_wrong_sampler, op_flux, op_bad_flux, op_dist,
       op_bad_dist, op_sky, op_bad_sky, op_bad_sampler_selection, op_sampler_selection, op_clean]


def agree(w, label):
    """the synthesiser has exactly what was accepted"""
    ctx, m, ps = w.ctx, w.model, w.ps
    d = ps.to_dict()
    for what, key in (("flux", "flux selection"), ("dist", "distance selection"), ("sky", "spatial selection")):
        s = m[what]
        ctx.check((key in d) == (s is not None), "%s: %s" % (label, key))
        if s is not None:
            ctx.check_same(d[key], {type(s)._selection_name: p11.state(s)}, "%s: %s" % (label, key))
    want = {}

    def put(s):
        for v in s.secondary_samplers.values():
            put(v)
        e = {"type": type(s)._auxiliary_sampler_name, "observed": bool(s.observed), "secondary": list(s.secondary_samplers),
             "selection": {type(s.selector)._selection_name: p11.state(s.selector)}}
        e.update(p11.state(s))
        want[s.name] = e
    for k, s in m["aux"].items():
        put(s)
    if m["lum"] is not None:
        put(m["lum"])
    ctx.check_same(d["auxiliary samplers"], want, "%s: samplers" % label)
    g = ps.graph
    src = m["lum"].name if m["lum"] is not None else ps._luminosity_distribution.name
    nodes = {ps._spatial_distribution.name, "obs_flux", src} | set(want)
    nodes |= {k + "_obs" for k, v in want.items() if v["observed"]}
    nodes |= {ps._luminosity_distribution.name} & set(g.nodes)
    ctx.check(set(g.nodes) == nodes, "%s: graph %s" % (label, sorted(set(g.nodes) ^ nodes)))


def constructor(ctx):
    """distributions of the wrong kind are refused"""
    import popsynth
    w = World(ctx)
    sd, ld = popsynth.ConstantSphericalDistribution(), C.pareto(ctx, "c")
    k = ctx.choice("what", 8)
    ctx.reach("wrong kind")
    bad = [None, "x", 3.5, object(), w.plain("v"), popsynth.ConstantSphericalDistribution, w.sel("HardFluxSelection"), {}][k]
    expect(w, lambda: popsynth.PopulationSynth(bad, luminosity_distribution=ld), False)
    expect(w, lambda: popsynth.PopulationSynth(ld), False)
    expect(w, lambda: popsynth.PopulationSynth(ld, luminosity_distribution=sd), False)
    expect(w, lambda: popsynth.PopulationSynth(sd, luminosity_distribution=sd), False)
    if bad is not None:
        expect(w, lambda: popsynth.PopulationSynth(sd, luminosity_distribution=bad), False)
    ps = popsynth.PopulationSynth(sd, luminosity_distribution=ld, seed=9)
    ctx.check(ps.spatial_distribution is sd and ps.luminosity_distribution is ld and ps._seed == 9, "valid distributions are used")


def harness(ctx, first, steps):
    if first < 0:
        return constructor(ctx)
    w = World(ctx)
    agree(w, "at first")
    for k in range(steps):
        op = OPS[first] if k == 0 else OPS[ctx.choice("op%d" % k, len(OPS))]
        op(w)
        agree(w, "after %s" % op.__name__)
