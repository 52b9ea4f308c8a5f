"""Rebuilding from a description does not consume the description."""
import copy

import numpy as np

from . import common as C
from . import p11

BOUNDS = ["descriptions with every optional section absent, empty, without parameters and with arbitrary parameter values",
          "secondaries given as nothing, one name, a list, a dictionary; up to three samplers and a luminosity source",
          "three uses of the same description, with changes to the synthesisers built in between"]
ASSUMPTIONS = ["parameter values are within their declared bounds"]
REACH = ["none", "null", "bare", "params", "population", "derived", "changed"]

# presence of: flux selection, distance selection, spatial selection, sampler selection (0 absent, 1 null or without parameters, 2 with parameters)
FORMS = [(0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (3, 2, 0, 1), (2, 3, 3, 0), (0, 1, 2, 2)]
SECOND = ["absent", "null", "name", "list", "dict"]


def variants(tier):
    out = []
    for i, f in enumerate(FORMS):
        for sec in SECOND if tier != "quick" else (SECOND[i % 5], SECOND[(i + 2) % 5]):
            out.append({"form": list(f), "secondary": sec, "derived": i % 2, "init": i % 3})
    for lay in ("none", "shared", "mixed", "bridge"):
        out.append({"layout": lay})
        if lay in ("none", "mixed"):
            out.append({"layout": lay, "population": 1})
    return out


def section(ctx, k, name, pars, tag):
    """a selection section in one of its forms, {} when absent"""
    if k == 0:
        ctx.reach("none")
        return {}
    if k == 1:
        ctx.reach("null")
        return {tag: None}
    if k == 3:
        ctx.reach("bare")
        return {tag: {"UnitySelection": None}}
    ctx.reach("params")
    return {tag: {name: {p: ctx.real("%s.%s" % (tag, p), **kw) for p, kw in pars.items()}}}


def description(ctx, form, secondary, derived, init):
    p11.custom()
    d = {"seed": 5}
    if not derived:
        d["luminosity distribution"] = {"ParetoDistribution": {"Lmin": ctx.real("Lmin", pos=True), "alpha": ctx.real("alpha", nonneg=True)}}
    d["spatial distribution"] = {"ZPowerCosmoDistribution": {"Lambda": ctx.real("Lambda", nonneg=True), "delta": ctx.real("delta"), "r_max": ctx.real("r_max", nonneg=True)},
                                 "is_rate": bool(ctx.bool("rate"))}
    d.update(section(ctx, form[0], "HardFluxSelection", {"boundary": {}}, "flux selection"))
    d.update(section(ctx, form[1], "BoxSelection", {"vmin": {"hi": 1}, "vmax": {"lo": 2}}, "distance selection"))
    d.update(section(ctx, form[2] if form[2] != 3 else 0, "GalacticPlaneSelection", {"b_limit": {"lo": 0, "hi": 80}}, "spatial selection"))
    aux = {}
    q = {"type": "NormalAuxSampler", "observed": True, "mu": ctx.real("mu"), "tau": ctx.real("tau", nonneg=True)}
    sel = section(ctx, form[3], "LowerBound", {"boundary": {}}, "selection")
    if form[3] == 1:
        sel = {"selection": {"UnitySelection": None}}
    q.update(sel)
    if init == 1:
        q["init variables"] = None
    elif init == 2:
        q["init variables"] = {}
    q.update({"absent": {}, "null": {"secondary": None}, "name": {"secondary": "second"}, "list": {"secondary": ["second", "third"]},
              "dict": {"secondary": {"second": {}, "third": {}}}}[secondary])
    aux["first"] = q
    aux["second"] = {"type": "HarnessPlain", "observed": bool(ctx.bool("obs2")), "tau": ctx.real("tau2", nonneg=True, hi=9)}
    aux["third"] = {"type": "ParetoAuxSampler", "observed": False, "alpha": ctx.real("alpha3", nonneg=True), "secondary": []}
    if derived:
        ctx.reach("derived")
        aux["D"] = {"type": "HarnessLum", "observed": False, "factor": ctx.real("factor", nonneg=True), "secondary": ["third"] if secondary in ("absent", "null", "name") else []}
    d["auxiliary samplers"] = aux
    return d


def disturb(ctx, ps):
    """change the synthesiser that was built, and everything attached to it"""
    ctx.reach("changed")
    for o in [ps._spatial_distribution, ps._luminosity_distribution, ps._flux_selector, ps._distance_selector, ps._spatial_selector] + p11.tops(ps):
        if o is None:
            continue
        for k, d in p11.descriptors(o).items():
            setattr(o, k, d._vmax if d._vmax is not None else 12.5)
        if hasattr(o, "selector"):
            for k, d in p11.descriptors(o.selector).items():
                setattr(o.selector, k, d._vmax if d._vmax is not None else 12.5)
    Fixed, Plain, Lum = p11.custom()
    ps.add_observed_quantity(Plain("newcomer"))
    ps.clean(reset=True)


def scribble(d):
    """overwrite every entry of a nested dictionary"""
    for k in list(d):
        if isinstance(d[k], dict):
            scribble(d[k])
            d[k]["scribbled"] = 1
        elif isinstance(d[k], list):
            d[k].append("scribbled")
        else:
            d[k] = "scribbled"


def harness(ctx, form=None, secondary=None, derived=0, init=0, layout=None, population=0):
    from popsynth import PopulationSynth
    p11.POSITIVE[0], p11.FREE[0] = bool(population), True
    if form is not None:
        d = description(ctx, form, secondary, derived, init)
        ref = copy.deepcopy(d)
        first = PopulationSynth.from_dict(d)
        ctx.check_same(d, ref, "description after its first use")
        second = PopulationSynth.from_dict(d)
        ctx.check_same(d, ref, "description after its second use")
        p11.same(ctx, first, second, "second use")
        keep = first.to_dict()
        disturb(ctx, second)
        ctx.check_same(d, ref, "description after changes to the synthesiser built from it")
        p11.same(ctx, first, PopulationSynth.from_dict(d), "third use")
        ctx.check_same(first.to_dict(), keep, "other synthesisers built from it are left alone")
        return
    if not population:
        ps = p11.build(ctx, layout=layout if layout != "none" else None, spatial="SFRDistribution", flux="HardFluxSelection", dist="BoxSelection",
                       sky="DistanceSelection")
        d = ps.to_dict()
        ref = copy.deepcopy(d)
        a = PopulationSynth.from_dict(d)
        b = PopulationSynth.from_dict(d)
        ctx.check_same(d, ref, "description of a synthesiser after two uses")
        p11.same(ctx, a, b, "second use")
        scribble(d)
        ctx.check_same(ps.to_dict(), ref, "changing a description leaves the synthesiser alone")
        ctx.check_same(a.to_dict(), ref, "changing a description leaves synthesisers built from it alone")
        return
    ctx.reach("population")
    ps = p11.build(ctx, layout=layout if layout != "none" else None, dist="BoxSelection", flux="HardFluxSelection")
    n = 1 if layout == "none" else 0
    with C.OpaqueDL(ctx, volume=True):
        C.stub_distances(ctx, ps._spatial_distribution, n)
        if ps._luminosity_distribution is not None:
            C.stub_luminosities(ctx, ps._luminosity_distribution, n)
        for s in p11.tops(ps):
            p11.stub_sampler(ctx, s)
        pop = ps.draw_survey(n_samples=n)
    ref = copy.deepcopy(pop.pop_synth)
    a = PopulationSynth.from_dict(pop.pop_synth)
    ctx.check_same(pop.pop_synth, ref, "description carried by a population after its first use")
    b = PopulationSynth.from_dict(pop.pop_synth)
    ctx.check_same(pop.pop_synth, ref, "description carried by a population after its second use")
    p11.same(ctx, a, b, "second use")
    p11.same(ctx, ps, b, "rebuilt from the population")
    disturb(ctx, b)
    ctx.check_same(pop.pop_synth, ref, "description carried by a population after changes to a synthesiser built from it")
    disturb(ctx, ps)
    ctx.check_same(pop.pop_synth, ref, "description carried by a population after changes to its synthesiser")
