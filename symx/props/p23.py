"""The generative graph lists exactly the samplers and their dependencies."""
from . import common as C

BOUNDS = ["attachments of up to five samplers nested up to three deep, shared ones included, with and without a derived luminosity",
          "every combination of observed and unobserved samplers and of samplers that use distance or do not (one of the two at a time above three samplers in the quick tier)",
          "graphs asked for before, between and after attachments, by a survey and after cleaning"]
ASSUMPTIONS = ["samplers have distinct names, different from those of the distributions"]
REACH = ["latent", "observed", "distance", "no distance", "derived", "shared", "survey", "clean"]


def variants(tier):
    out = []
    for lay in C.LAYOUTS:
        k = len(C.LAYOUTS[lay])
        both = [(1, 1)] if k <= 3 or tier != "quick" else [(1, 0), (0, 1)]
        for o, d in both:
            out.append({"layout": lay, "observed": o, "distance": d, "how": "property"})
        out.append({"layout": lay, "observed": 0, "distance": 1, "how": "survey"})
        out.append({"layout": lay, "observed": 1, "distance": 0, "how": "clean"})
    out.append({"layout": "tree", "observed": 0, "distance": 1, "how": "late"})
    out.append({"layout": "flat", "observed": 1, "distance": 1, "how": "late"})
    out.append({"layout": "mixed", "observed": 1, "distance": 0, "how": "late"})
    return out


def expected(w, obs, dist, lay, tops):
    sp = w.ps._spatial_distribution.name
    lum = "D" if "D" in lay else w.ps._luminosity_distribution.name
    nodes = {sp, "obs_flux", lum}
    edges = {(sp, "obs_flux"), (lum, "obs_flux")}
    todo, seen = list(tops), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        nodes.add(k)
        if obs.get(k):
            nodes.add(k + "_obs")
            edges.add((k, k + "_obs"))
        if dist.get(k):
            edges.add((sp, k))
        for c in lay[k]:
            edges.add((c, k))
            todo.append(c)
    return nodes, edges


def compare(ctx, g, want, label):
    ctx.check(g.is_directed(), label + ": directed")
    nodes, edges = want
    missing = sorted(nodes - set(g.nodes))
    extra = sorted(set(g.nodes) - nodes)
    ctx.check(not missing and not extra, "%s: nodes, missing %s, extra %s" % (label, missing, extra))
    missing = sorted(edges - set(g.edges))
    extra = sorted(set(g.edges) - edges)
    ctx.check(not missing and not extra, "%s: edges, missing %s, extra %s" % (label, missing, extra))


def harness(ctx, layout, observed, distance, how):
    lay = C.LAYOUTS[layout]
    obs = {k: bool(ctx.bool("observed_%s" % k)) if observed else True for k in lay}
    if "D" in lay:
        obs["D"] = False
        ctx.reach("derived")
    dist = {k: bool(ctx.bool("distance_%s" % k)) if distance else False for k in lay}
    for k in lay:
        ctx.reach("observed" if obs[k] else "latent")
        ctx.reach("distance" if dist[k] else "no distance")
    if layout in ("shared", "bridge"):
        ctx.reach("shared")
    w = C.World(ctx, layout, 1, observed={k: v for k, v in obs.items() if k != "D"}, uses={k: ("distance",) if dist[k] else () for k in lay},
                attach=False)
    for k, v in lay.items():
        for c in v:
            w.s[k].set_secondary_sampler(w.s[c])
    tops = []
    for k in w.tops:
        if how == "late" and (not w.derived or "D" in tops):
            compare(ctx, w.ps.graph, expected(w, obs, dist, lay, tops) if not w.derived or tops else None, "graph so far")
        w.ps.add_observed_quantity(w.s[k])
        tops.append(k)
    if w.derived:
        w.lum = w.s["D"].h_lum
    want = expected(w, obs, dist, lay, tops)
    g = w.ps.graph
    compare(ctx, g, want, "graph")
    compare(ctx, w.ps.graph, want, "graph asked for again")
    if how == "survey":
        ctx.reach("survey")
        pop = w.ps.draw_survey(n_samples=1)
        compare(ctx, pop.graph, want, "graph of the survey")
        compare(ctx, w.ps.graph, want, "graph after the survey")
    elif how == "clean" and not w.derived:
        ctx.reach("clean")
        w.ps.clean(reset=bool(ctx.bool("reset")))
        compare(ctx, w.ps.graph, expected(w, obs, dist, lay, []), "graph after cleaning")
        compare(ctx, g, want, "graph from before")
