"""Distances are drawn by exact rejection sampling of the rate density."""
import numpy as np

from symx import core, laws as L
from . import common as C

BOUNDS = ["1 or 2 distances, at most 3 (thorough: 5) proposals in all", "an arbitrary positive rate density, and every built-in distribution with all its parameter values (star-formation exponents: one pair, all in the thorough tier)",
          "the envelope grid is decided on 6 of its points (ends included)", "with and without progress bars, normalised or not"]
ASSUMPTIONS = ["integrals are an arbitrary positive two-point rule on the range", "the differential comoving volume is an arbitrary positive function of redshift (P22)"]
REACH = ["accepted", "rejected", "progress", "plain", "normalised"]

NORMAL = {"ConstantSphericalDistribution", "ZPowerSphericalDistribution", "SFRDistribution", "ZPowerCosmoDistribution", "UniformCosmoDistribution"}


def variants(tier):
    out = []
    t = 3 if tier == "quick" else 5
    for bar in (0, 1):
        for norm in (0, 1):
            for n in (0, 1, 2):
                out.append({"name": "generic", "n": n, "trials": t, "bar": bar, "norm": norm})
            for name in C.SPATIAL:
                if tier == "quick" and (bar != norm):
                    continue
                out.append({"name": name, "n": 1, "trials": 3 if tier != "quick" else 1 if name in ("SpiralGalaxyDistribution", "SFRDistribution") else 2, "bar": bar, "norm": norm})
    out.sort(key=lambda v: (v["name"] == "generic", v["name"][1] not in "FpP"))
    out.append({"name": "generic", "n": 3, "trials": 3, "bar": 0, "norm": 0})
    for s in ("ConstantSphericalDistribution", "ZPowerCosmoDistribution"):
        out += [{"name": s, "n": 1, "trials": 1, "bar": 0, "norm": k, "again": 1} for k in (0, 1)]
    if tier != "quick":
        out += [dict(v, free=1) for v in out if v["name"] == "SFRDistribution"]
    return out


def setup_ctx(ctx, trials, **k):
    if ctx.symbolic:
        ctx.max_draws = 2 * trials


def teardown(ctx):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config["show_progress"] = False


def rate(d, name, r):
    return d.dNdV(r) * d.differential_volume(r) / d.time_adjustment(r)


def harness(ctx, name, n, trials, bar, norm, free=0, again=0):
    from popsynth.utils.configuration import popsynth_config
    popsynth_config["show_progress"] = bool(bar)
    ctx.reach("progress" if bar else "plain")
    if norm:
        ctx.reach("normalised")
    with C.OpaqueDL(ctx, volume=True):
        d, p = C.generic(ctx) if name == "generic" else C.spatial(ctx, name)
        if name == "SFRDistribution" and not free:
            d.rise, d.decay = p["rise"], p["decay"] = 2.0, 3.0
        if again:
            # the same object was used before, with other parameters on the same range
            C.earlier(d, p, lambda d: d.draw_distance(0, normalize=bool(norm)))
        rm = p["r_max"]
        if not ctx.symbolic:
            # a height or proposal on the very edge is left to rounding
            pass
        mark = len(ctx.draws)
        ex = len(ctx.notes.get("extremes", []))
        ls = len(ctx.notes.get("linspaces", []))
        d.draw_distance(n, normalize=bool(norm))
        got = list(np.asarray(d.distances, dtype=object))
        ctx.check(len(got) == n, "as many distances as asked for")
        for k, v in p.items():
            ctx.check_same(getattr(d, k), v, "parameter %s unchanged" % k)
        dr = ctx.draws[mark:]
        ctx.check(len(dr) % 2 == 0 and all(x["kind"] == "u" for x in dr), "pairs of uniforms")
        f = lambda r: rate(d, name, r)
        if n == 0:
            ctx.check(not dr, "nothing drawn")
            return
        if ctx.symbolic:
            spans = ctx.notes.get("linspaces", [])[ls:]
            tops = [e for e in ctx.notes.get("extremes", [])[ex:] if e[0] > 0]
            if len(tops) == 1:
                us, m = tops[0][1:]
                if not spans:
                    raise core.Unsupported("no grid found under the envelope")
                if len(spans) != 1 or spans[0][2] < 100 or not spans[0][3]:
                    clipped(ctx, d, name, rm, n, spans, us, m, f, got, dr)
                    return
                ctx.check_eq(spans[0][0], 0, "grid starts at zero")
                ctx.check_eq(spans[0][1], rm, "grid ends at the maximum distance")
                grid = [rm * core.Fraction(i, 499) for i in (0, 100, 200, 299, 399, 499)]
                want = {}
                for g in grid:
                    v = core.S.lift(at(f(np.array([g], dtype=object))))
                    want.setdefault(v.key(), (g, v))
                want = list(want.values())
                ctx.check(len(want) == len(us), "envelope over the whole grid")
                scale = us[-1] / want[-1][1]
                for a, (g, v) in zip(us, want):
                    ctx.check_eq(a, v * scale, "envelope of the same density")
                ctx.check(scale > 0, "envelope scaled by a positive number")
                below = lambda h, r, k=1: h * m * k < f(r) * scale
            else:
                # a density that does not vary, or whose largest value is plain
                hs = [x for x in dr if x["params"]]
                v = core.S.lift(at(f(np.array([rm], dtype=object))))
                ctx.check_eq(v, at(f(np.array([rm / 3], dtype=object))), "envelope is the maximum")
                below = lambda h, r, k=1: h * v * k < f(r)
        else:
            y = np.max([float(at(f(np.array([g])))) for g in np.linspace(0, rm, 500)])
            below = lambda h, r: Near(h * y, float(f(r)), y)
        # who is the height, who the proposal: settled once for all trials
        us = [x["base"] for x in dr]
        pairs = [(us[i], us[i + 1]) for i in range(0, len(us), 2)]
        first = order(ctx, got, pairs, rm)
        if first is None:
            ctx.check(False, "distances are uniform proposals on the range")
            return
        pairs = [(a, b) if first else (b, a) for a, b in pairs]
        k = 0
        for i, (h, u) in enumerate(pairs):
            r = rm * u
            c = below(h, r)
            if isinstance(c, Near) and c.tie:
                return
            acc = k < n and same(ctx, got[k], r)
            if acc:
                ctx.reach("accepted")
                ctx.check_eq(got[k], r, "distance is the accepted proposal")
                if ctx.symbolic:
                    # a counterexample by a clear margin if there is one: the replay leaves ties to rounding
                    ctx.check(c, "accepted under the density", strong=(~core.SymBool.lift(below(h, r, core.Fraction(99, 100)))).e)
                else:
                    ctx.check(c.less, "accepted under the density")
                k += 1
            else:
                ctx.reach("rejected")
                if ctx.symbolic:
                    ctx.check(~core.SymBool.lift(c), "rejected above the density", strong=core.SymBool.lift(below(h, r, core.Fraction(101, 100))).e)
                else:
                    ctx.check(not c.less, "rejected above the density")
        ctx.check(k == n, "every distance is an accepted proposal")


def clipped(ctx, d, name, rm, n, spans, us, m, f, got, dr):
    """the grid under the envelope is another one: look for an accepted distance that lies above the density by a clear margin"""
    if not spans:
        raise core.Unsupported("no grid found under the envelope")
    a, b, num, end = spans[-1]
    last = b if end else a + (b - a) * core.Fraction(num - 1, num)
    scale = us[-1] / core.S.lift(at(f(np.array([last], dtype=object))))
    top = core.S.lift(at(f(np.array([rm], dtype=object)))) * scale
    hs = [x["base"] for x in dr]
    pairs = [(hs[i], hs[i + 1]) for i in range(0, len(hs), 2)]
    first = order(ctx, got, pairs, rm)
    if first is not None:
        for h, u in [(p if first else p[::-1]) for p in pairs]:
            if any(same(ctx, g, rm * u) for g in got):
                ctx.check(h * top * core.Fraction(997, 1000) < f(rm * u) * scale, "accepted under the density")
    raise core.Unsupported("a grid of %s points under the envelope" % num)


class Near:
    def __init__(self, a, b, y):
        self.tie = abs(a - b) <= 2e-3 * abs(y)
        self.less = a < b


def at(v):
    return v.reshape(-1)[0] if isinstance(v, np.ndarray) else v


def same(ctx, a, b):
    if ctx.symbolic:
        return core.S.lift(a).key() == core.S.lift(b).key()
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def order(ctx, got, pairs, rm):
    """True when the proposal is the second uniform of each pair"""
    for second in (True, False):
        k = 0
        for a, b in pairs:
            if k < len(got) and same(ctx, got[k], rm * (b if second else a)):
                k += 1
        if k == len(got):
            return second
    return None
