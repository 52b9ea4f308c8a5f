"""Exported Stan data describe exactly the detected objects."""
import numpy as np

from symx import core, laws as L
from . import common as C

BOUNDS = ["surveys of 0 to 2 objects (3 in the thorough tier)", "every detection outcome and every outcome of the distance selection", "linear and logarithmic model spaces of 3 points"]
ASSUMPTIONS = ["the rejection sampler and the luminosity sampler are replaced by arbitrary values"]
OPTS = {"witnesses": 3}
REACH = ["detected", "nothing detected", "known", "unknown", "spaces"]


def variants(tier):
    out = []
    for lay in ("none", "flat", "chain", "mixed"):
        for n in (0, 1, 2):
            out.append({"layout": lay, "n": n, "sigma": int(lay == "none")})
    if tier != "quick":
        out += [{"layout": lay, "n": 3, "sigma": s} for lay in ("none", "flat", "chain", "mixed") for s in (0, 1)]
    return out


def harness(ctx, layout, n, sigma):
    w = C.World(ctx, layout, n)
    s = C.bound(ctx, "flux", use_flux=True)
    w.ps.set_flux_selection(s)
    w.ps.set_distance_selection(C.bound(ctx, "dist", use_distance=True))
    a, b = ctx.real("start", pos=True, nominal=1.5), ctx.real("span", pos=True, nominal=3)
    w.ps._n_model = 3
    w.ps.add_model_space("logspace", a, a + b)
    w.ps.add_model_space("linspace", a, a + b, log=False)
    ctx.reach("spaces")
    sg = ctx.real("sigma", pos=True, nominal=0.3) if sigma else None
    pop = w.ps.draw_survey(n_samples=n, flux_sigma=sg)
    sel = C.flags(pop.selection)
    det = [i for i in range(n) if sel[i]]
    m = len(det)
    ctx.reach("detected" if m else "nothing detected")
    d = pop.to_stan_data()
    ctx.check(d["N"] == m, "N is the number of detected objects")
    fl = C.vals(pop.fluxes)
    want = {"z_obs": [w.r[i] for i in det], "r_obs": [w.r[i] for i in det], "flux_obs": [fl[i] for i in det],
            "log_flux_obs": [L.log10(fl[i]) for i in det]}
    for k, x in w.s.items():
        want["%s_obs" % k] = [x.h_obs[i] for i in det]
    for k, v in want.items():
        got = C.vals(d[k])
        ctx.check(len(got) == m, "%s has N entries" % k)
        for x, y in zip(got, v):
            ctx.check_eq(x, y, "%s of a detected object" % k)
    kn = [int(v) for v in np.asarray(d["z_idx"]).reshape(-1)]
    un = [int(v) for v in np.asarray(d["z_nidx"]).reshape(-1)]
    ctx.check([int(v) for v in np.asarray(d["r_idx"]).reshape(-1)] == kn and [int(v) for v in np.asarray(d["r_nidx"]).reshape(-1)] == un, "both names")
    ctx.check(sorted(kn + un) == list(range(1, m + 1)), "known and unknown indices partition 1..N")
    ctx.check(d["Nz"] == len(kn) and d["Nnz"] == len(un), "numbers of known and unknown distances")
    for name in ("known_z_obs", "known_r_obs"):
        kd = list(np.asarray(d[name], dtype=object).reshape(-1))
        ctx.check(len(kd) == len(kn), "one known distance per index")
        for x, j in zip(kd, kn):
            ctx.check_eq(x, w.r[det[j - 1]], "known distance pairs with its index")
    if kn:
        ctx.reach("known")
    if un:
        ctx.reach("unknown")
    ctx.check_same(d["flux_sigma"], sg if sigma else -1, "flux uncertainty")
    ctx.check_same(d["z_max"], 10.0, "maximum distance")
    ctx.check_same(d["r_max"], 10.0, "maximum distance")
    ctx.check_same(d["N_model"], 3, "number of grid points")
    for k in range(3):
        ctx.check_eq(d["linspace"][k], a + b * k / 2, "linear grid")
        t = core.Fraction(k, 2) if ctx.symbolic else k / 2
        ctx.check_eq(L.log10(d["logspace"][k]), L.log10(a) + (L.log10(a + b) - L.log10(a)) * t, "logarithmic grid")
    ctx.check(len(d["linspace"]) == 3 and len(d["logspace"]) == 3, "grid sizes")
    ints = [k for k in ("N", "Nz", "Nnz", "N_model") if not isinstance(d[k], (int, np.integer))]
    ctx.check(not ints, "counts are integers %s" % ints)
