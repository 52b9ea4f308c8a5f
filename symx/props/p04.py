"""Spatial selections keep exactly the documented sky and distance regions."""
from symx import core, laws as L

BOUNDS = ["2 objects (3 in the thorough tier)", "all sky positions, distances and limits in the declared ranges"]
ASSUMPTIONS = ["the ICRS to galactic latitude conversion (astropy) is an arbitrary function of right ascension and declination with values in [-90, 90]"]
REACH = ["in", "out", "north", "south"]


def variants(tier):
    n = 2 if tier == "quick" else 3
    dists = ["ConstantSphericalDistribution", "ZPowerCosmoDistribution"] if tier == "quick" else [
        "ConstantSphericalDistribution", "ZPowerCosmoDistribution", "FlatlandDistribution", "SFRDistribution"]
    out = [{"what": w, "dist": d, "n": n} for w in ("galactic", "distance") for d in dists]
    # an object whose latitude is exactly the limit, north or south
    return out + [{"what": "galactic", "dist": dists[0], "n": n, "edge": e} for e in (1, -1)]


def latitudes(d, n):
    if core.CTX is not None:
        return [core.apply_uf("galb", core.S.lift(L.rad2deg(d.phi[i])), core.S.lift(90 - L.rad2deg(d.theta[i])), lo=-90, hi=90) for i in range(n)]
    import numpy as np
    from astropy.coordinates import SkyCoord
    return [float(b) for b in SkyCoord(np.rad2deg(d.phi), 90 - np.rad2deg(d.theta), unit="deg", frame="icrs").galactic.b.deg]


def harness(ctx, what, dist, n, edge=0):
    import popsynth.distributions as D
    from popsynth.selection_probability import spatial_selection as ss
    cls = getattr(D, dist, None)
    if cls is None:
        from popsynth.distributions import spherical_distribution, cosmological_distribution, flatland_distribution
        for m in (spherical_distribution, cosmological_distribution, flatland_distribution):
            cls = cls or getattr(m, dist, None)
    d = cls()
    other = cls()
    if what == "galactic":
        d.draw_sky_positions(n)
        bs = latitudes(d, n)
        if edge:
            ctx.assume(bs[0] * edge >= 0)
            lim = bs[0] * edge
        else:
            lim = ctx.real("b_limit", lo=0, hi=90, nominal=20)
        sel = ss.GalacticPlaneSelection()
        sel.b_limit = lim
        sel.set_spatial_distribution(d)
        sel.select(n)
        for i in range(n):
            b = bs[i]
            f = bool(sel.selection[i])
            ctx.reach("in" if f else "out")
            if f:
                ctx.reach("north" if bool(b >= 0) else "south")
            c = core.SymBool.lift(b >= lim) | core.SymBool.lift(-b >= lim) if ctx.symbolic else abs(b) >= lim
            ctx.check_iff(f, c, "galactic object %d" % i, near=None if ctx.symbolic or (edge and i == 0) else (abs(b), lim))
    else:
        x = ctx.array("r", n, nonneg=True, nominal=2.5)
        d._distances = x
        other._distances = x + 100
        lo = ctx.real("min_distance", lo=0, nominal=1)
        hi = ctx.real("max_distance", lo=0, nominal=3)
        sel = ss.DistanceSelection()
        sel.min_distance, sel.max_distance = lo, hi
        sel.set_spatial_distribution(d)
        sel.select(n)
        for i in range(n):
            f = bool(sel.selection[i])
            ctx.reach("in" if f else "out")
            ctx.reach("north")
            ctx.reach("south")
            ctx.check_iff(f, (x[i] >= lo) & (x[i] <= hi) if ctx.symbolic and not isinstance(x[i] >= lo, bool) and not isinstance(x[i] <= hi, bool)
                          else (bool(x[i] >= lo) and bool(x[i] <= hi)), "distance object %d" % i)
    ctx.check(len(sel.selection) == n, "one flag per object")
