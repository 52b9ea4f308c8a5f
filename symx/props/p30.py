"""Spatial densities, volumes and time dilation follow the documented formulas."""
import numpy as np

from symx import laws as L
from . import common as C

BOUNDS = ["2 distances (scalar and array arguments)", "all positive distances (zero included for the volumes)",
          "all parameter values within the declared bounds, positive scales", "transient and steady populations"]
ASSUMPTIONS = ["powers and exponentials are handled through their algebraic laws"]
REACH = ["density", "volume", "time"]


def variants(tier):
    out = []
    for s in C.SPATIAL:
        for rate in ((True, False) if s in C.COSMO else (None,)):
            out.append({"name": s, "rate": rate})
    return out


def density(name, p, r):
    if name in ("ConstantSphericalDistribution", "FlatlandDistribution"):
        return p["Lambda"]
    if name in ("ZPowerSphericalDistribution", "ZPowerCosmoDistribution"):
        return p["Lambda"] * L.power(1 + r, p["delta"])
    if name == "SFRDistribution":
        return p["r0"] * (p["a"] + p["rise"] * r) / (1 + L.power(r / p["peak"], p["decay"]))
    if name == "UniformCosmoDistribution":
        return p["r0"] / (p["zmax"] - p["zmin"])
    w = p["R0"] + p["R1"]
    return p["rho"] * L.power((r + p["R1"]) / w, p["a"]) * L.exp(-p["b"] * (r - p["R0"]) / w)


def volume(name, r, c):
    if name in C.SPHERICAL:
        return 4 * L.pi() * r * r
    if name in C.COSMO:
        return c.differential_comoving_volume(r)
    return 1


def at(x, i):
    return x[i] if np.ndim(x) else x


def harness(ctx, name, rate):
    Om = ctx.real("Om", lo=0.1, hi=0.9, nominal=0.3) if name in C.COSMO else None
    h0 = ctx.real("h0", pos=True, nominal=69) if name in C.COSMO else None
    with C.Cosmo(Om, h0) as c:
        d, p = C.spatial(ctx, name, is_rate=rate if rate is not None else True)
        r = ctx.array("r", 2, pos=True, nominal=0.8)
        r0 = list(r)
        ctx.reach("density")
        C.earlier(d, p, lambda d: [g(x) for g in (d.dNdV, d.differential_volume, d.time_adjustment) for x in (np.array([0.5, 1.5]), 0.5)])
        f = d.dNdV(r)
        v = d.differential_volume(r)
        t = d.time_adjustment(r)
        for i in range(2):
            ctx.check_eq(at(f, i), density(name, p, r0[i]), "%s density" % name)
            ctx.check_eq(at(v, i), volume(name, r0[i], c), "%s volume" % name)
            ctx.check_eq(at(t, i), 1 + r0[i] if rate else 1, "%s time dilation" % name)
        ctx.check_same(list(r), r0, "distances unchanged")
        ctx.reach("volume")
        ctx.reach("time")
        ctx.check_eq(d.dNdV(r0[0]), density(name, p, r0[0]), "%s density, scalar" % name)
        ctx.check_eq(d.differential_volume(r0[0]), volume(name, r0[0], c), "%s volume, scalar" % name)
        ctx.check_eq(d.time_adjustment(r0[0]), 1 + r0[0] if rate else 1, "%s time dilation, scalar" % name)
        ctx.check_eq(d.differential_volume(0.0), volume(name, 0.0, c), "%s volume at zero" % name)
        ctx.check_eq(d.time_adjustment(0.0), 1, "%s time dilation at zero" % name)
        if name != "SFRDistribution" and not name.startswith("Spiral"):
            ctx.check_eq(d.dNdV(0.0), density(name, p, 0.0), "%s density at zero" % name)
        for k, w in p.items():
            ctx.check_same(getattr(d, k), w, "parameter unchanged")
