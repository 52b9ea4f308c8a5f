"""Cosmological distances and volumes satisfy their defining relations."""
from fractions import Fraction

import numpy as np

from symx import core, laws as L, poly as P
from . import common as C

BOUNDS = ["all redshifts >= 0", "all matter densities in [0.1, 1) and all positive Hubble constants",
          "agreement of the distance slope with c/(H0 E) within 1 % for matter densities in [0.25, 1)"]
ASSUMPTIONS = ["the JIT class is executed from its source; its single-precision storage of the two parameters is outside",
               "a function that is zero at zero and has a positive slope everywhere is increasing and positive"]
REACH = ["identities", "slope", "accuracy", "arrays"]

MPC = 3.086e24


def variants(tier):
    return [{"what": w} for w in REACH]


def poly_deriv(p, a):
    out = {}
    for m, c in p.items():
        d = dict(m)
        k = d.get(a, 0)
        if k:
            d[a] = k - 1
            mm = tuple(sorted((b, e) for b, e in d.items() if e))
            out[mm] = out.get(mm, 0) + c * k
    return out


def full(x):
    """numerator and denominator polynomials"""
    den = P.const(1)
    for f, k in x.den.items():
        den = P.mul(den, P.power(P.atom(f) if isinstance(f, int) else P.from_key(f), k))
    return x.num, den


def atom_of(x):
    (m,) = x.num
    return m[0][0]


def dlog(ctx, x, y, allowed):
    """derivative of a rational symbolic real with respect to an input"""
    a = atom_of(y)
    used = P.atoms(x.num)
    for f in x.den:
        used |= {f} if isinstance(f, int) else P.atoms(P.from_key(f))
    for o in used - {a} - allowed:
        # a square root of something that does not contain y is a constant
        ok = any(v == o and a not in P.atoms(P.from_key(k)) for k, v in ctx.sqrt_atom.items())
        ok = ok or o in [atom_of(v) for v in ctx.consts.values()] if hasattr(ctx, "consts") else ok
        if not ok:
            raise core.Unsupported("slope of a function that is not rational")
    n, d = x.num, x.den
    out = core.S(poly_deriv(n, a), dict(d))
    for f, k in d.items():
        fp = P.atom(f) if isinstance(f, int) else P.from_key(f)
        df = poly_deriv(fp, a)
        if df:
            out = out - core.S(P.mul(P.mul(n, df), P.const(k)), {**d, f: d[f] + 1})
    return out


def substitute(x, q, by):
    """x with the input q replaced by another symbolic real (a polynomial)"""
    a = atom_of(q)

    def sub(p):
        out = core.S(P.const(0))
        for m, c in p.items():
            t = core.S(P.const(c))
            for b, e in m:
                t = t * (core.ipow(by, e) if b == a else core.S({((b, e),): Fraction(1)}))
            out = out + t
        return out
    r = sub(x.num)
    for f, k in x.den.items():
        s = sub(P.atom(f) if isinstance(f, int) else P.from_key(f))
        # positive common powers leave the denominator
        c = P.content(s.num)
        rest = core.S(P.div_mono(s.num, c)) if c else s
        for _ in range(k):
            r = r / rest
            for b, e in c:
                r = r / core.S({((b, e),): Fraction(1)})
    return r


def slope(ctx, c, y, x, q):
    """slope of the transverse distance with respect to y = sqrt(1+z), q written as x y^6"""
    if ctx.symbolic:
        D = c.comoving_transverse_distance(y * y - 1)
        g = dlog(ctx, core.S.lift(D), y, {atom_of(q), atom_of(ctx.real("h0"))})
        return substitute(g, q, x * core.ipow(y, 6))
    h = 1e-4 * y
    f = lambda v: c.comoving_transverse_distance(v * v - 1)
    return (f(y + h) - f(y - h)) / (2 * h) if y - h > 0 else 0


def harness(ctx, what):
    from astropy.cosmology import WMAP9
    ctx.reach(what)
    h0 = ctx.real("h0", pos=True, nominal=69)
    y = ctx.real("y", lo=1, pos=True, nominal=1.4)
    if what in ("slope", "accuracy"):
        x = ctx.real("x", lo=0, pos=True, hi=9 if what == "slope" else 3, nominal=0.5)
        q = ctx.real("q", pos=True, nominal=2) if ctx.symbolic else x * y ** 6
        if not ctx.symbolic and q > (9 if what == "slope" else 3):
            # any x up to the limit is met at y = 1
            y, q = 1.0 + 1e-3, x
        Om = 1 / (1 + q)
        with C.Cosmo(Om, h0) as c:
            g = slope(ctx, c, y, x, q)
            if what == "slope":
                ctx.check(g > 0, "distance increases with redshift")
            else:
                # (dD/dz)^2 E^2 / (c/H0)^2, E^2 = Om (1+z)^3 + 1 - Om = (y^6 + q)/(1 + q) = y^6 (1 + x)/(1 + q)
                y6 = core.ipow(y, 6) if ctx.symbolic else y ** 6
                qq = x * y6
                e2 = y6 * (1 + x) / (1 + qq)
                unit = Fraction(299792458, 1000) * Fraction(3086, 1000) * 10 ** 24 if ctx.symbolic else 299792.458 * 3.086e24
                t = g * h0 / (2 * y * unit)
                t2 = t * t
                if ctx.symbolic:
                    t2 = square_roots_out(ctx, t2, q, x * y6)
                r = t2 * e2
                ctx.check(r > (1 - Fraction(2, 100) if ctx.symbolic else 0.98), "distance slope is c/(H0 E), not below")
                ctx.check(r < (1 + Fraction(2, 100) if ctx.symbolic else 1.02), "distance slope is c/(H0 E), not above")
        return
    Om = ctx.real("Om", lo=Fraction(1, 10), hi=Fraction(999, 1000), nominal=0.3)
    z = y * y - 1
    with C.Cosmo(Om, h0) as c:
        if what == "arrays":
            z2 = ctx.real("z2", nonneg=True, nominal=0.8)
            zz = np.array([z, z2, z], dtype=object if ctx.symbolic else float)
            for f in (c.luminosity_distance, c.comoving_transverse_distance, c.differential_comoving_volume):
                got = f(zz)
                ctx.check(len(got) == 3, "one value per redshift")
                ctx.check_same(list(zz), [z, z2, z], "redshifts unchanged")
                for i in range(3):
                    ctx.check_eq(got[i], f(zz[i]), "element-wise")
            return
        dl, D = c.luminosity_distance(z), c.comoving_transverse_distance(z)
        ctx.check_eq(dl, (1 + z) * D, "luminosity distance is (1+z) times the transverse distance")
        v = c.differential_comoving_volume(z)
        ode = 1 - Om - (WMAP9.Onu0 + WMAP9.Ogamma0)
        y6 = core.ipow(y, 6) if ctx.symbolic else y ** 6
        E = L.sqrt(Om * y6 + ode)
        td = D / MPC
        ctx.check_eq(v, (299792458.0 * 1.0e-3 / h0) * td * td / E * 1e-9, "differential comoving volume")
        zero = 0.0
        if ctx.symbolic:
            for f, n in ((c.luminosity_distance, "luminosity distance"), (c.comoving_transverse_distance, "transverse distance"),
                         (c.differential_comoving_volume, "volume")):
                ctx.check_eq(f(core.S(P.const(0))), 0, "%s is zero at zero redshift" % n)
        else:
            for f, n in ((c.luminosity_distance, "luminosity distance"), (c.comoving_transverse_distance, "transverse distance"),
                         (c.differential_comoving_volume, "volume")):
                ctx.check_eq(f(zero) / max(abs(f(1.0)), 1e-300), 0, "%s is zero at zero redshift" % n)
    g0 = ctx.real("g0", pos=True, nominal=50)
    with C.Cosmo(Om, g0) as c:
        ctx.check_eq(c.luminosity_distance(z) * g0 / h0, dl, "inversely proportional to the Hubble constant")


def square_roots_out(ctx, t, q, by):
    """replace the square of sqrt(1+q) (already reduced to 1+q) consistently"""
    return substitute(t, q, by)
