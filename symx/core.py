"""Symbolic reals, path exploration and solver queries.

The implementation under test is executed by CPython itself on proxy objects:
an `S` stands for a real number that depends on symbolic inputs, comparisons
of `S` objects yield `SymBool`s, and the truth value of a `SymBool` is decided
by the path explorer (both outcomes are explored when the solver finds both
feasible).  Assertions over the resulting terms are sent to Z3.
"""
import itertools
import math
import sys
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly as P

CTX = None  # the active symbolic context (None in concrete mode)


# --------------------------------------------------------------------------
# exceptions
class Engine(BaseException):
    """raised by the machinery itself; never caught by code under test"""


class Unsupported(Engine):
    pass


class Prune(Engine):
    """path outside the stated bounds or infeasible"""


class Domain(Engine):
    """an operation left the real domain (log of a non-positive number...)"""


class Candidate(Engine):
    def __init__(self, label, kind="assert"):
        self.label, self.kind = label, kind


class AssumeFailed(Engine):
    pass


# --------------------------------------------------------------------------
# constants
def _near(x, y, ulps=3):
    return abs(x - y) <= ulps * math.ulp(max(abs(x), abs(y), 1e-300))


_snap_cache = {}


def snap(x):
    """real reading of a float constant: ('q', Fraction) or ('pi'|'ln10', Fraction)"""
    r = _snap_cache.get(x)
    if r is None:
        r = _snap_cache[x] = _snap(x)
    return r


def _snap(x):
    if x == int(x) and abs(x) < 2**53:
        return ("q", Fraction(int(x)))
    for name, c in (("pi", math.pi), ("ln10", math.log(10))):
        f = Fraction(x / c).limit_denominator(720)
        if f and f.numerator <= 5000 and _near(float(f) * c, x, 2):
            return (name, f)
    for d in (10, 100, 1000):
        f = Fraction(x).limit_denominator(d)
        if f and _near(float(f), x):
            return ("q", f)
    f = Fraction("%.15g" % x)
    if _near(float(f), x):
        return ("q", f)
    return ("q", Fraction(x))


# --------------------------------------------------------------------------
# rational functions: (num, den)
def _cancel(num, den):
    if not num:
        return num, {}
    if not den:
        return num, den
    out = {}
    for f, k in den.items():
        if isinstance(f, int):
            m = min(min((dict(mo).get(f, 0) for mo in num), default=0), k)
            if m:
                num = P.div_mono(num, ((f, m),))
                k -= m
        else:
            q = P.from_key(f)
            while k:
                d = P.exact_div(num, q)
                if d is None:
                    break
                num = d
                k -= 1
        if k:
            out[f] = k
    return num, out


def _fpoly(f):
    return P.atom(f) if isinstance(f, int) else P.from_key(f)


class S:
    __slots__ = ("num", "den", "_z")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else {}
        self._z = None

    # ---- lifting
    @staticmethod
    def lift(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (bool, np.bool_)):
            return S(P.const(int(x)))
        if isinstance(x, (int, np.integer)):
            return S(P.const(int(x)))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if not math.isfinite(x):
                raise Domain("non-finite constant %r" % x)
            kind, f = snap(x)
            if kind == "q":
                return S(P.const(f))
            return CTX.named_const(kind) * f
        if isinstance(x, Fraction):
            return S(P.const(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return S.lift(x.item())
        return None

    @property
    def is_const(self):
        return not self.den and P.is_const(self.num)

    def value(self):
        return P.const_value(self.num)

    def atoms(self):
        a = P.atoms(self.num)
        for f in self.den:
            if isinstance(f, int):
                a.add(f)
            else:
                a |= P.atoms(P.from_key(f))
        return a

    def key(self):
        return (P.key(self.num), tuple(sorted(self.den.items(), key=repr)))

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _add(self, o, 1)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _add(self, o, -1)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _add(o, self, -1)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _mul(self, o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _mul(self, o.inverse())

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _mul(o, self.inverse())

    def __neg__(self):
        return S(P.scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __abs__(self):
        if syntactic_sign(self) in ("pos", "nonneg"):
            return self
        if bool(self >= 0):
            return self
        return -self

    def fabs(self):
        return abs(self)

    def inverse(self):
        if self.is_const:
            v = self.value()
            if v == 0:
                raise Domain("division by zero")
            return S(P.const(1 / v))
        if syntactic_sign(self) != "pos" and not CTX.known_nonzero(self):
            CTX.require(_cmp(self, "!="), "division by zero")
        # 1/(n/d) = d/n
        num = P.const(1)
        for f, k in self.den.items():
            num = P.mul(num, P.power(_fpoly(f), k, CTX.reduce), CTX.reduce)
        den = {}
        n = self.num
        c = P.content(n)
        n = P.div_mono(n, c)
        for a, k in c:
            if a in CTX.reduce and False:
                pass
            den[a] = den.get(a, 0) + k
        sn = syntactic_sign(S(n)) if len(n) > 1 else None
        if sn is None and len(n) > 1 and c:
            sn = sign_mul(poly_sign(self.num), _poly_sign0({c: Fraction(1)}))
            if sn == "zero":
                sn = None
            if sn:
                record_sign(n, sn)
        u, n = P.monic(n)
        if not P.is_const(n):
            for g in CTX.factors:
                gp = P.from_key(g)
                while not P.is_const(n):
                    d = P.exact_div(n, gp)
                    if d is None:
                        break
                    den[g] = den.get(g, 0) + 1
                    n = d
            if not P.is_const(n):
                u2, n = P.monic(n)
                u *= u2
                k = P.key(n)
                if len(n) == 1:  # a single monomial
                    (m, c1), = n.items()
                    for a, e in m:
                        den[a] = den.get(a, 0) + e
                else:
                    den[k] = den.get(k, 0) + 1
                    CTX.factors[k] = 1
            else:
                u *= P.const_value(n)
        num = P.scale(num, 1 / u)
        num, den = _cancel(num, den)
        r = S(num, den)
        return rationalize(r)

    def __floordiv__(self, o):
        q = self / o
        return q.floor()

    def __mod__(self, o):
        o = S.lift(o)
        k = (self / o).floor()
        return self - o * k

    def floor(self):
        if self.is_const:
            return S(P.const(math.floor(self.value())))
        raise Unsupported("floor of a symbolic value")

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return spow(o, self)

    # ---- comparisons
    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, "==")

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, "!=")

    def __lt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, "<")

    def __le__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, "<=")

    def __gt__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, ">")

    def __ge__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return _compare(self, o, ">=")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __float__(self):
        if self.is_const:
            return float(self.value())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const:
            return int(self.value())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const and self.value().denominator == 1:
            return int(self.value())
        raise Unsupported("index of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    @property
    def real(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def conjugate(self):
        return self

    def is_integer(self):
        return self.is_const and self.value().denominator == 1

    # ---- functions (names numpy's object loops look up)
    def exp(self):
        return sexp(self)

    def expm1(self):
        return sexp(self) - 1

    def exp2(self):
        return sexp(self * CTX.ln_const(Fraction(2)))

    def log(self):
        return sln(self)

    def log10(self):
        return sln(self) / CTX.named_const("ln10")

    def log2(self):
        return sln(self) / CTX.ln_const(Fraction(2))

    def log1p(self):
        return sln(self + 1)

    def sqrt(self):
        return ssqrt(self)

    def square(self):
        return self * self

    def cbrt(self):
        return spow(self, S(P.const(Fraction(1, 3))))

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return ssin(self) / scos(self)

    def arccos(self):
        return sarccos(self)

    def arcsin(self):
        return CTX.named_const("pi") / 2 - sarccos(self)

    def rad2deg(self):
        return self * 180 / CTX.named_const("pi")

    degrees = rad2deg

    def deg2rad(self):
        return self * CTX.named_const("pi") / 180

    radians = deg2rad

    def isfinite(self):
        return True

    def hypot(self, o):
        return ssqrt(self * self + o * o)

    # ---- to the solver
    def z(self):
        """(numerator, denominator) as Z3 terms"""
        if self._z is None:
            n = CTX.zpoly(self.num)
            d = None
            for f, k in sorted(self.den.items(), key=repr):
                t = CTX.zpoly(_fpoly(f))
                for _ in range(k):
                    d = t if d is None else d * t
            self._z = (n, d)
        return self._z


def _add(a, b, k):
    r = _add0(a, b, k)
    if CTX is not None and len(r.num) > 1 and (a.den or b.den or len(r.num) > 2):
        _hint(r, lambda: sign_add(syntactic_sign(a), syntactic_sign(b) if k == 1 else _FLIP0[syntactic_sign(b)]))
    return r


def _hint(r, f):
    """remember the sign of a compound value known from its parts"""
    if len(r.num) > 40 or poly_sign(r.num) is not None:
        return
    s = f()
    if s is None or s == "zero":
        return
    for g, e in r.den.items():
        if e % 2:
            s = sign_mul(s, CTX.sign.get(g) if isinstance(g, int) else poly_sign(P.from_key(g)))
            if s is None:
                return
    record_sign(r.num, s)


def _add0(a, b, k):
    if not a.den and not b.den:
        return S(P.add(a.num, b.num, k))
    red = CTX.reduce if CTX is not None else None
    if a.den == b.den:
        num = P.add(a.num, b.num, k)
        num, den = _cancel(num, a.den)
        return S(num, den)
    den = dict(a.den)
    for f, p in b.den.items():
        den[f] = max(den.get(f, 0), p)
    na, nb = a.num, b.num
    for f, p in den.items():
        q = p - a.den.get(f, 0)
        if q:
            na = P.mul(na, P.power(_fpoly(f), q, red), red)
        q = p - b.den.get(f, 0)
        if q:
            nb = P.mul(nb, P.power(_fpoly(f), q, red), red)
    num = P.add(na, nb, k)
    num, den = _cancel(num, den)
    return S(num, den)


def _mul(a, b):
    r = _mul0(a, b)
    if CTX is not None and len(r.num) > 1:
        _hint(r, lambda: sign_mul(syntactic_sign(a), syntactic_sign(b)))
    return r


def _mul0(a, b):
    red = CTX.reduce if CTX is not None else None
    if not a.num or not b.num:
        return S({})
    if not a.den and not b.den:
        return S(P.mul(a.num, b.num, red))
    na, db = _cancel(a.num, b.den)
    nb, da = _cancel(b.num, a.den)
    num = P.mul(na, nb, red)
    den = dict(da)
    for f, p in db.items():
        den[f] = den.get(f, 0) + p
    num, den = _cancel(num, den)
    return rationalize(S(num, den))


def rationalize(r):
    """move even powers of square-root atoms out of the denominator"""
    red = CTX.reduce if CTX is not None else None
    if not red or not any(isinstance(f, int) and f in red for f in r.den):
        return r
    num, den = r.num, dict(r.den)
    for f in list(den):
        if isinstance(f, int) and f in red and f in CTX.sqrts:
            k = den.pop(f)
            if k & 1:  # 1/y = y/y^2
                num = P.mul(num, P.atom(f), red)
                k += 1
            base = S(red[f])
            inv = base.inverse()
            out = S(*_cancel(num, den))
            for _ in range(k // 2):
                out = _mul(out, inv)
            num, den = out.num, dict(out.den)
    num, den = _cancel(num, den)
    return S(num, den)


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e", "at")

    def __init__(self, e, at):
        self.e, self.at = e, at

    def __bool__(self):
        return CTX.decide(self)

    @staticmethod
    def lift(x):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (bool, np.bool_, int)):
            return SymBool(z3.BoolVal(bool(x)), frozenset())
        return None

    def __and__(self, o):
        o = SymBool.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(z3.And(self.e, o.e), self.at | o.at)

    __rand__ = __and__

    def __or__(self, o):
        o = SymBool.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(z3.Or(self.e, o.e), self.at | o.at)

    __ror__ = __or__

    def __xor__(self, o):
        o = SymBool.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(z3.Xor(self.e, o.e), self.at | o.at)

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e), self.at)

    def __eq__(self, o):
        o = SymBool.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(self.e == o.e, self.at | o.at)

    def __ne__(self, o):
        o = SymBool.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(z3.Not(self.e == o.e), self.at | o.at)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "<symbool>"

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def _compare(a, o, op):
    if isinstance(o, (float, np.floating)) and not math.isfinite(o):
        o = float(o)
        if o != o:
            return op == "!="
        return {"==": False, "!=": True, "<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
    b = S.lift(o)
    if b is None:
        if isinstance(o, F):
            return NotImplemented
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    return _cmp(_add(a, b, -1), op)


def _cmp(d, op):
    """d op 0"""
    if not d.num:
        return op in ("==", "<=", ">=")
    if d.is_const:
        return bool(OPS[op](d.value(), 0))
    sg = syntactic_sign(d)
    if sg == "pos":
        return op in ("!=", ">", ">=")
    if sg == "neg":
        return op in ("!=", "<", "<=")
    if sg == "nonneg" and op in ("<", ">="):
        return op == ">="
    if sg == "nonpos" and op in (">", "<="):
        return op == "<="
    num = d.num
    if d.den and op not in ("==", "!="):
        flip = 1
        for f, k in d.den.items():
            if k % 2 == 0:
                continue
            q = S(_fpoly(f))
            s = syntactic_sign(q) or CTX.solver_sign(q)
            if s in ("pos", "nonneg"):
                continue
            if s in ("neg", "nonpos"):
                flip = -flip
                continue
            num = P.mul(num, q.num, CTX.reduce)
        if flip < 0:
            num = P.scale(num, -1)
    # drop a positive monomial content
    c = P.content(num)
    drop = tuple((a, k) for a, k in c if CTX.sign.get(a) == "pos" or (k % 2 == 0 and CTX.sign.get(a) == "nonzero"))
    if drop:
        num = P.div_mono(num, drop)
    at = frozenset(P.atoms(num))
    return SymBool(OPS[op](CTX.zpoly(num), 0), at)


_FLIP0 = {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg", "zero": "zero", None: None}
_FLIP = {"pos": "neg", "neg": "pos", "nonneg": "nonpos", "nonpos": "nonneg"}


def poly_sign(p):
    """sign of a polynomial from cheap arguments only (no solver)"""
    if not p:
        return "zero"
    s = _poly_sign0(p)
    if s is not None or len(p) == 1 and not any(a in CTX.unit for m in p for a, _ in m):
        return s
    ctx = CTX
    k = P.key(p)
    s = ctx.psign.get(k)
    if s is not None:
        return s
    ver = ctx.sign_version
    hit = ctx.psign_miss.get(k)
    if hit == ver or len(p) > 60:
        return None
    if ctx.sign_depth > 6:
        return None
    ctx.sign_depth += 1
    try:
        s = _sign_content(p) or _sign_unit(p) or _sign_binomial(p)
    finally:
        ctx.sign_depth -= 1
    if s is None:
        ctx.psign_miss[k] = ver
    else:
        record_sign(p, s)
    return s


def record_sign(p, s):
    ctx = CTX
    if s == "zero":
        return
    ctx.psign[P.key(p)] = s
    ctx.psign[P.key(P.scale(p, -1))] = _FLIP[s]
    u, q = P.monic(p)
    if u != 1:
        ctx.psign[P.key(q)] = s if u > 0 else _FLIP[s]
    ctx.sign_version += 1
    if ctx.sign_depth <= 1 and len(p) <= 12:
        ctx.facts.append(({"pos": ctx.zpoly(p) > 0, "nonneg": ctx.zpoly(p) >= 0, "neg": ctx.zpoly(p) < 0,
                           "nonpos": ctx.zpoly(p) <= 0}[s], frozenset(P.atoms(p))))


def _sign_content(p):
    c = P.content(p)
    if not c:
        return None
    s = poly_sign(P.div_mono(p, c))
    if s in (None, "zero"):
        return s
    t = _poly_sign0({c: Fraction(1)})
    return sign_mul(s, t)


def sign_mul(s, t):
    if s is None or t is None:
        return None
    if s == "zero" or t == "zero":
        return "zero"
    neg = (s in ("neg", "nonpos")) != (t in ("neg", "nonpos"))
    strict = s in ("pos", "neg") and t in ("pos", "neg")
    return ("neg" if strict else "nonpos") if neg else ("pos" if strict else "nonneg")


def sign_add(s, t):
    if s == "zero":
        return t
    if t == "zero":
        return s
    if s in ("pos", "nonneg") and t in ("pos", "nonneg"):
        return "pos" if "pos" in (s, t) else "nonneg"
    if s in ("neg", "nonpos") and t in ("neg", "nonpos"):
        return "neg" if "neg" in (s, t) else "nonpos"
    return None


def _sign_unit(p):
    """p is affine in an atom that ranges over the unit interval"""
    unit = CTX.unit
    if not unit:
        return None
    deg = {}
    for m in p:
        for a, k in m:
            if a in unit:
                deg[a] = max(deg.get(a, 0), k)
    for a, k in sorted(deg.items()):
        if k != 1:
            continue
        p0, p1 = {}, {}
        for m, c in p.items():
            if any(b == a for b, _ in m):
                m2 = tuple(x for x in m if x[0] != a)
                v = p1.get(m2, 0) + c
                p1[m2] = v
            else:
                p0[m] = c
                p1[m] = p1.get(m, 0) + c
        p1 = {m: c for m, c in p1.items() if c}
        s0 = poly_sign(p0)
        if s0 is None:
            continue
        s1 = poly_sign(p1)
        if s1 is None:
            continue
        s = sign_add(s0, s1)
        if s is None:
            continue
        olo, ohi = unit[a]
        # p = (1-a) p0 + a p1
        strict = s in ("pos", "neg") and (
            (s0 in ("pos", "neg") and s1 in ("pos", "neg"))
            or (s1 in ("pos", "neg") and olo) or (s0 in ("pos", "neg") and ohi))
        if not strict and s in ("pos", "neg"):
            s = "nonneg" if s == "pos" else "nonpos"
        return s
    return None


def _sign_binomial(p):
    """c1*m1 - c2*m2 with positive atoms: compare the logarithms"""
    if len(p) != 2:
        return None
    (m1, c1), (m2, c2) = sorted(p.items(), key=lambda x: -x[1])
    if not (c1 > 0 > c2):
        return None
    ctx = CTX
    d = S({})
    common = set(m1) & set(m2)
    for m, k in ((m1, 1), (m2, -1)):
        for a, e in m:
            if (a, e) in common:
                if ctx.sign.get(a) != "pos":
                    return None
                continue
            if ctx.sign.get(a) != "pos":
                return None
            if a in ctx.exp_arg:
                l = ctx.exp_arg[a]
            else:
                b = ctx.ln_atom.get(S(P.atom(a)).key())
                if b is None:
                    return None
                l = S(P.atom(b))
            d = d + l * (e * k)
    r = c1 / -c2
    if r != 1:
        d = d + ctx.ln_const(r)
    return ln_sign(d)


def ln_sign(d):
    """sign of a combination of logarithms"""
    if not d.num:
        return "zero"
    s = syntactic_sign(d)
    if s is not None:
        return s
    ctx = CTX
    p = d.num
    den = None
    if d.den:
        den = "pos"
        for f, k in d.den.items():
            if k % 2:
                den = sign_mul(den, ctx.sign.get(f) if isinstance(f, int) else poly_sign(P.from_key(f)))
        if den is None:
            return None
    # q * (ln x - ln y)
    ls = [a for a in P.atoms(p) if a in ctx.ln_of]
    if len(ls) == 2:
        a, b = ls
        for x, y in ((a, b), (b, a)):
            q = P.exact_div(p, {((x, 1),): Fraction(1), ((y, 1),): Fraction(-1)})
            if q:
                s = sign_mul(poly_sign(q), syntactic_sign(ctx.ln_of[x] - ctx.ln_of[y]))
                return s if den is None else sign_mul(s, den)
    if len(ls) == 1:
        q = P.exact_div(p, {((ls[0], 1),): Fraction(1)})
        if q:
            s = sign_mul(poly_sign(q), syntactic_sign(ctx.ln_of[ls[0]] - 1))
            return s if den is None else sign_mul(s, den)
    return None


def _poly_sign0(p):
    """syntactic sign of a polynomial from the signs of its atoms"""
    sign = CTX.sign
    pos = neg = True
    strict = False
    for m, c in p.items():
        s = 1
        zero_ok = False
        for a, k in m:
            t = sign.get(a)
            if k % 2 == 0:
                if t in ("pos", "neg", "nonzero"):
                    continue
                zero_ok = True
            elif t == "pos":
                continue
            elif t == "nonneg":
                zero_ok = True
            elif t == "neg":
                s = -s
            elif t == "nonpos":
                s = -s
                zero_ok = True
            else:
                return None
        if (c > 0) == (s > 0):
            neg = False
        else:
            pos = False
        if not zero_ok:
            strict = True
        if not pos and not neg:
            return None
    if pos:
        return "pos" if strict else "nonneg"
    return "neg" if strict else "nonpos"


def syntactic_sign(x):
    if not x.num:
        return "zero"
    s = poly_sign(x.num)
    if s is None:
        return None
    for f, k in x.den.items():
        if k % 2 == 0:
            continue
        t = CTX.sign.get(f) if isinstance(f, int) else poly_sign(P.from_key(f))
        if t in ("pos", "nonneg"):
            continue
        if t in ("neg", "nonpos"):
            s = _FLIP0[s]
            continue
        return None
    return s


# --------------------------------------------------------------------------
# elementary functions
def mono_s(m, c=1):
    return S({m: Fraction(c)})


def sexp(t):
    ctx = CTX
    if not t.num:
        return S(P.const(1))
    k = t.key()
    if k in ctx.exp_memo:
        return ctx.exp_memo[k]
    den = S(P.const(1), t.den) if t.den else None
    out = S(P.const(1))
    for m, c in sorted(t.num.items()):
        base = mono_s(m)
        if den is not None:
            base = _mul(base, den)
        out = _mul(out, _exp_term(base, c))
    ctx.exp_memo[k] = out
    if not (len(t.num) == 1 and abs(next(iter(t.num.values()))) == 1):
        ctx.add_pair(t, out)
    else:
        ctx.add_pair(t, out)
    return out


def _exp_term(base, c):
    """exp(c * base) for a single-term base and rational c"""
    ctx = CTX
    # base = monomial/den with unit coefficient (maybe other after cancelling)
    if len(base.num) == 1:
        (m, k), = base.num.items()
        if k != 1:
            c = c * k
            base = S({m: Fraction(1)}, base.den)
        if not base.den and len(m) == 1 and m[0][1] == 1 and m[0][0] in ctx.ln_of:
            x = ctx.ln_of[m[0][0]]
            if c.denominator == 1:
                return ipow(x, c.numerator)
            if c.denominator == 2:
                return ipow(ssqrt(x), c.numerator)
    p, q = c.numerator, c.denominator
    if abs(p) > 120 or q > 120:
        # an exponent of many digits: an atom of its own, related to the others by order only
        base, p, q = base * abs(c), (1 if p > 0 else -1), 1
    root = base if q == 1 else base / q
    key = root.key()
    a = ctx.exp_atom.get(key)
    if a is None:
        a = ctx.new_atom("exp", sign="pos")
        ctx.exp_atom[key] = a
        ctx.exp_arg[a] = root
        ctx.add_pair(root, S(P.atom(a)))
        # relate to other roots of the same base
        for (bk, q2), a2 in list(ctx.exp_roots.items()):
            if bk == base.key():
                l = q * q2 // math.gcd(q, q2)
                if l > 720:
                    continue
                ctx.fact(_cmp(ipow(S(P.atom(a)), l // q2) - ipow(S(P.atom(a2)), l // q), "=="))
        ctx.exp_roots[(base.key(), q)] = a
    return ipow(S(P.atom(a)), p)


def ipow(x, n):
    if n == 0:
        return S(P.const(1))
    if n < 0:
        return ipow(x, -n).inverse()
    num = P.power(x.num, n, CTX.reduce)
    return S(num, {f: k * n for f, k in x.den.items()}) if not x.den else _mulpow(x, n)


def _mulpow(x, n):
    r = x
    for _ in range(n - 1):
        r = _mul(r, x)
    return r


def spow(x, e):
    if e.is_const:
        v = e.value()
        if v.denominator == 1 and abs(v.numerator) <= 64:
            return ipow(x, v.numerator)
        if v.denominator == 2 and abs(v.numerator) <= 9:
            return ipow(ssqrt(x), v.numerator)
    if not x.num:
        if bool(e > 0):
            return S({})
        if bool(e == 0):
            return S(P.const(1))
        raise Domain("zero to a negative power")
    if x.is_const and x.value() == 1:
        return S(P.const(1))
    if syntactic_sign(x) != "pos":
        # 0**e with e>0 is a legitimate value of numpy's power
        sg = syntactic_sign(x) or CTX.solver_sign(x)
        if sg != "pos":
            z = x == 0
            if (z if isinstance(z, bool) else bool(z)):
                if bool(e > 0):
                    return S({})
                if bool(e == 0):
                    return S(P.const(1))
                raise Domain("zero to a negative power")
    return sexp(_mul(e, sln(x)))


def sln(x):
    ctx = CTX
    if x.is_const:
        v = x.value()
        if v <= 0:
            raise Domain("log of a non-positive number")
        return ctx.ln_const(v)
    k = x.key()
    if k in ctx.ln_memo:
        return ctx.ln_memo[k]
    sg = syntactic_sign(x)
    if sg != "pos":
        ctx.require(_cmp(x, ">"), "log of a non-positive number")
    # split products of provably positive parts
    out = S({})
    c = P.content(x.num)
    rest = P.div_mono(x.num, c)
    if ctx.positive_atoms([a for a, _ in c]) and all(
            ctx.positive_factor(f) for f in x.den):
        for a, e in c:
            out = out + _ln_atom(a) * e
        for f, e in x.den.items():
            out = out - (_ln_atom(f) if isinstance(f, int) else _ln_poly(P.from_key(f))) * e
        u, r = P.monic(rest)
        if P.is_const(r):
            u *= P.const_value(r)
            out = out + ctx.ln_const(u)
        else:
            if u > 0:
                out = out + ctx.ln_const(u)
                out = out + _ln_poly(r)
            else:
                out = out + ctx.ln_const(-u)
                out = out + _ln_poly(P.scale(r, -1))
    else:
        out = _ln_opaque(x)
    ctx.ln_memo[k] = out
    ctx.add_pair(out, x)
    return out


def _ln_atom(a):
    ctx = CTX
    if a in ctx.exp_arg:
        return ctx.exp_arg[a]
    return _ln_poly(P.atom(a))


def _ln_poly(p):
    return _ln_opaque(S(p))


def _ln_opaque(x):
    ctx = CTX
    k = x.key()
    a = ctx.ln_atom.get(k)
    if a is None:
        a = ctx.new_atom("ln")
        ctx.ln_atom[k] = a
        ctx.ln_of[a] = x
        ctx.add_pair(S(P.atom(a)), x)
    return S(P.atom(a))


def ssqrt(x):
    ctx = CTX
    if x.is_const:
        v = x.value()
        if v < 0:
            raise Domain("sqrt of a negative number")
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return S(P.const(Fraction(n, d)))
    elif syntactic_sign(x) not in ("pos", "nonneg"):
        ctx.require(_cmp(x, ">="), "sqrt of a negative number")
    # sqrt(n/d) = sqrt(n*d)/d for d > 0
    outer = S(P.const(1))
    n = x.num
    if x.den:
        d = P.const(1)
        for f, k in x.den.items():
            h = k // 2 + (k & 1)
            fp = _fpoly(f)
            outer = outer * ipow(S(fp), h).inverse()
            if k & 1:
                n = P.mul(n, fp, ctx.reduce)
        sg = syntactic_sign(outer)
        if sg not in ("pos", "nonneg"):
            outer = abs(outer)
    # take squares of the content out
    c = P.content(n)
    take = tuple((a, k - (k & 1)) for a, k in c if k >= 2)
    if take:
        n = P.div_mono(n, take)
        for a, k in take:
            outer = outer * abs(ipow(S(P.atom(a)), k // 2))
    key = P.key(n)
    if P.is_const(n):
        return outer * (ssqrt(S(n)) if _perfect(P.const_value(n)) else _sqrt_atom(n, key))
    return outer * _sqrt_atom(n, key)


def _perfect(v):
    if v < 0:
        return False
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    return n * n == v.numerator and d * d == v.denominator


def _sqrt_atom(n, key):
    ctx = CTX
    if len(n) > 1 or not P.is_const(n):
        # a perfect square of a known polynomial?
        for g in ctx.square_roots:
            if ctx.square_roots[g] == key:
                return abs(S(P.from_key(g)))
    a = ctx.sqrt_atom.get(key)
    if a is None:
        s = poly_sign(n)
        a = ctx.new_atom("sqrt", sign="pos" if s == "pos" else "nonneg")
        ctx.sqrt_atom[key] = a
        ctx.sqrts.add(a)
        ctx.fact(SymBool(ctx.zvar[a] * ctx.zvar[a] == ctx.zpoly(n), frozenset(P.atoms(n) | {a})), a)
        ctx.reduce[a] = n
    return S(P.atom(a))


def _trig(x):
    """(sin, cos) of x as S"""
    ctx = CTX
    k = x.key()
    if k in ctx.trig:
        return ctx.trig[k]
    if not x.num:
        r = (S({}), S(P.const(1)))
    else:
        pi = ctx.consts.get("pi")
        r = None
        if pi is not None and not x.den and len(x.num) == 1:
            (m, c), = x.num.items()
            if m == ((pi, 1),):
                c4 = c * 2
                if c4.denominator == 1:
                    q = int(c4) % 4
                    r = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
                    r = (S(P.const(r[0])), S(P.const(r[1])))
        if r is None:
            neg = x.num and all(v < 0 for v in x.num.values())
            if neg:
                s, c = _trig(-x)
                r = (-s, c)
            else:
                c = ctx.new_atom("cos")
                s = ctx.new_atom("sin")
                ctx.reduce[s] = P.add(P.const(1), {((c, 2),): Fraction(-1)})
                zc, zs = ctx.zvar[c], ctx.zvar[s]
                both = frozenset([c, s])
                ctx.fact(SymBool(zc * zc + zs * zs == 1, both), c)
                ctx.fact(SymBool(z3.And(zc >= -1, zc <= 1, zs >= -1, zs <= 1), both), c)
                r = (S(P.atom(s)), S(P.atom(c)))
                ctx.add_angle(x, r[0], r[1])
    ctx.trig[k] = r
    return r


def ssin(x):
    return _trig(x)[0]


def scos(x):
    return _trig(x)[1]


def sarccos(x):
    ctx = CTX
    pi = ctx.named_const("pi")
    if x.is_const:
        v = x.value()
        if v in (1, 0, -1):
            return {1: S({}), 0: pi / 2, -1: pi}[v]
    k = x.key()
    if k in ctx.arccos:
        return ctx.arccos[k]
    ctx.require(SymBool.lift(_cmp(x + 1, ">=")) & SymBool.lift(_cmp(x - 1, "<=")), "arccos outside [-1,1]")
    a = ctx.new_atom("acos", sign="nonneg")
    t = S(P.atom(a))
    ctx.fact(_cmp(t - pi, "<="), a)
    sn = ssqrt(1 - x * x)
    ctx.trig[t.key()] = (sn, x)
    ctx.add_angle(t, sn, x)
    ctx.arccos[k] = t
    return t


def apply_uf(name, *args, sign=None, lo=None, hi=None):
    """an uninterpreted function of real arguments, identified by the normal
    form of its arguments plus pairwise congruence"""
    ctx = CTX
    args = [S.lift(a) for a in args]
    key = (name,) + tuple(a.key() for a in args)
    if key in ctx.uf:
        return ctx.uf[key]
    a = ctx.new_atom(name, sign=sign)
    v = S(P.atom(a))
    if lo is not None:
        ctx.fact(_cmp(v - lo, ">="), a)
    if hi is not None:
        ctx.fact(_cmp(v - hi, "<="), a)
    for (k2, args2, v2) in ctx.uf_list:
        if k2 == name and len(args2) == len(args):
            eqs = [SymBool.lift(_cmp(p - q, "==")) for p, q in zip(args, args2)]
            if any(z3.is_false(e.e) for e in eqs):
                continue
            con = eqs[0]
            for e in eqs[1:]:
                con = con & e
            ctx.fact((~con) | SymBool.lift(_cmp(v - v2, "==")), a)
    ctx.uf_list.append((name, args, v))
    ctx.uf[key] = v
    return v


# --------------------------------------------------------------------------
# IEEE-754 doubles (comparison semantics)
F64 = z3.Float64()


class F:
    """a symbolic double (every bit pattern, NaN and infinities included)"""
    __slots__ = ("e", "at")
    ndim = 0
    shape = ()

    def __init__(self, e, at):
        self.e, self.at = e, at

    @staticmethod
    def lift(x):
        if isinstance(x, F):
            return x
        if isinstance(x, S):
            if x.is_const:
                return F(z3.FPVal(float(x.value()), F64), frozenset())
            return None
        if isinstance(x, (int, float, np.floating, np.integer)):
            return F(z3.FPVal(float(x), F64), frozenset())
        return None

    def _b(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = F.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(f(self.e, o.e), self.at | o.at)

    def __eq__(self, o):
        r = self._b(o, z3.fpEQ)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._b(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __lt__(self, o):
        return self._b(o, z3.fpLT)

    def __le__(self, o):
        return self._b(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._b(o, z3.fpGT)

    def __ge__(self, o):
        return self._b(o, z3.fpGEQ)

    def __hash__(self):
        return hash(self.e)

    def _a(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = F.lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        return F(f(z3.RNE(), a.e, b.e), self.at | o.at)

    def __add__(self, o):
        return self._a(o, z3.fpAdd)

    def __radd__(self, o):
        return self._a(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._a(o, z3.fpSub)

    def __rsub__(self, o):
        return self._a(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._a(o, z3.fpMul)

    def __rmul__(self, o):
        return self._a(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._a(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._a(o, z3.fpDiv, True)

    def __neg__(self):
        return F(z3.fpNeg(self.e), self.at)

    def __abs__(self):
        return F(z3.fpAbs(self.e), self.at)

    fabs = __abs__

    def isnan(self):
        return SymBool(z3.fpIsNaN(self.e), self.at)

    def isinf(self):
        return SymBool(z3.fpIsInf(self.e), self.at)

    def isfinite(self):
        return ~(self.isnan() | self.isinf())

    def same(self, o):
        """identical value (NaN equals NaN; zeros by sign)"""
        o = F.lift(o)
        return SymBool(self.e == o.e, self.at | o.at)

    def __bool__(self):
        return bool(SymBool(z3.Not(z3.fpIsZero(self.e)), self.at))

    def __float__(self):
        raise Unsupported("float() of a symbolic double")

    def __format__(self, spec):
        return "<fp>"

    def __repr__(self):
        return "<fp>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.decisions = 0

    def merge(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Input:
    __slots__ = ("name", "atom", "kind", "lo", "hi", "nominal", "z")

    def __init__(self, name, atom, kind, lo, hi, nominal, z):
        self.name, self.atom, self.kind = name, atom, kind
        self.lo, self.hi, self.nominal, self.z = lo, hi, nominal, z


class Ctx:
    """one symbolic execution of a harness along one path"""

    symbolic = True

    def __init__(self, prefix, stats, feas_ms=400, oblig_ms=20000, seed=1):
        self.prefix = list(prefix)
        self.trace = []
        self.stats = stats
        self.feas_ms, self.oblig_ms = feas_ms, oblig_ms
        self.seed = seed
        self.pending = []           # alternative prefixes discovered
        self.pc = []                # path constraints (z3, atoms)
        self.facts = []             # (z3, atoms)
        self.natoms = 0
        self.zvar = {}
        self.sign = {}
        self.reduce = {}
        self.sqrts = set()
        self.square_roots = {}
        self.factors = {}
        self.consts = {}
        self.exp_memo, self.exp_atom, self.exp_arg, self.exp_roots = {}, {}, {}, {}
        self.ln_memo, self.ln_atom, self.ln_of, self.ln_consts = {}, {}, {}, {}
        self.sqrt_atom, self.trig, self.arccos, self.uf, self.uf_list = {}, {}, {}, {}, []
        self.pairs = []
        self.pair_keys = set()
        self.angles = []
        self.inputs = {}
        self.order = []
        self.model = None
        self.draws = []             # random draws: dicts
        self.quads = []
        self.seeds = []
        self.reached = set()
        self.notes = {}
        self.undecided = []
        self.checked = []
        self.nonzero = set()
        self._zcache = {}
        self.domain_cuts = 0
        self.unit = {}
        self.psign, self.psign_miss = {}, {}
        self.sign_version = self.sign_depth = 0
        self.assumed = set()
        self.max_draws = 200
        self.quad_nodes = 2

    # ---- atoms
    def new_atom(self, kind, sign=None, name=None):
        a = self.natoms
        self.natoms += 1
        z = z3.Real(name or "%s!%d" % (kind, a))
        self.zvar[a] = z
        if sign:
            self.sign[a] = sign
            self.fact(SymBool({"pos": z > 0, "nonneg": z >= 0, "neg": z < 0,
                               "nonpos": z <= 0, "nonzero": z != 0}[sign], frozenset([a])), a)
        return a

    def fact(self, b, a=None):
        if isinstance(b, bool):
            if not b:
                raise Prune("contradictory fact")
            return
        self.facts.append((b.e, b.at))

    def named_const(self, name):
        a = self.consts.get(name)
        if a is None:
            a = self.new_atom(name, sign="pos", name=name)
            self.consts[name] = a
            v = {"pi": Fraction("3.14159265358979323846"),
                 "ln10": Fraction("2.30258509299404568402")}[name]
            e = Fraction(1, 10**18)
            z = self.zvar[a]
            self.facts.append((z3.And(z > z3.Q((v - e).numerator, (v - e).denominator),
                                      z < z3.Q((v + e).numerator, (v + e).denominator)), frozenset([a])))
            if name == "ln10":
                self.ln_of[a] = S(P.const(10))
        return S(P.atom(a))

    def ln_const(self, v):
        v = Fraction(v)
        if v == 1:
            return S({})
        k = 0
        while v >= 10:
            v /= 10
            k += 1
        while v < 1:
            v *= 10
            k -= 1
        out = self.named_const("ln10") * k if k else S({})
        if v != 1:
            a = self.ln_consts.get(v)
            if a is None:
                a = self.new_atom("lnc", sign="pos")
                self.ln_consts[v] = a
                self.ln_of[a] = S(P.const(v))
                f = Fraction(math.log(v)) if True else 0
                e = Fraction(1, 10**13)
                z = self.zvar[a]
                self.facts.append((z3.And(z > z3.Q((f - e).numerator, (f - e).denominator),
                                          z < z3.Q((f + e).numerator, (f + e).denominator)), frozenset([a])))
            out = out + S(P.atom(a))
        return out

    def zpoly(self, p):
        k = P.key(p)
        r = self._zcache.get(k)
        if r is None:
            terms = []
            for m, c in sorted(p.items()):
                t = None
                for a, e in m:
                    for _ in range(e):
                        t = self.zvar[a] if t is None else t * self.zvar[a]
                q = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
                terms.append(q if t is None else (t if c == 1 else q * t))
            r = terms[0] if len(terms) == 1 else (z3.Sum(terms) if terms else z3.RealVal(0))
            self._zcache[k] = r
        return r

    # ---- lemmas about transcendental pairs
    def add_pair(self, t, v):
        """v = exp(t)"""
        k = (t.key(), v.key())
        if k in self.pair_keys:
            return
        self.pair_keys.add(k)
        lem = []
        zero = SymBool.lift(_cmp0(t, ">")), SymBool.lift(_cmp0(t, "=="))
        one = SymBool.lift(_cmp0(v - 1, ">")), SymBool.lift(_cmp0(v - 1, "=="))
        lem.append(zero[0] == one[0])
        lem.append(zero[1] == one[1])
        lem.append(SymBool.lift(_cmp0(v - 1 - t, ">=")))
        if syntactic_sign(v) != "pos":
            lem.append(SymBool.lift(_cmp0(v, ">")))
        for (t2, v2) in self.pairs[-24:]:
            lem.append(SymBool.lift(_cmp0(t - t2, "<")) == SymBool.lift(_cmp0(v - v2, "<")))
            lem.append(SymBool.lift(_cmp0(t - t2, "==")) == SymBool.lift(_cmp0(v - v2, "==")))
        self.pairs.append((t, v))
        for b in lem:
            if not z3.is_true(b.e):
                self.facts.append((b.e, b.at))

    def add_angle(self, x, s, c):
        pi = self.named_const("pi")

        def rng(y):
            return SymBool.lift(_cmp0(y, ">=")) & SymBool.lift(_cmp0(y - pi, "<="))
        r = rng(x)
        b = (~r) | SymBool.lift(_cmp0(s, ">="))
        self.facts.append((b.e, b.at))
        for (x2, s2, c2) in self.angles[-8:]:
            r2 = rng(x2)
            lt = SymBool.lift(_cmp0(x - x2, "<")) == SymBool.lift(_cmp0(c - c2, ">"))
            eq = SymBool.lift(_cmp0(x - x2, "==")) == SymBool.lift(_cmp0(c - c2, "=="))
            b = (~(r & r2)) | (lt & eq)
            self.facts.append((b.e, b.at))
        # against the ends of the range
        ends = [(S({}), 1), (pi, -1)]
        for (y, cv) in ends:
            b = (~r) | (SymBool.lift(_cmp0(x - y, "==")) == SymBool.lift(_cmp0(c - cv, "==")))
            self.facts.append((b.e, b.at))
        self.angles.append((x, s, c))

    # ---- signs through the solver
    def solver_sign(self, x):
        k = ("sign", x.key())
        n = len(self.pc)
        hit = self.notes.get(k)
        if hit and (hit[0] is not None or hit[1] == n):
            return hit[0]
        at = x.atoms()
        z, d = x.z()
        if d is not None:
            return None
        res = None
        if self._check([(z <= 0, frozenset(at))], 250) == z3.unsat:
            res = "pos"
        elif self._check([(z >= 0, frozenset(at))], 250) == z3.unsat:
            res = "neg"
        elif self._check([(z < 0, frozenset(at))], 250) == z3.unsat:
            res = "nonneg"
        self.notes[k] = (res, n)
        return res

    def positive_factor(self, f):
        if isinstance(f, int):
            if self.sign.get(f) == "pos":
                return True
            return self.solver_sign(S(P.atom(f))) == "pos"
        p = P.from_key(f)
        return poly_sign(p) == "pos" or self.solver_sign(S(p)) == "pos"

    def positive_atoms(self, al):
        return all(self.positive_factor(a) for a in al)

    def known_nonzero(self, x):
        k = x.key()
        if k in self.nonzero:
            return True
        s = syntactic_sign(x)
        if s in ("pos", "neg"):
            return True
        return False

    def require(self, b, why):
        """continue only where b holds; the other side is a domain cut"""
        if isinstance(b, bool):
            if b:
                return
            raise Domain(why)
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return
        i = len(self.trace)
        if i >= len(self.prefix) and not z3.is_false(e):
            if self._check([(z3.Not(e), b.at)], self.feas_ms) == z3.unknown:
                # no value outside the domain was found: continue inside it
                self.trace.append(True)
                self.pc.append((e, b.at))
                self.assumed.add(why)
                return
        if not self.decide(b):
            raise Domain(why)

    # ---- solver
    def _slice(self, target_atoms, depth=None):
        want = set(target_atoms)
        used = []
        pool = [c for c in self.pc] + [c for c in self.facts]
        rounds = 0
        picked = [False] * len(pool)
        changed = True
        while changed and (depth is None or rounds < depth):
            changed = False
            rounds += 1
            new = set()
            for i, (e, at) in enumerate(pool):
                if not picked[i] and (at & want or not at):
                    picked[i] = True
                    used.append(e)
                    new |= at
            if new - want:
                want |= new
                changed = True
        return used

    def _solve(self, cons, ms, logic=True, seed=None):
        t0 = time.time()
        self.stats.queries += 1
        s = z3.SolverFor("QF_NRA") if logic else z3.Solver()
        s.set("timeout", int(ms))
        if seed is not None:
            try:
                s.set("random_seed", int(seed))
            except z3.Z3Exception:
                pass
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            # the memory limit of the worker
            r = z3.unknown
        self.stats.solver_time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, s

    _fp = False

    def _check(self, extra, ms, want_model=False):
        at = set()
        for e, a in extra:
            at |= a
        cons = self._slice(at) + [e for e, _ in extra]
        r, s = self._solve(cons, ms, logic=not self._fp)
        if want_model:
            return r, s
        return r

    def decide(self, b):
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.stats.decisions += 1
            key = e.get_id()
            rt = self._check([(e, b.at)], self.feas_ms)
            if rt == z3.unsat:
                v = False
                # the negation is implied: no alternative
            else:
                rf = self._check([(z3.Not(e), b.at)], self.feas_ms)
                if rf == z3.unsat:
                    v = True
                else:
                    v = True
                    self.pending.append(self.trace + [False])
        self.trace.append(v)
        self.pc.append((e if v else z3.Not(e), b.at))
        if len(self.trace) > 3000:
            raise Prune("too many decisions on a path")
        return v

    # ---- harness interface: inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nominal=None, open_hi=False):
        if name in self.inputs:
            return S(P.atom(self.inputs[name].atom))
        a = self.new_atom("in", sign="pos" if pos else ("nonneg" if nonneg or (lo is not None and not isinstance(lo, S) and lo >= 0) else None), name=name)
        x = S(P.atom(a))
        if lo is not None:
            self.add_bound(_cmp(x - lo, ">="))
        if hi is not None:
            self.add_bound(_cmp(x - hi, "<" if open_hi else "<="))
        if lo == 0 and hi == 1 and not isinstance(lo, S) and not isinstance(hi, S):
            self.unit[a] = (bool(pos), bool(open_hi))
        if nominal is None:
            l = lo if isinstance(lo, (int, float)) else None
            h = hi if isinstance(hi, (int, float)) else None
            if l is not None and h is not None:
                nominal = (l + h) / 2
            elif l is not None:
                nominal = l + 1.5
            elif h is not None:
                nominal = h - 1.5
            else:
                nominal = 1.5
        self.inputs[name] = Input(name, a, "real", lo, hi, nominal, self.zvar[a])
        self.order.append(name)
        return x

    def add_bound(self, b):
        if isinstance(b, bool):
            if not b:
                raise Prune("empty range")
            return
        self.facts.append((b.e, b.at))

    def double(self, name, nominal=1.5):
        if name in self.inputs:
            i = self.inputs[name]
            return F(i.z, frozenset([i.atom]))
        a = self.natoms
        self.natoms += 1
        z = z3.FP(name, F64)
        self.zvar[a] = z
        self._fp = True
        self.inputs[name] = Input(name, a, "fp", None, None, nominal, z)
        self.order.append(name)
        return F(z, frozenset([a]))

    def bool(self, name):
        """a symbolic boolean, decided by forking"""
        if name in self.inputs:
            i = self.inputs[name]
            return self.decide(SymBool(i.z, frozenset([i.atom])))
        a = self.natoms
        self.natoms += 1
        z = z3.Bool(name)
        self.zvar[a] = z
        self.inputs[name] = Input(name, a, "bool", None, None, False, z)
        self.order.append(name)
        return self.decide(SymBool(z, frozenset([a])))

    def choice(self, name, n):
        """a symbolic element of range(n), decided by forking"""
        if n == 1:
            return 0
        bits = max(1, (n - 1).bit_length())
        v = 0
        for k in range(bits):
            v |= int(self.bool("%s.b%d" % (name, k))) << k
        if v >= n:
            raise Prune("choice out of range")
        return v

    def array(self, name, n, **kw):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real("%s[%d]" % (name, i), **kw)
        return out

    def doubles(self, name, n):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.double("%s[%d]" % (name, i))
        return out

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise Prune("assumption")
            return
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return
        self.pc.append((e, b.at))
        if len(self.trace) >= len(self.prefix):
            if self._check([(z3.BoolVal(True), b.at)], self.feas_ms) == z3.unsat:
                raise Prune("assumption")

    # ---- harness interface: assertions
    def reach(self, tag):
        self.reached.add(tag)

    def check(self, b, label, strong=None):
        self.stats.obligations += 1
        if isinstance(b, (bool, np.bool_)):
            # still a statement about this path: it fails iff the path is feasible
            if b:
                self._solve([z3.BoolVal(False)], 1000)
                self.stats.discharged += 1
                return
            b = SymBool(z3.BoolVal(False), frozenset())
        neg = z3.Not(b.e)
        r = self._decide_unsat(neg, b.at)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        self.failed = (label, neg, b.at, strong)
        if r == z3.unknown:
            raise Candidate(label, "unknown")
        raise Candidate(label)

    def _decide_unsat(self, neg, at):
        s = z3.simplify(neg)
        if z3.is_false(s):
            self._solve([s], 1000)
            return z3.unsat
        best = z3.unknown
        if not self._fp:
            # 1. only what directly mentions the variables (weaker premises)
            cons = self._slice(at, depth=1) + [neg]
            r, _ = self._solve(cons, min(3000, self.oblig_ms))
            if r == z3.unsat:
                return r
        cons = self._slice(at) + [neg]
        r, _ = self._solve(cons, self.oblig_ms, logic=not self._fp)
        if r != z3.unknown:
            best = r
        else:
            r, _ = self._solve(cons, self.oblig_ms, logic=False)
            if r != z3.unknown:
                best = r
        if best == z3.sat or best == z3.unknown:
            # premises outside the cone may be contradictory
            allc = [e for e, _ in self.pc] + [e for e, _ in self.facts] + [neg]
            if len(allc) > len(cons):
                r2, _ = self._solve(allc, self.oblig_ms, logic=not self._fp)
                if r2 != z3.unknown:
                    best = r2
        return best

    def check_eq(self, a, b, label, tol=None):
        """equality of two reals (arrays element-wise)"""
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
            A, B = list(np.asarray(a, dtype=object).reshape(-1)), list(np.asarray(b, dtype=object).reshape(-1))
            if len(A) != len(B):
                return self.check(False, label + " (length)")
            for i, (x, y) in enumerate(zip(A, B)):
                self.check_eq(x, y, "%s[%d]" % (label, i))
            return
        if isinstance(a, F) or isinstance(b, F):
            return self.check((F.lift(a)).same(b), label)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return self.check(a == b and type(a) == type(b), label)
        x, y = S.lift(a), S.lift(b)
        if x is None or y is None:
            return self.check(bool(a == b), label)
        d = x - y
        r = _cmp(d, "==")
        if isinstance(r, bool):
            return self.check(r, label)
        strong = None
        try:
            # a clearly visible discrepancy, tried first for replay
            gap = (abs_ge(d, Fraction(1, 20)))
            strong = gap.e
        except Engine:
            pass
        self.check(r, label, strong)

    def check_any(self, alts, label):
        """some alternative holds; an alternative is a list of (a, b) pairs that are equal"""
        ors, far = [], []
        at = frozenset()
        for alt in alts:
            cs, fs, good = [], [], True
            for a, b in alt:
                d = S.lift(a) - S.lift(b)
                c = _cmp(d, "==")
                if isinstance(c, bool):
                    if not c:
                        good = False
                    continue
                cs.append(c.e)
                at |= c.at
                fs.append(abs_ge(d, Fraction(1, 20)))
            if not good:
                continue
            if not cs:
                return self.check(True, label)
            ors.append(z3.And(*cs))
            far.append(z3.Or(*[f.e for f in fs]))
        if not ors:
            return self.check(False, label)
        self.check(SymBool(z3.Or(*ors), at), label, z3.And(*far))

    def check_iff(self, flag, cond, label, near=None):
        c = SymBool.lift(cond)
        self.check(c if flag else ~c, label)

    def check_same(self, a, b, label):
        """structural equality of nested dict/list/array/scalar values"""
        if isinstance(a, dict) and isinstance(b, dict):
            if sorted(map(str, a)) != sorted(map(str, b)):
                return self.check(False, "%s keys %s / %s" % (label, sorted(map(str, a)), sorted(map(str, b))))
            for k in a:
                self.check_same(a[k], b[k], "%s.%s" % (label, k))
            return
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            A = list(np.asarray(a, dtype=object).reshape(-1)) if isinstance(a, np.ndarray) else list(a)
            B = list(np.asarray(b, dtype=object).reshape(-1)) if isinstance(b, np.ndarray) else list(b)
            if len(A) != len(B):
                return self.check(False, label + " length %d/%d" % (len(A), len(B)))
            for i, (x, y) in enumerate(zip(A, B)):
                self.check_same(x, y, "%s[%d]" % (label, i))
            return
        if isinstance(a, (S, F)) or isinstance(b, (S, F)):
            if a is None or b is None or isinstance(a, (str, bytes, dict, list)) or isinstance(b, (str, bytes, dict, list)):
                return self.check(False, label + " kind")
            return self.check_eq(a, b, label)
        if isinstance(a, (bool, int, float, np.integer, np.floating, np.bool_)) and isinstance(
                b, (bool, int, float, np.integer, np.floating, np.bool_)):
            return self.check(bool(a == b) or (a != a and b != b), "%s %r/%r" % (label, a, b))
        self.check(type(a) == type(b) and a == b, "%s %r/%r" % (label, a, b))

    def feasible(self):
        allc = [e for e, _ in self.pc] + [e for e, _ in self.facts]
        r, s = self._solve(allc, 3000, logic=not self._fp)
        return r, (s if r == z3.sat else None)

    # ---- concretisation
    def models(self, extra, attempts, wide=False, patience=6000):
        """yield input assignments satisfying path /\\ facts /\\ extra"""
        import random
        base = [e for e, _ in self.pc] + [e for e, _ in self.facts] + list(extra)
        seen = set()
        rnd = random.Random(self.seed)
        for k in range(attempts):
            cons = list(base)
            deadline = time.time() + 12
            r, s = self._solve(cons, patience, logic=not self._fp)
            if r == z3.unsat:
                return
            m = s.model() if r == z3.sat else None
            # pull inputs towards (jittered) nominal values, one group at a time
            ins = [self.inputs[n] for n in self.order]
            if k:
                rnd.shuffle(ins)
            todo = [[i for i in ins if i.kind != "bool"]]
            want = {}
            while todo and time.time() <= deadline:
                group = todo.pop(0)
                if not group:
                    continue
                for inp in group:
                    if inp.name in want:
                        continue
                    if inp.kind == "real":
                        nom = jitter(inp.nominal, inp, rnd, wide and k > 2) if k else inp.nominal
                        f = Fraction(nom).limit_denominator(10 ** 6)
                        want[inp.name] = inp.z == z3.Q(f.numerator, f.denominator)
                    else:
                        want[inp.name] = inp.z == z3.FPVal(float(inp.nominal if not k else jitter(inp.nominal, inp, rnd)), F64)
                cs = [want[i.name] for i in group]
                r2, s2 = self._solve(cons + cs, 300, logic=not self._fp)
                if r2 == z3.sat:
                    cons += cs
                    m = s2.model()
                elif len(group) > 1:
                    h = (len(group) + 1) // 2
                    todo[:0] = [group[:h], group[h:]]
                elif group[0].kind == "real" and r2 == z3.unsat:
                    inp = group[0]
                    for c in (z3.And(inp.z >= z3.Q(1, 4), inp.z <= 4), z3.And(inp.z >= -8, inp.z <= 8)):
                        r2, s2 = self._solve(cons + [c], 300)
                        if r2 == z3.sat:
                            cons.append(c)
                            m = s2.model()
                            break
            if m is None:
                # unknown: just offer nominal values
                vals = {i.name: (jitter(i.nominal, i, rnd) if k and i.kind != "bool" else i.nominal) for i in ins}
            else:
                vals = {i.name: model_value(m, i) for i in ins}
            kk = tuple(sorted((a, str(b)) for a, b in vals.items()))
            if kk in seen:
                continue
            seen.add(kk)
            yield vals


def _cmp0(d, op):
    """comparison with zero without solver sign queries or forks"""
    if not d.num:
        return op in ("==", "<=", ">=")
    if d.is_const:
        return bool(OPS[op](d.value(), 0))
    num = d.num
    if d.den and op not in ("==", "!="):
        for f, k in d.den.items():
            if k % 2 == 0:
                continue
            q = _fpoly(f)
            s = CTX.sign.get(f) if isinstance(f, int) else poly_sign(q)
            if s in ("pos", "nonneg"):
                continue
            num = P.mul(num, q, CTX.reduce)
    return SymBool(OPS[op](CTX.zpoly(num), 0), frozenset(P.atoms(num)))


def abs_ge(d, c):
    p = SymBool.lift(_cmp0(d - c, ">="))
    q = SymBool.lift(_cmp0(d + c, "<="))
    return p | q


def jitter(nom, inp, rnd, wide=False):
    lo = inp.lo if isinstance(inp.lo, (int, float)) else None
    hi = inp.hi if isinstance(inp.hi, (int, float)) else None
    if wide and rnd.random() < 0.4:
        # far from the nominal value, within the declared range
        x = 10 ** rnd.uniform(-4, 2.5) * rnd.choice((1, -1))
        if lo is not None:
            x = lo + abs(x)
        if hi is None or x <= hi:
            return round(x, 6)
    if lo is not None and hi is not None:
        return lo + (hi - lo) * rnd.uniform(0.03, 0.97)
    x = nom * rnd.uniform(0.5, 1.9) + rnd.uniform(-0.2, 0.2)
    if lo is not None and x < lo:
        x = lo + rnd.uniform(0.1, 2)
    if hi is not None and x > hi:
        x = hi - rnd.uniform(0.1, 2)
    return round(x, 3)


def model_value(m, inp):
    v = m.eval(inp.z, model_completion=True)
    if inp.kind == "bool":
        return bool(z3.is_true(v))
    if inp.kind == "fp":
        if z3.is_fp(v):
            s = z3.simplify(v)
            if s.isNaN():
                return float("nan")
            if s.isInf():
                return float("-inf") if s.isNegative() else float("inf")
            bv = z3.simplify(z3.fpToIEEEBV(s)).as_long()
            import struct
            return struct.unpack("<d", struct.pack("<Q", bv))[0]
        return 0.0
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return float(inp.nominal)


def set_ctx(c):
    global CTX
    CTX = c
