"""Reversible replacement of the numeric libraries seen by popsynth.

symbolic mode  numpy / scipy / astropy entry points are replaced by versions
               that accept symbolic reals; random numbers are symbolic inputs
concrete mode  everything is the real library; only the random number
               generators are replaced, by ones that return the values of the
               counterexample under replay (through the same formulas)
"""
import builtins
import math
import random as _pyrandom
import sys

import numpy as np
import scipy
import scipy.integrate
import scipy.special
import scipy.stats
import z3

from . import core
from .core import Domain, Prune, S, F, SymBool, Unsupported

JIT_CODES = {}          # code objects of functions handed to numba.njit/jit


def mark_jit():
    """record functions compiled by numba (their np.random is a generator of
    its own that np.random.seed does not reach)"""
    import numba

    def wrap(real):
        def njit(*a, **k):
            if len(a) == 1 and not k and callable(a[0]) and hasattr(a[0], "__code__"):
                JIT_CODES[a[0].__code__] = a[0].__qualname__
                return real(a[0])
            r = real(*a, **k)
            if callable(r) and not hasattr(r, "py_func"):
                def deco(fn):
                    if hasattr(fn, "__code__"):
                        JIT_CODES[fn.__code__] = fn.__qualname__
                    return r(fn)
                return deco
            return r
        return njit
    for n in ("njit", "jit"):
        setattr(numba, n, wrap(getattr(numba, n)))


# --------------------------------------------------------------------------
# random numbers
class Env:
    """what the current run (symbolic or concrete) draws from"""
    ctx = None
    symbolic = False


def _stream_for_seed(ctx, seed):
    seeds = ctx.notes.setdefault("seed_list", [])
    ctx.seeds.append(seed)
    k = seed.key() if isinstance(seed, S) else (repr(seed) if not isinstance(seed, (int, np.integer)) else int(seed))
    if k not in seeds:
        seeds.append(k)
    return "s%d" % seeds.index(k)


def _state(ctx):
    st = ctx.notes.get("rng")
    if st is None:
        st = ctx.notes["rng"] = {"stream": "pre", "pos": {}, "fresh": 0}
    return st


def fresh_stream(label):
    """pretend an unknown amount of randomness was consumed elsewhere"""
    st = _state(Env.ctx)
    st["stream"] = label


class Base:
    """draws of one generator; stream None = the global one"""

    def __init__(self, stream=None):
        self._stream = stream

    def _next(self):
        ctx = Env.ctx
        st = _state(ctx)
        stream = self._stream or st["stream"]
        if JIT_CODES:
            f = sys._getframe(2)
            for _ in range(12):
                if f is None:
                    break
                if f.f_code in JIT_CODES:
                    stream = "numba:" + st.get("epoch", "0")
                    break
                f = f.f_back
        pos = st["pos"].get(stream, 0)
        st["pos"][stream] = pos + 1
        ctx.ndraws = getattr(ctx, "ndraws", 0) + 1
        if ctx.ndraws > ctx.max_draws:
            raise Prune("draw bound")
        return stream, pos

    def draw(self, kind, size, params, fn, check=None, integer=False):
        ctx = Env.ctx
        ps = [np.asarray(p, dtype=object) if not isinstance(p, np.ndarray) else p.view(np.ndarray) for p in params]
        shapes = [p.shape for p in ps]
        bs = np.broadcast_shapes(*shapes) if ps else ()
        if size is None:
            shape = bs
        else:
            if isinstance(size, S) and size.is_const:
                size = int(size.value())
            shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
            if bs and np.broadcast_shapes(bs, shape) != shape:
                raise ValueError("size does not match the broadcast shape of the parameters")
        ps = [np.broadcast_to(p, shape) for p in ps]
        dt = object if (Env.symbolic and not integer) else (int if integer else float)
        out = np.empty(shape, dtype=dt)
        for idx in np.ndindex(*shape):
            pv = [p[idx] for p in ps]
            if not Env.symbolic:
                pv = [float(v) for v in pv]
            if check is not None:
                check(*pv)
            stream, pos = self._next()
            name = "%s%d@%s" % (kind[0], pos, stream)
            if kind[0] == "u":
                b = ctx.real(name, lo=0, hi=1, open_hi=True, nominal=0.3 + 0.4 * ((pos * 7) % 5) / 5)
            elif kind[0] == "z":
                b = ctx.real(name, nominal=0.5 - 0.3 * (pos % 4))
            elif kind[0] == "e":
                b = ctx.real(name, nonneg=True, lo=0, nominal=0.7 + 0.3 * (pos % 3))
            elif kind[0] == "t":
                b = ctx.real(name, lo=pv[0], hi=pv[1])
            else:
                raise AssertionError(kind)
            v = fn(b, *pv)
            ctx.draws.append({"kind": kind, "name": name, "base": b, "params": pv, "value": v,
                              "stream": stream, "pos": pos})
            out[idx] = v
        if shape == ():
            return out[()]
        return out

    # ---- numpy.random interface
    def seed(self, seed=None):
        ctx = Env.ctx
        st = _state(ctx)
        if seed is None:
            st["fresh"] += 1
            st["stream"] = "fresh%d" % st["fresh"]
        else:
            st["stream"] = _stream_for_seed(ctx, seed)
        st["pos"][st["stream"]] = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.draw("u", size, [low, high], lambda u, a, b: a + (b - a) * u)

    def random(self, size=None):
        return self.draw("u", size, [], lambda u: u)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.draw("z", size, [loc, scale], lambda z, m, s: m + s * z, _scale_nonneg)

    def standard_normal(self, size=None):
        return self.draw("z", size, [], lambda z: z)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self.draw("z", size, [mean, sigma], lambda z, m, s: _exp(m + s * z), _scale_nonneg)

    def exponential(self, scale=1.0, size=None):
        return self.draw("e", size, [scale], lambda e, s: s * e, lambda s: _req(s >= 0, "scale < 0"))

    def standard_exponential(self, size=None):
        return self.draw("e", size, [], lambda e: e)

    def pareto(self, a, size=None):
        return self.draw("e", size, [a], lambda e, k: _exp(e / k) - 1, lambda k: _req(k > 0, "a <= 0"))

    def binomial(self, n, p, size=None):
        if not (isinstance(n, (int, np.integer)) and n == 1):
            raise Unsupported("binomial with n != 1")
        return bernoulli(self, p, size)

    def poisson(self, lam=1.0, size=None):
        ctx = Env.ctx
        if size is not None:
            raise Unsupported("array of poisson draws")
        _req(lam >= 0, "lam < 0")
        stream, pos = self._next()
        n = ctx.poisson_n
        if getattr(ctx, "poisson_named", None) is not None:
            n = ctx.poisson_named("p%d@%s" % (pos, stream))
        elif callable(n):
            n = n()
        ctx.draws.append({"kind": "poisson", "name": "p%d@%s" % (pos, stream), "base": n, "params": [lam],
                          "value": n, "stream": stream, "pos": pos})
        return n

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        low, high = int(low), int(high)
        k = high - low

        def pick(u):
            for i in range(k - 1):
                if bool(u * k < i + 1):
                    return low + i
            return high - 1
        return self.draw("u:int", size, [], pick, integer=True)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or (not replace and size is not None):
            raise Unsupported("weighted choice")
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        return arr[self.randint(0, len(arr), size)]

    def get_state(self, *a, **k):
        return dict(_state(Env.ctx), pos=dict(_state(Env.ctx)["pos"]))

    def set_state(self, st):
        Env.ctx.notes["rng"] = dict(st, pos=dict(st["pos"]))

    def default_rng(self, seed=None):
        ctx = Env.ctx
        st = _state(ctx)
        if isinstance(seed, Base):
            return seed
        if seed is None:
            st["fresh"] += 1
            return Base("fresh%d" % st["fresh"])
        s = _stream_for_seed(ctx, seed)
        st["pos"]["g" + s] = 0
        return Base("g" + s)

    RandomState = default_rng

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random.%s" % n)


GLOBAL = Base()


def _exp(x):
    return core.sexp(S.lift(x)) if Env.symbolic else math.exp(x)


def _log(x):
    return core.sln(S.lift(x)) if Env.symbolic else math.log(x)


def _req(b, why):
    if Env.symbolic:
        core.CTX.require(b if not isinstance(b, np.bool_) else bool(b), why)
    elif not b:
        raise ValueError(why)


def _scale_nonneg(m, s):
    _req(s >= 0, "scale < 0")


def bernoulli(gen, p, size=None):
    def chk(q):
        _req(q >= 0, "p < 0")
        _req(q <= 1, "p > 1")
    return gen.draw("u:bern", size, [p], lambda u, q: int(bool(u < q)), chk, integer=True)


class Dist:
    """scipy.stats distribution with stubbed rvs"""

    def __init__(self, real, rvs, funcs=None, args=()):
        self._real, self._rvs, self._funcs, self._args = real, rvs, funcs or {}, args

    def __call__(self, *a, **k):
        return Frozen(self, a, k)

    def rvs(self, *a, size=None, random_state=None, **k):
        gen = GLOBAL
        if isinstance(random_state, Base):
            gen = random_state
        elif random_state is not None:
            gen = GLOBAL.default_rng(random_state)
        return self._rvs(gen, a, k, size)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if Env.symbolic:
            if n in self._funcs:
                return self._funcs[n]
            raise Unsupported("scipy.stats %s" % n)
        return getattr(self._real, n)


class Frozen:
    def __init__(self, d, a, k):
        self.d, self.a, self.k = d, a, k

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self.d, n)
        if n == "rvs":
            return lambda size=1, random_state=None: f(*self.a, size=size, random_state=random_state, **self.k)
        return lambda x, *b, **k: f(x, *(self.a + b), **dict(self.k, **k))


def _ls(names, a, k, defaults):
    """positional/keyword arguments of a scipy rvs call"""
    out = dict(defaults)
    for n, v in zip(names, a):
        out[n] = v
    for n, v in k.items():
        if n not in names:
            raise TypeError("unexpected %s" % n)
        out[n] = v
    return [out[n] for n in names if n != "size"], out.get("size")


def _mk(names, defaults, fn):
    full = list(names) + ["loc", "scale", "size"]
    d = dict(defaults, loc=0.0, scale=1.0, size=1)

    def rvs(gen, a, k, size):
        args, sz = _ls(full, a, k, d)
        if size is None:
            size = sz
        if size == 1 and any(np.ndim(x) for x in args):
            size = None if all(np.size(x) == 1 for x in args) else size
        r = fn(gen, args, size)
        return r
    return rvs


def _size1(f):
    def g(gen, args, size):
        if size == 1 and not any(np.ndim(x) for x in args):
            r = f(gen, args, None)     # scipy returns a scalar for size=1
            return r
        return f(gen, args, size)
    return g


def _scalar_as_scipy(rvs):
    """scipy: rvs(size=1) gives a scalar only when size was not passed"""
    return rvs


def r_norm(gen, args, size):
    return gen.normal(args[0], args[1], size)


def r_uniform(gen, args, size):
    return gen.draw("u", size, args, lambda u, l, s: l + s * u)


def r_expon(gen, args, size):
    return gen.draw("e", size, args, lambda e, l, s: l + s * e)


def r_pareto(gen, args, size):
    return gen.draw("e", size, args, lambda e, b, l, s: l + s * _exp(e / b), lambda b, l, s: _req(b > 0, "b"))


def r_lognorm(gen, args, size):
    return gen.draw("z", size, args, lambda z, q, l, s: l + s * _exp(q * z), lambda q, l, s: _req(q >= 0, "s"))


def r_logunif(gen, args, size):
    def chk(a, b, l, s):
        _req(a > 0, "a")
        _req(a < b, "a<b")
    return gen.draw("u", size, args, lambda u, a, b, l, s: l + s * _exp(_log(a) + u * (_log(b) - _log(a))), chk)


def r_truncnorm(gen, args, size):
    def chk(a, b, l, s):
        _req(a < b, "a<b")
        _req(s > 0, "scale")
    return gen.draw("t", size, args, lambda t, a, b, l, s: l + s * t, chk)


def r_bern(gen, args, size):
    return bernoulli(gen, args[0], size)


def r_poisson(gen, args, size):
    return gen.poisson(args[0], None if size == 1 else size)


def _norm_ppf(q, loc=0.0, scale=1.0):
    return _vec(lambda q: core.apply_uf("norm.ppf", q), q) * scale + loc


def _norm_cdf(x, loc=0.0, scale=1.0):
    return _vec(lambda v: core.apply_uf("norm.cdf", v, lo=0, hi=1), (x - loc) / scale)


def _norm_pdf(x, loc=0.0, scale=1.0):
    y = (x - loc) / scale
    pi = core.CTX.named_const("pi")
    return _vec(lambda v: core.sexp(-v * v / 2), y) / (scale * core.ssqrt(pi * 2))


class Mod:
    """a library module with some attributes replaced"""

    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            v = o[n]
            if isinstance(v, property):
                return v.fget(self)
            return v
        return getattr(self.__dict__["_real"], n)

    def __setattr__(self, n, v):
        raise Unsupported("setting a library attribute")


def stats_over():
    st = scipy.stats
    return {
        "norm": Dist(st.norm, _mk([], {}, r_norm), {"ppf": _norm_ppf, "pdf": _norm_pdf, "cdf": _norm_cdf}),
        "uniform": Dist(st.uniform, _mk([], {}, r_uniform)),
        "expon": Dist(st.expon, _mk([], {}, r_expon)),
        "pareto": Dist(st.pareto, _mk(["b"], {}, r_pareto)),
        "lognorm": Dist(st.lognorm, _mk(["s"], {}, r_lognorm)),
        "loguniform": Dist(st.loguniform, _mk(["a", "b"], {}, r_logunif)),
        "reciprocal": Dist(st.reciprocal, _mk(["a", "b"], {}, r_logunif)),
        "truncnorm": Dist(st.truncnorm, _mk(["a", "b"], {}, r_truncnorm)),
        "bernoulli": Dist(st.bernoulli, _mk_disc(["p"], r_bern)),
        "poisson": Dist(st.poisson, _mk_disc(["mu"], r_poisson)),
    }


def _mk_disc(names, fn):
    full = list(names) + ["loc", "size"]

    def rvs(gen, a, k, size):
        args, sz = _ls(full, a, k, dict(loc=0, size=1))
        if size is None:
            # scipy: size=1 default gives a scalar for scalar parameters
            size = sz
            if size == 1:
                size = None
        r = fn(gen, args[:-1], size)
        loc = args[-1]
        return r if isinstance(loc, (int, float)) and loc == 0 else r + loc
    return rvs


def _mk(names, defaults, fn):  # noqa: F811  (continuous counterpart of _mk_disc)
    full = list(names) + ["loc", "scale", "size"]

    def rvs(gen, a, k, size):
        args, sz = _ls(full, a, k, dict(defaults, loc=0.0, scale=1.0, size=1))
        if size is None:
            size = sz
            if size == 1:
                size = None
        return fn(gen, args, size)
    return rvs


# --------------------------------------------------------------------------
# symbolic numpy
def has_sym(x, depth=3):
    if isinstance(x, (S, F)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def _vec(f, x):
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out if a.shape else out[()]
    if isinstance(x, (list, tuple)):
        return _vec(f, np.array(x, dtype=object))
    return f(x)


def _lift(x):
    if isinstance(x, (S, F)):
        return x
    r = S.lift(x)
    if r is None:
        raise Unsupported("cannot read %r as a real" % type(x).__name__)
    return r


def _simvar(x):
    return isinstance(x, np.ndarray) and type(x) is not np.ndarray


def unary(name, fn):
    real = getattr(np, name)

    def f(x, *a, **k):
        if a or k or _simvar(x):
            return real(x, *a, **k)
        if isinstance(x, np.ndarray) and x.dtype != object and x.size > 64:
            return real(x)
        try:
            if isinstance(x, (float, int, np.floating, np.integer)) or (isinstance(x, np.ndarray) and x.dtype != object):
                # plain numbers: stay exact where possible
                return _vec(lambda v: fn(_lift(v)), x)
        except Domain:
            return real(x)
        return _vec(lambda v: fn(_lift(v)), x)
    f.__name__ = name
    return f


def _m(name):
    return lambda v: getattr(v, name)()


def _float_dtype(dtype):
    if dtype is None:
        return True
    if dtype in (float, "float", "float64", "f8", "d", np.float64, np.float32, "f4", "float32") or dtype in (FloatShim, F64Shim, F32Shim):
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _real_dtype(dtype):
    if dtype in (FloatShim, F64Shim, F32Shim):
        return float
    if dtype is IntShim:
        return int
    return dtype


def _filled(shape, v):
    if isinstance(shape, S):
        shape = int(shape)
    out = np.empty(shape, dtype=object)
    out[...] = v
    return out


def n_zeros(shape, dtype=None, *a, **k):
    if _float_dtype(dtype):
        return _filled(shape, S.lift(0))
    return np.zeros(shape, dtype=_real_dtype(dtype))


def n_ones(shape, dtype=None, *a, **k):
    if _float_dtype(dtype):
        return _filled(shape, S.lift(1))
    return np.ones(shape, dtype=_real_dtype(dtype))


def n_empty(shape, dtype=None, *a, **k):
    if _float_dtype(dtype):
        return _filled(shape, S.lift(0))
    return np.empty(shape, dtype=_real_dtype(dtype))


def n_full(shape, v, dtype=None, *a, **k):
    if dtype is None and isinstance(v, (bool, np.bool_, int, np.integer)):
        return np.full(shape, v)
    if _float_dtype(dtype):
        return _filled(shape, v)
    return np.full(shape, v, dtype=_real_dtype(dtype))


def _like(v):
    def f(a, dtype=None, *r, **k):
        a0 = np.asarray(a)
        if dtype is None:
            if a0.dtype.kind in "biu":
                return {0: np.zeros_like, 1: np.ones_like, None: np.empty_like}[v](a)
            return _filled(a0.shape, S.lift(v or 0)) if a0.shape else np.array(S.lift(v or 0), dtype=object)
        if _float_dtype(dtype):
            return _filled(a0.shape, S.lift(v or 0))
        return {0: np.zeros_like, 1: np.ones_like, None: np.empty_like}[v](a0, dtype=_real_dtype(dtype))
    return f


def n_full_like(a, v, dtype=None, *r, **k):
    return n_full(np.asarray(a).shape, v, dtype)


def _arr(real):
    def f(x, dtype=None, *a, **k):
        if has_sym(x) and (dtype is None or _float_dtype(dtype)):
            if dtype is None:
                return real(x, *a, **k)
            return real(x, object, *a, **k)
        if dtype is None:
            return real(x, *a, **k)
        return real(x, _real_dtype(dtype), *a, **k)
    return f


def n_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym([start, stop]):
        return np.linspace(start, stop, num, endpoint, retstep, _real_dtype(dtype), axis)
    num = int(num)
    ctx = core.CTX
    cap = getattr(ctx, "linspace_cap", 6)
    pts = range(num)
    div = (num - 1) if endpoint else num
    if num > cap + 6:
        pts = sorted({round(i * (num - 1) / (cap - 1)) for i in range(cap)})
        ctx.notes["coarse_grid"] = (num, cap)
    ctx.notes.setdefault("linspaces", []).append((start, stop, num, endpoint))
    out = np.empty(len(list(pts)), dtype=object)
    for j, i in enumerate(pts):
        out[j] = _lift(start) + (_lift(stop) - _lift(start)) * core.Fraction(i, div) if div else _lift(start)
    return (out, None) if retstep else out


def n_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if not has_sym([start, stop, base]):
        return np.logspace(start, stop, num, endpoint, base, _real_dtype(dtype), axis)
    return _vec(lambda v: core.spow(_lift(base), v), n_linspace(start, stop, num, endpoint))


def n_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    return _vec(core.sexp, n_linspace(core.sln(_lift(start)), core.sln(_lift(stop)), num, endpoint))


def sym_extreme(vals, sgn):
    """maximum (sgn=1) / minimum (-1) as a fresh constrained value"""
    ctx = core.CTX
    vals = list(vals)
    uniq = {}
    for v in vals:
        v = _lift(v)
        if isinstance(v, F):
            raise Unsupported("extreme of doubles")
        uniq.setdefault(v.key(), v)
    us = list(uniq.values())
    if all(u.is_const for u in us):
        return S(core.P.const(max(u.value() for u in us) if sgn > 0 else min(u.value() for u in us)))
    if len(us) == 1:
        return us[0]
    memo = ctx.notes.setdefault("extreme_memo", {})
    mk = (sgn,) + tuple(sorted(map(repr, uniq)))
    if mk in memo:
        m = memo[mk]
        ctx.notes.setdefault("extremes", []).append((sgn, us, m))
        return m
    sign = "pos" if all(core.syntactic_sign(u) == "pos" for u in us) else (
        "nonneg" if all(core.syntactic_sign(u) in ("pos", "nonneg", "zero") for u in us) else None)
    a = ctx.new_atom("max" if sgn > 0 else "min", sign=sign)
    m = memo[mk] = S(core.P.atom(a))
    eqs = []
    for u in us:
        ctx.fact(core._cmp0(m - u, ">=" if sgn > 0 else "<="), a)
        eqs.append(SymBool.lift(core._cmp0(m - u, "==")))
    ctx.fact(SymBool(z3.Or(*[e.e for e in eqs]), frozenset().union(*[e.at for e in eqs])), a)
    ctx.notes.setdefault("extremes", []).append((sgn, us, m))
    return m


def _ext(real, sgn):
    def f(a, *r, **k):
        if r or any(v is not None for v in k.values()) or not has_sym(a):
            return real(a, *r, **k)
        v = list(np.asarray(a, dtype=object).reshape(-1))
        if not v:
            raise ValueError("zero-size array to reduction operation")
        return sym_extreme(v, sgn)
    return f


def _is(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if not has_sym(x):
            return real(x, *a, **k)

        def one(v):
            if isinstance(v, F):
                return bool(getattr(v, name)())
            if isinstance(v, S):
                return name == "isfinite"
            return bool(real(v))
        if isinstance(x, (S, F)):
            return one(x)
        arr = np.asarray(x, dtype=object)
        out = np.empty(arr.shape, dtype=bool)
        for i in np.ndindex(*arr.shape):
            out[i] = one(arr[i])
        return out
    return f


def n_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym([a, b]):
        return np.isclose(a, b, rtol, atol, equal_nan)
    A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(A.shape, dtype=bool)
    for i in np.ndindex(*A.shape):
        x, y = _lift(A[i]), _lift(B[i])
        d = x - y
        t = abs(y) * rtol + atol
        out[i] = bool((d <= t) & (-d <= t)) if isinstance(d <= t, SymBool) else bool(d <= t) and bool(-d <= t)
    return out if A.shape else bool(out[()])


def n_power(x, y, *a, **k):
    if a or k or _simvar(x) or _simvar(y):
        return np.power(x, y, *a, **k)
    if not has_sym([x, y]):
        xs = np.size(x) + np.size(y)
        if xs > 16:
            return np.power(x, y)
        try:
            if np.size(y) == 1 and float(np.asarray(y).reshape(-1)[0]).is_integer():
                return np.power(x, y)
            X, Y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
            out = np.empty(X.shape, dtype=object)
            for i in np.ndindex(*X.shape):
                out[i] = core.spow(_lift(X[i]), _lift(Y[i]))
            return out if X.shape else out[()]
        except Domain:
            return np.power(x, y)
    X, Y = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
    out = np.empty(X.shape, dtype=object)
    for i in np.ndindex(*X.shape):
        out[i] = core.spow(_lift(X[i]), _lift(Y[i]))
    return out if X.shape else out[()]


def n_where(c, *a):
    return np.where(np.asarray(c, dtype=bool) if not has_sym(c) else c, *a)


def n_vectorize(f, *a, **k):
    return lambda x: _vec(f, np.asarray(x, dtype=object))


def n_repeat(a, repeats, axis=None):
    return np.repeat(a, repeats, axis)


def n_logaddexp(a, b):
    return unary("log", core.sln)(np.exp(a) + np.exp(b))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or (cls._num and isinstance(x, (S, F)))

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            if isinstance(a[0], (S, F)):
                return a[0]
            if isinstance(a[0], np.ndarray) and a[0].dtype == object:
                if a[0].size == 1 and isinstance(a[0].reshape(-1)[0], (S, F)):
                    return a[0].reshape(-1)[0]
                return a[0]
        return cls._real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class FloatShim(metaclass=_Meta):
    _real, _num, dtype = float, True, np.dtype(float)


class F64Shim(metaclass=_Meta):
    _real, _num, dtype = np.float64, True, np.dtype(float)


class F32Shim(metaclass=_Meta):
    _real, _num, dtype = np.float32, True, np.dtype(float)


class IntShim(metaclass=_Meta):
    _real, _num, dtype = int, False, np.dtype(int)


def b_max(*a, **k):
    seq = list(a[0]) if len(a) == 1 else list(a)
    if "key" not in k and any(isinstance(x, S) for x in seq):
        return sym_extreme(seq, 1)
    return builtins.max(*((seq,) if len(a) == 1 else a), **k)


def b_min(*a, **k):
    seq = list(a[0]) if len(a) == 1 else list(a)
    if "key" not in k and any(isinstance(x, S) for x in seq):
        return sym_extreme(seq, -1)
    return builtins.min(*((seq,) if len(a) == 1 else a), **k)


class _Pi:
    pass


def np_over():
    o = {
        "pi": property(lambda s: core.CTX.named_const("pi")),
        "random": GLOBAL,
        "zeros": n_zeros, "ones": n_ones, "empty": n_empty, "full": n_full,
        "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(None), "full_like": n_full_like,
        "array": _arr(np.array), "asarray": _arr(np.asarray), "asanyarray": _arr(np.asanyarray),
        "ascontiguousarray": _arr(np.ascontiguousarray), "asfarray": lambda x, *a: np.asarray(x, dtype=object),
        "linspace": n_linspace, "logspace": n_logspace, "geomspace": n_geomspace,
        "max": _ext(np.max, 1), "amax": _ext(np.amax, 1), "nanmax": _ext(np.nanmax, 1),
        "min": _ext(np.min, -1), "amin": _ext(np.amin, -1), "nanmin": _ext(np.nanmin, -1),
        "isfinite": _is("isfinite"), "isnan": _is("isnan"), "isinf": _is("isinf"),
        "isclose": n_isclose, "allclose": lambda *a, **k: bool(np.all(n_isclose(*a, **k))),
        "power": n_power, "float_power": n_power,
        "vectorize": n_vectorize, "logaddexp": n_logaddexp,
        "float64": F64Shim, "float32": F32Shim, "float_": F64Shim, "double": F64Shim,
    }
    fns = {"exp": core.sexp, "log": core.sln, "log10": _m("log10"), "log2": _m("log2"), "log1p": _m("log1p"),
           "expm1": _m("expm1"), "exp2": _m("exp2"), "sqrt": core.ssqrt, "cbrt": _m("cbrt"),
           "sin": core.ssin, "cos": core.scos, "tan": _m("tan"), "arccos": core.sarccos, "arcsin": _m("arcsin"),
           "rad2deg": _m("rad2deg"), "degrees": _m("rad2deg"), "deg2rad": _m("deg2rad"), "radians": _m("deg2rad")}
    for n, f in fns.items():
        o[n] = unary(n, f)
    o["square"] = lambda x, *a, **k: np.square(x, *a, **k) if _simvar(x) or a or k else x * x
    return o


def math_over():
    o = {"pi": property(lambda s: core.CTX.named_const("pi"))}
    for n, f in {"exp": core.sexp, "log10": _m("log10"), "sqrt": core.ssqrt, "sin": core.ssin,
                 "cos": core.scos, "tan": _m("tan"), "acos": core.sarccos, "asin": _m("arcsin"),
                 "degrees": _m("rad2deg"), "radians": _m("deg2rad"), "fabs": _m("__abs__"),
                 "log1p": _m("log1p"), "expm1": _m("expm1"), "log2": _m("log2")}.items():
        o[n] = (lambda fn: lambda x: fn(_lift(x)))(f)
    o["log"] = lambda x, b=None: core.sln(_lift(x)) if b is None else core.sln(_lift(x)) / core.sln(_lift(b))
    o["pow"] = lambda x, y: core.spow(_lift(x), _lift(y))
    o["isfinite"] = _is("isfinite")
    o["isnan"] = _is("isnan")
    o["isinf"] = _is("isinf")
    return o


def sf_over():
    def expit(x, *a):
        return _vec(lambda v: 1 / (1 + core.sexp(-_lift(v))), x)

    def logit(x):
        return _vec(lambda v: core.sln(_lift(v) / (1 - _lift(v))), x)
    return {
        "expit": expit, "logit": logit,
        "gamma": lambda x: _vec(lambda v: core.apply_uf("gamma", v, sign="pos"), x),
        "gammaln": lambda x: _vec(lambda v: core.sln(core.apply_uf("gamma", v, sign="pos")), x),
        "gammaincinv": lambda a, y: _vec(lambda v: core.apply_uf("gammaincinv", a, v, sign="nonneg"), y),
        "gammainccinv": lambda a, y: _vec(lambda v: core.apply_uf("gammaincinv", a, 1 - _lift(v), sign="nonneg"), y),
        "gammainc": lambda a, y: _vec(lambda v: core.apply_uf("gammainc", a, v, lo=0, hi=1), y),
        "ndtri": lambda q: _norm_ppf(q), "ndtr": lambda q: _norm_cdf(q),
    }


def quad(f, a, b, args=(), **kw):
    """integral as a two-node rule with arbitrary nodes and weights"""
    ctx = core.CTX
    a, b = _lift(a), _lift(b)
    nodes = ctx.notes.get("quad_nodes")
    if nodes is None:
        nodes = []
        k = ctx.quad_nodes
        for i in range(k):
            t = ctx.real("quad.t%d" % i, lo=0, hi=1, pos=True, open_hi=True, nominal=(i + 0.7) / (k + 0.4))
            nodes.append(t)
        ws = []
        rest = S.lift(1)
        for i in range(k - 1):
            w = ctx.real("quad.w%d" % i, lo=0, hi=1, pos=True, open_hi=True, nominal=1.0 / k)
            ws.append(w)
            rest = rest - w
        if k > 2:
            ctx.add_bound(core._cmp(rest, ">"))
        ws.append(rest)
        nodes = ctx.notes["quad_nodes"] = list(zip(nodes, ws))
    tot = S.lift(0)
    for t, w in nodes:
        v = f(a + (b - a) * t, *args)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Unsupported("vector integrand")
            v = v.reshape(-1)[0]
        tot = tot + w * _lift(v)
    val = (b - a) * tot
    ctx.quads.append({"a": a, "b": b, "value": val})
    return (val, S.lift(0))


def c_quad(f, a, b, *r, **k):
    out = scipy.integrate._real_quad(f, a, b, *r, **k) if hasattr(scipy.integrate, "_real_quad") else scipy.integrate.quad(f, a, b, *r, **k)
    Env.ctx.quads.append({"a": a, "b": b, "value": out[0]})
    return out


class _Angle:
    def __init__(self, v):
        self.deg = self.degree = self.value = v

    @property
    def rad(self):
        return np_proxy.deg2rad(self.deg)

    radian = rad

    def to_value(self, *a):
        return self.deg

    def to(self, *a):
        return self

    def __ge__(self, o):
        return self.deg >= o

    def __le__(self, o):
        return self.deg <= o

    def __abs__(self):
        return _Angle(abs(self.deg))


class _Gal:
    def __init__(self, ra, dec):
        def one(r, d):
            return core.apply_uf("galb", _lift(r), _lift(d), lo=-90, hi=90)
        R, D = np.broadcast_arrays(np.asarray(ra, dtype=object), np.asarray(dec, dtype=object))
        b = np.empty(R.shape, dtype=object)
        l = np.empty(R.shape, dtype=object)
        for i in np.ndindex(*R.shape):
            b[i] = one(R[i], D[i])
            l[i] = core.apply_uf("gall", _lift(R[i]), _lift(D[i]), lo=0, hi=360)
        self.b = _Angle(b)
        self.l = _Angle(l)


def _unit_name(u):
    return str(getattr(u, "name", u))


def SkyCoordStub(*a, unit=None, frame="icrs", ra=None, dec=None, **k):
    if a:
        ra, dec = a
    if isinstance(unit, (tuple, list)):
        us = [_unit_name(x) for x in unit]
    else:
        us = [_unit_name(unit)] * 2
    conv = []
    for v, u in zip((ra, dec), us):
        if u in ("deg", "degree"):
            conv.append(v)
        elif u in ("rad", "radian"):
            conv.append(np_proxy.rad2deg(v))
        else:
            raise Unsupported("SkyCoord unit %s" % u)

    class C:
        pass
    c = C()
    fr = str(getattr(frame, "name", frame)).lower()
    if fr not in ("icrs", "galactic"):
        raise Unsupported("SkyCoord frame %s" % fr)
    if fr == "galactic":
        g = type("G", (), {})()
        g.l, g.b = _Angle(conv[0]), _Angle(conv[1])
        c.galactic = g
        c.l, c.b = g.l, g.b
    else:
        c.galactic = _Gal(*conv)
        c.ra, c.dec = _Angle(conv[0]), _Angle(conv[1])
    c.transform_to = lambda f: c.galactic if str(getattr(f, "name", f)).lower() == "galactic" else c
    return c


# --------------------------------------------------------------------------
np_proxy = None
_saved = []
_mode = None


def modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "popsynth" or n.startswith("popsynth.")) and m is not None and ".test" not in n]


class PyRandom:
    """the stdlib random module (an unseeded generator of its own)"""

    def __getattr__(self, n):
        if n in ("random", "uniform", "gauss"):
            g = Base("pyrandom")
            if n == "gauss":
                return lambda m=0.0, s=1.0: g.normal(m, s)
            return getattr(g, n)
        raise Unsupported("random.%s" % n)


def build_maps(symbolic):
    global np_proxy
    m = {}
    if symbolic:
        over = np_over()
        np_p = Mod(np, over)
        np_proxy = np_p
        stats_p = Mod(scipy.stats, stats_over())
        sf_p = Mod(scipy.special, sf_over())
        int_p = Mod(scipy.integrate, {"quad": quad})
        math_p = Mod(math, math_over())
        for n, f in over.items():
            r = getattr(np, n, None)
            if callable(r) and n not in ("random",):
                m[id(r)] = f
        for n, f in math_over().items():
            r = getattr(math, n, None)
            if callable(r):
                m[id(r)] = f
        for n, f in sf_over().items():
            m[id(getattr(scipy.special, n))] = f
        m[id(scipy.integrate.quad)] = quad
        m[id(math)] = math_p
        m[id(scipy.special)] = sf_p
    else:
        np_p = Mod(np, {"random": GLOBAL})
        stats_p = Mod(scipy.stats, stats_over())
        sf_p = scipy.special
        int_p = Mod(scipy.integrate, {"quad": c_quad})
        m[id(scipy.integrate.quad)] = c_quad
    for n, d in stats_over().items():
        m[id(getattr(scipy.stats, n))] = d
    m[id(np)] = np_p
    m[id(np.random)] = GLOBAL
    for n in dir(np.random):
        if not n.startswith("_") and n not in ("bit_generator", "mtrand"):
            r = getattr(np.random, n)
            if callable(r) and hasattr(Base, n):
                m[id(r)] = getattr(GLOBAL, n)
    m[id(scipy.stats)] = stats_p
    m[id(scipy.integrate)] = int_p
    m[id(scipy)] = Mod(scipy, {"stats": stats_p, "special": sf_p, "integrate": int_p})
    m[id(_pyrandom)] = PyRandom()
    return m


def install(symbolic):
    global _mode
    if _mode == symbolic:
        return
    uninstall()
    m = build_maps(symbolic)
    sky = None
    try:
        from astropy.coordinates import SkyCoord as sky
    except ImportError:
        pass
    for mod in modules():
        d = mod.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            new = m.get(id(v))
            if symbolic and new is None:
                if sky is not None and v is sky:
                    new = SkyCoordStub
                elif isinstance(v, float) and (v is np.pi or v is math.pi or v == math.pi):
                    new = "PI"
            if new is not None:
                _saved.append((d, k, v))
                if new == "PI" if isinstance(new, str) else False:
                    d[k] = core.CTX.named_const("pi") if core.CTX else v
                    PI_SLOTS.append((d, k))
                else:
                    d[k] = new
        if symbolic:
            for k, v in (("float", FloatShim), ("int", IntShim), ("max", b_max), ("min", b_min)):
                if k not in d:
                    _saved.append((d, k, _MISSING))
                    d[k] = v
    _mode = symbolic


PI_SLOTS = []
_MISSING = object()


def refresh_pi():
    for d, k in PI_SLOTS:
        d[k] = core.CTX.named_const("pi")


def uninstall():
    global _mode
    for d, k, v in reversed(_saved):
        if v is _MISSING:
            d.pop(k, None)
        else:
            d[k] = v
    _saved.clear()
    PI_SLOTS.clear()
    _mode = None


def begin(ctx, symbolic):
    Env.ctx, Env.symbolic = ctx, symbolic
    ctx.ndraws = 0
    if not hasattr(ctx, "poisson_n"):
        ctx.poisson_n = 2
    core.set_ctx(ctx if symbolic else None)
    install(symbolic)
    if symbolic:
        refresh_pi()
