"""Reference laws for random draws: how a value relates to the base variate
(uniform u, standard normal z, standard exponential e, truncated normal t)
behind it."""
import itertools
import math

import numpy as np

from . import core
from .core import S, Unsupported


def sym(x):
    return isinstance(x, S)


def exp(x):
    return core.sexp(S.lift(x)) if core.CTX is not None else math.exp(x)


def ln(x):
    if core.CTX is not None:
        return core.sln(S.lift(x))
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def log10(x):
    return ln(x) / ln10()


def ln10():
    return core.CTX.named_const("ln10") if core.CTX is not None else math.log(10)


def pi():
    return core.CTX.named_const("pi") if core.CTX is not None else math.pi


def power(x, y):
    if core.CTX is not None:
        return core.spow(S.lift(x), S.lift(y))
    try:
        return float(np.float64(x) ** np.float64(y))
    except ZeroDivisionError:
        return math.inf


def sqrt(x):
    return core.ssqrt(S.lift(x)) if core.CTX is not None else math.sqrt(x)


def cos(x):
    return core.scos(S.lift(x)) if core.CTX is not None else math.cos(x)


def sin(x):
    return core.ssin(S.lift(x)) if core.CTX is not None else math.sin(x)


def arccos(x):
    return core.sarccos(S.lift(x)) if core.CTX is not None else math.acos(x)


def rad2deg(x):
    return x * 180 / pi()


def gamma(x):
    if core.CTX is not None:
        return core.apply_uf("gamma", x, sign="pos")
    import scipy.special as sf
    return float(sf.gamma(x))


def gammaincinv(a, y):
    if core.CTX is not None:
        return core.apply_uf("gammaincinv", a, y, sign="nonneg")
    import scipy.special as sf
    return float(sf.gammaincinv(a, y))


def quad(f, a, b):
    from . import shims
    if core.CTX is not None:
        v = shims.quad(f, a, b)[0]
        core.CTX.quads.pop()
        return v
    import scipy.integrate
    return scipy.integrate.quad(f, a, b)[0]


def continuous(ctx, mark):
    return [d for d in ctx.draws[mark:] if d["kind"][0] in "uzet" and d["kind"] not in ("u:bern", "u:int")]


def cdf_alts(d, F):
    """pairs saying 'F (the CDF at the value) equals the base variate's CDF, or its complement'"""
    k = d["kind"][0]
    if k == "u":
        return [(F, d["base"]), (F, 1 - d["base"])]
    if k == "e":
        g = exp(-d["base"])
        return [(F, 1 - g), (F, g)]
    raise Unsupported("law of a %s draw against a CDF" % d["kind"])


def norm_alts(d, score):
    """pairs saying 'score is standard normal'"""
    if d["kind"][0] != "z":
        raise Unsupported("normal law from a %s draw" % d["kind"])
    return [(score, d["base"]), (score, -d["base"])]


def match(ctx, n, draws, alts, label):
    """object i follows its law from a draw of its own: alts(i, draw) -> list of
    acceptable (a, b) equalities"""
    if len(draws) != n:
        return ctx.check(False, "%s: %d draws for %d objects" % (label, len(draws), n))
    options = []
    table = [[alts(i, d) for d in draws] for i in range(n)]
    for perm in itertools.permutations(range(n)):
        for combo in itertools.product(*[range(len(table[i][perm[i]])) for i in range(n)]):
            options.append([table[i][perm[i]][combo[i]] for i in range(n)])
    # identity first so that equal normal forms are found without the solver
    ctx.check_any(options, label)


def bernoulli_match(ctx, flags, draws, probs, label):
    """flag i is one uniform draw of its own compared with probs[i] (or its mirror image)"""
    n = len(flags)
    us = [d["base"] for d in draws]
    if len(us) != n:
        return ctx.check(False, "%s: %d draws for %d objects" % (label, len(us), n))
    perms = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n))]
    if core.CTX is None:
        for u in us:
            for p in probs:
                if abs(u - p) < 1e-9 or abs(1 - u - p) < 1e-9:
                    return
        ok = any(all(bool((1 - us[q[i]] if mirror else us[q[i]]) < probs[i]) == bool(flags[i]) for i in range(n))
                 for q in perms for mirror in (0, 1))
        return ctx.check(ok, label)
    import z3
    ors, at = [], frozenset()
    for u in us:
        for p in probs:
            for w in (u, 1 - u):
                c = core._cmp0(S.lift(w) - p, "!=")
                if isinstance(c, core.SymBool):
                    ctx.pc.append((c.e, c.at))
    for q in perms:
        for mirror in (0, 1):
            cs = []
            for i in range(n):
                u = us[q[i]]
                c = core.SymBool.lift(core._cmp((1 - u if mirror else u) - probs[i], "<"))
                at |= c.at
                cs.append(c.e if flags[i] else z3.Not(c.e))
            ors.append(z3.And(*cs))
    ctx.check(core.SymBool(z3.Or(*ors), at), label)


def logistic(x):
    return 1 / (1 + exp(-x))


def piece(lo, hi, a):
    """integral of x^a between lo and hi, a a plain number"""
    if a == -1:
        return ln(hi) - ln(lo)
    return (power(hi, a + 1) - power(lo, a + 1)) / (a + 1)


def piece_cdf(x, lo, hi, a):
    """distribution function of the density x^a on [lo, hi], a a plain number"""
    if a == -1:
        return (ln(x) - ln(lo)) / (ln(hi) - ln(lo))
    return (power(x, a + 1) - power(lo, a + 1)) / (power(hi, a + 1) - power(lo, a + 1))
