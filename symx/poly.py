"""Exact sparse multivariate polynomials and rational functions over integer
atom ids.  They are the normal form in which symbolic reals are kept, so that
algebraically equal expressions written differently reach the solver as the
same term.

A polynomial is a dict {monomial: Fraction}; a monomial a tuple of
(atom, power) pairs sorted by atom.  A rational function is (num, den) with
den a dict {factor: power}; a factor is either an atom id (int) or a hashable,
monic polynomial (tuple of sorted items).
"""
from fractions import Fraction

LIMIT = 60000


class TooBig(Exception):
    pass


ZERO = {}


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_value(p):
    return p.get((), Fraction(0))


def add(p, q, k=1):
    if not q:
        return p
    if not p and k == 1:
        return q
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if k == 1 else c * k)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, k in n:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(d.items()))


def mul(p, q, reduce=None):
    """product; `reduce` maps an atom id to the polynomial its square equals"""
    if not p or not q:
        return {}
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    if reduce:
        r = reduce_squares(r, reduce)
    return r


def reduce_squares(p, reduce):
    todo = None
    for m in p:
        for a, k in m:
            if k >= 2 and a in reduce:
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    out = {}
    for m, c in p.items():
        term = {(): c}
        rest = []
        for a, k in m:
            if k >= 2 and a in reduce:
                h, odd = divmod(k, 2)
                term = mul(term, power(reduce[a], h, reduce), reduce)
                if odd:
                    rest.append((a, 1))
            else:
                rest.append((a, k))
        term = mul(term, {tuple(rest): Fraction(1)})
        out = add(out, term)
    return reduce_squares(out, reduce)


def power(p, n, reduce=None):
    r = const(1)
    b = p
    while n:
        if n & 1:
            r = mul(r, b, reduce)
        n >>= 1
        if n:
            b = mul(b, b, reduce)
    return r


def atoms(p):
    return {a for m in p for a, _ in m}


def key(p):
    return tuple(sorted(p.items()))


def from_key(k):
    return dict(k)


def content(p):
    """monomial dividing every term"""
    it = iter(p)
    try:
        g = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        if not g:
            break
        d = dict(m)
        g = {a: min(k, d.get(a, 0)) for a, k in g.items()}
        g = {a: k for a, k in g.items() if k}
    return tuple(sorted(g.items()))


def mono_div(m, n):
    d = dict(m)
    for a, k in n:
        v = d.get(a, 0) - k
        if v < 0:
            return None
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def div_mono(p, n):
    if not n:
        return p
    return {mono_div(m, n): c for m, c in p.items()}


def _order(atoms_sorted):
    def k(m):
        d = dict(m)
        v = tuple(d.get(a, 0) for a in atoms_sorted)
        return (sum(v), v)
    return k


def exact_div(p, q):
    """p / q if q divides p, else None"""
    if not p:
        return {}
    if is_const(q):
        return scale(p, 1 / const_value(q))
    aq = atoms(q)
    if not aq <= atoms(p):
        return None
    if len(q) == 1:
        (m, c), = q.items()
        out = {}
        for n, d in p.items():
            x = mono_div(n, m)
            if x is None:
                return None
            out[x] = d / c
        return out
    al = sorted(atoms(p) | aq)
    o = _order(al)
    lq = max(q, key=o)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 3000:
            return None
        lr = max(r, key=o)
        m = mono_div(lr, lq)
        if m is None:
            return None
        c = r[lr] / cq
        out[m] = c
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) - c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return out


def monic(p):
    """(unit, monic polynomial) with a deterministic leading term"""
    lead = max(p, key=lambda m: (sum(k for _, k in m), m))
    c = p[lead]
    return c, (p if c == 1 else scale(p, 1 / c))
