"""Simulated variables keep observed values, latent values and selection together."""
import operator

import numpy as np

BOUNDS = ["3 objects (4 in the thorough tier; comparisons 2 and 4)", "all observed and latent values (reals) and all selection vectors",
          "every integer index, every boolean mask, all slices with start, stop and step in a small range, fancy indices with repetitions",
          "chains of two operations"]
ASSUMPTIONS = ["floats are treated as reals"]
REACH = ["int", "slice", "mask", "fancy", "selected", "non_selected", "unary", "scalar", "array", "variable", "inplace", "chain"]

UNARY = ["negative", "absolute", "log10", "log", "exp", "sqrt", "square", "reciprocal", "positive"]
BINARY = ["add", "subtract", "multiply", "true_divide", "power", "maximum", "minimum"]
INPLACE = ["iadd", "isub", "imul", "itruediv"]


def variants(tier):
    n = 3 if tier == "quick" else 4
    out = [{"what": w, "n": n - (tier == "quick" and w == "compare")} for w in ("compare", "slice", "int", "mask", "fancy", "views", "chain")]
    for op in UNARY:
        out.append({"what": "unary", "op": op, "n": 2 if tier == "quick" else 3})
    for op in BINARY:
        for other in ("scalar", "rscalar", "array", "rarray", "variable", "same"):
            out.append({"what": "binary", "op": op, "other": other, "n": 2})
    for op in INPLACE:
        for other in ("scalar", "array", "variable", "same"):
            out.append({"what": "inplace", "op": op, "other": other, "n": 2})
    out.append({"what": "out", "op": "add", "other": "array", "n": 2})
    return out


def mk(ctx, n, tag="", shared=False):
    from popsynth.simulated_variable import SimulatedVariable
    o = ctx.array("o" + tag, n, pos=True)
    l = o if shared else ctx.array("l" + tag, n, pos=True)
    s = np.array([ctx.bool("s%s%d" % (tag, i)) for i in range(n)], dtype=bool)
    return SimulatedVariable(o, l, s), list(o), list(l), [bool(x) for x in s]


def same(ctx, x, o, l, s, label):
    from popsynth.simulated_variable import SimulatedVariable
    ctx.check(isinstance(x, SimulatedVariable), label + " is a simulated variable")
    ctx.check(len(x) == len(o), label + " length")
    ctx.check_same([x.view(np.ndarray)[i] for i in range(len(o))], list(o), label + " observed")
    ctx.check(len(x.latent) == len(l), label + " latent length")
    ctx.check_same([np.asarray(x.latent)[i] for i in range(len(l))], list(l), label + " latent")
    ctx.check([bool(v) for v in x._selection] == list(s), label + " selection")
    ctx.check(np.asarray(x._selection).dtype == bool, label + " selection is boolean")


def pick(v, idx):
    return [v[i] for i in idx]


def views(ctx, x, o, l, s, label):
    n = len(o)
    on, off = [i for i in range(n) if s[i]], [i for i in range(n) if not s[i]]
    same(ctx, x.selected, pick(o, on), pick(l, on), [True] * len(on), label + " selected")
    same(ctx, x.non_selected, pick(o, off), pick(l, off), [False] * len(off), label + " non-selected")
    ctx.reach("selected")
    ctx.reach("non_selected")


def harness(ctx, what, n, op=None, other=None):
    x, o, l, s = mk(ctx, n)
    if what == "int":
        i = ctx.choice("i", 2 * n) - n
        got = x[i]
        ctx.reach("int")
        ctx.check_same(got, o[i], "element")
    elif what == "slice":
        lo = [None, 0, 1, -1, n - 1][ctx.choice("lo", 5)]
        hi = [None, 1, n - 1, n, -1, 0][ctx.choice("hi", 6)]
        st = [None, 1, 2, -1][ctx.choice("st", 4)]
        sl = slice(lo, hi, st)
        idx = list(range(n))[sl]
        ctx.reach("slice")
        y = x[sl]
        same(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "slice")
        views(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "slice")
    elif what == "mask":
        m = np.array([ctx.bool("m%d" % i) for i in range(n)], dtype=bool)
        idx = [i for i in range(n) if m[i]]
        ctx.reach("mask")
        y = x[m]
        same(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "mask")
        views(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "mask")
    elif what == "fancy":
        idx = [ctx.choice("f%d" % k, n) for k in range(2)] + [0]
        ctx.reach("fancy")
        for ind in (idx, np.array(idx)):
            y = x[ind]
            same(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "fancy")
        views(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "fancy")
    elif what == "views":
        views(ctx, x, o, l, s, "variable")
        y = x.selected
        k = sum(s)
        same(ctx, y.selected, pick(o, [i for i in range(n) if s[i]]), pick(l, [i for i in range(n) if s[i]]), [True] * k, "selected twice")
        ctx.check(len(y.non_selected) == 0, "nothing hidden among the selected")
        ctx.check(len(x.non_selected.selected) == 0, "nothing selected among the hidden")
        z = x.non_selected.non_selected
        same(ctx, z, pick(o, [i for i in range(n) if not s[i]]), pick(l, [i for i in range(n) if not s[i]]), [False] * (n - k), "hidden twice")
    elif what == "chain":
        ctx.reach("chain")
        y = 90 - np.multiply(x, 2)
        same(ctx, y, [90 - 2 * v for v in o], [90 - 2 * v for v in l], s, "chain")
        z = (y + x)[1:]
        same(ctx, z, [90 - v for v in o][1:], [90 - v for v in l][1:], s[1:], "chain slice")
        on = [i for i in range(n) if s[i]]
        w = (x.selected * 3).selected
        same(ctx, w, [3 * o[i] for i in on], [3 * l[i] for i in on], [True] * len(on), "chain selected")
        off = [i for i in range(n) if not s[i]]
        w = (x / 2).non_selected
        same(ctx, w, [o[i] / 2 for i in off], [l[i] / 2 for i in off], [False] * len(off), "chain non-selected")
    elif what == "compare":
        c = ctx.real("c", pos=True)
        for name, f in (("gt", operator.gt), ("le", operator.le)):
            y = f(x, c)
            ctx.check(len(y) == n, "comparison length")
            for i in range(n):
                ctx.check_iff(bool(y.view(np.ndarray)[i]), f(o[i], c), "comparison observed", near=(o[i], c))
                ctx.check_iff(bool(np.asarray(y.latent)[i]), f(l[i], c), "comparison latent", near=(l[i], c))
            ctx.check([bool(v) for v in y._selection] == s, "comparison selection")
        # a variable as its own mask
        m = [bool(v) for v in (x > c).view(np.ndarray)]
        idx = [i for i in range(n) if m[i]]
        y = x[np.asarray(x > c, dtype=bool)]
        same(ctx, y, pick(o, idx), pick(l, idx), pick(s, idx), "mask from comparison")
    elif what == "unary":
        f = getattr(np, op)
        y = f(x)
        ctx.reach("unary")
        ref = lambda v: f(np.array(v, dtype=object if ctx.symbolic else float)).tolist()
        same(ctx, y, ref(o), ref(l), s, op)
    else:
        f = getattr(np, op) if what != "inplace" else getattr(operator, op)
        sy = [True] * n
        if other in ("scalar", "rscalar"):
            ctx.reach("scalar")
            c = ctx.real("c", pos=True)
            b, bo, bl = c, [c] * n, [c] * n
        elif other in ("array", "rarray"):
            ctx.reach("array")
            b = ctx.array("b", n, pos=True)
            bo = bl = list(b)
        elif other == "same":
            ctx.reach("variable")
            b, bo, bl = x, o, l
        else:
            ctx.reach("variable")
            b, bo, bl, sb = mk(ctx, n, "b")
            ctx.assume(all(p == q for p, q in zip(s, sb)))
        if op == "power":
            # a power of symbols is opaque: small integer exponents instead
            if other in ("scalar", "array", "rarray", "variable", "same", "rscalar"):
                if other in ("scalar",):
                    b, bo, bl = 2, [2] * n, [2] * n
        g = {"iadd": operator.add, "isub": operator.sub, "imul": operator.mul, "itruediv": operator.truediv}.get(op, f)
        el = lambda p, q: g(p, q) if what == "inplace" else f(np.array([p], dtype=object if ctx.symbolic else float),
                                                            np.array([q], dtype=object if ctx.symbolic else float)).tolist()[0]
        swap = other in ("rscalar", "rarray")
        wo = [el(q, p) if swap else el(p, q) for p, q in zip(o, bo)]
        wl = [el(q, p) if swap else el(p, q) for p, q in zip(l, bl)]
        if what == "binary":
            y = f(b, x) if swap else f(x, b)
            same(ctx, y, wo, wl, s, "%s with %s" % (op, other))
        elif what == "out":
            z, zo, zl, zs = mk(ctx, n, "z")
            y = np.add(x, b, out=z)
            ctx.check(y is z, "out is returned")
            same(ctx, z, wo, wl, zs, "out")
        else:
            ctx.reach("inplace")
            y = f(x, b)
            ctx.check(y is x, "in place")
            same(ctx, x, wo, wl, s, "%s with %s" % (op, other))
            if other == "variable":
                same(ctx, b, bo, bl, s, "right operand kept")
            elif other == "array":
                ctx.check_same(list(b), bo, "right operand kept")
            return
        if other == "variable":
            same(ctx, b, bo, bl, s, "right operand kept")
        elif other in ("array", "rarray"):
            ctx.check_same(list(b), bo, "right operand kept")
    same(ctx, x, o, l, s, "operand kept")
