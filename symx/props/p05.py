"""Selector bookkeeping is a partition and adding selections is conjunction."""
import numpy as np

BOUNDS = ["3 objects (4 in the thorough tier)", "all selection outcomes", "histories of up to four select / reset steps (five in the thorough tier)", "every selector kind"]
ASSUMPTIONS = []
REACH = ["partition", "sum", "again", "reset"]
KINDS = ["LowerBound", "UpperBound", "BoxSelection", "HardFluxSelection", "SoftFluxSelection", "SoftSelection",
         "BernoulliSelection", "UnitySelection"]


def variants(tier):
    n = 3 if tier == "quick" else 4
    out = [{"what": "partition", "kind": k, "n": n} for k in KINDS]
    pairs = [("LowerBound", "UpperBound"), ("BernoulliSelection", "LowerBound"), ("UnitySelection", "BernoulliSelection"), ("BoxSelection", "SoftSelection")]
    out += [{"what": "sum", "kind": a, "other": b, "n": 2} for a, b in pairs]
    for k in KINDS[:1] + KINDS[5:7] if tier == "quick" else KINDS[:7]:
        out.append({"what": "history", "kind": k, "n": 1, "steps": 3 if tier == "quick" else 5})
    return out


def make(ctx, kind, n, tag=""):
    import popsynth.selection_probability as sp
    sel = getattr(sp, kind)() if kind in ("HardFluxSelection", "SoftFluxSelection", "BernoulliSelection", "UnitySelection") else getattr(sp, kind)(use_obs_value=True)
    if kind == "BoxSelection":
        sel.vmin, sel.vmax = ctx.real("lo" + tag, nominal=1), ctx.real("hi" + tag, nominal=2)
    elif kind == "BernoulliSelection":
        sel.probability = ctx.real("p" + tag, lo=0, hi=1)
    elif kind != "UnitySelection":
        sel.boundary = ctx.real("b" + tag, pos=True)
        if kind.startswith("Soft"):
            sel.strength = ctx.real("s" + tag, lo=0)
    return sel


def feed(ctx, sel, n, tag):
    v = ctx.array("v" + tag, n, pos=True)
    sel.set_observed_value(v)
    sel.set_observed_flux(v)
    return v


def partition(ctx, sel, n, label):
    s = [bool(x) for x in sel.selection]
    ctx.check(len(s) == n, label + " length")
    ctx.check(sel.n_objects == n, label + " objects")
    ctx.check(sel.n_selected == sum(s), label + " accepted count")
    ctx.check(sel.n_non_selected == n - sum(s), label + " rejected count")
    ctx.check([int(i) for i in sel.selection_index] == [i for i in range(n) if s[i]], label + " accepted indices")
    ctx.check([int(i) for i in sel.non_selection_index] == [i for i in range(n) if not s[i]], label + " rejected indices")


def harness(ctx, what, kind, n, other=None, steps=0):
    sel = make(ctx, kind, n)
    if what == "partition":
        feed(ctx, sel, n, "")
        sel.select(n)
        ctx.reach("partition")
        partition(ctx, sel, n, kind)
    elif what == "sum":
        oth = make(ctx, other, n, "2")
        feed(ctx, sel, n, "")
        feed(ctx, oth, n, "2")
        sel.select(n)
        oth.select(n)
        a = [bool(x) for x in sel.selection]
        b = [bool(x) for x in oth.selection]
        both = sel + oth
        three = both + sel
        ctx.reach("sum")
        for i in range(n):
            ctx.check(bool(both.selection[i]) == (a[i] and b[i]), "conjunction")
            ctx.check(bool(three.selection[i]) == (a[i] and b[i]), "conjunction of three")
        ctx.check([bool(x) for x in sel.selection] == a, "left operand kept")
        ctx.check([bool(x) for x in oth.selection] == b, "right operand kept")
        ctx.check(both is not sel and both is not oth, "new selection")
        partition(ctx, both, n, "sum")
        both.selection[:] = False
        ctx.check([bool(x) for x in sel.selection] == a, "left operand not shared")
        ctx.check([bool(x) for x in oth.selection] == b, "right operand not shared")
    else:
        current = None          # outcome of the last effective selection
        m = n
        for k in range(steps):
            if k and ctx.bool("reset%d" % k):
                sel.reset()
                current = None
                ctx.reach("reset")
            m = n + k % 2
            v = feed(ctx, sel, m, "@%d" % k)
            mark = len(ctx.draws)
            sel.select(m)
            got = [bool(x) for x in sel.selection]
            if current is not None:
                ctx.reach("again")
                ctx.check(got == current, "selecting again keeps the outcome")
                ctx.check(len(ctx.draws) == mark, "selecting again draws nothing")
            else:
                ctx.check(len(got) == m, "fresh selection has the current size")
                if kind == "LowerBound":
                    for i in range(m):
                        ctx.check_iff(got[i], v[i] >= sel.boundary, "fresh selection on current values")
                elif kind == "UpperBound":
                    for i in range(m):
                        ctx.check_iff(got[i], v[i] <= sel.boundary, "fresh selection on current values")
                else:
                    ctx.check(kind == "BoxSelection" or kind == "HardFluxSelection" or len(ctx.draws) > mark, "fresh selection draws anew")
                current = got
            partition(ctx, sel, len(current), "history")
        return
    sel.reset()
    try:
        sel.selection
        raised = False
    except RuntimeError:
        raised = True
    ctx.check(raised, "no selection after a reset")
