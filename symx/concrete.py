"""Concrete counterpart of core.Ctx: the same harness runs on the unmodified
code with ordinary floats, used to replay counterexamples and path witnesses."""
import math
import random

import numpy as np

from .core import AssumeFailed, Prune


class Failed(BaseException):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class CCtx:
    symbolic = False

    def __init__(self, values, seed=1, tol=1e-6):
        self.values = dict(values)
        self.rnd = random.Random(seed)
        self.tol = tol
        self.draws = []
        self.quads = []
        self.seeds = []
        self.reached = set()
        self.used = {}
        self.notes = {}
        self.ndraw = 0
        self.max_draws = 4000
        self.soft_skips = 0

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nominal=None, open_hi=False):
        if name in self.used:
            return self.used[name]
        if name in self.values:
            v = float(self.values[name])
        else:
            if nominal is None:
                if lo is not None and hi is not None:
                    nominal = float(lo) + (float(hi) - float(lo)) * self.rnd.uniform(0.05, 0.95)
                elif lo is not None:
                    nominal = float(lo) + 1.5
                elif hi is not None:
                    nominal = float(hi) - 1.5
                else:
                    nominal = 1.5
            v = float(nominal)
        # the solver works on exact reals: pull rounding back inside
        if lo is not None and v < lo:
            if v < lo - 1e-9 * (1 + abs(lo)):
                raise AssumeFailed(name)
            v = float(lo)
        if hi is not None and (v > hi or (open_hi and v >= hi)):
            if v > hi + 1e-9 * (1 + abs(hi)):
                raise AssumeFailed(name)
            v = float(np.nextafter(hi, -np.inf)) if open_hi else float(hi)
        if pos and v <= 0:
            raise AssumeFailed(name)
        if nonneg and v < 0:
            raise AssumeFailed(name)
        self.used[name] = v
        return v

    def double(self, name, nominal=1.5):
        v = self.values.get(name, nominal)
        self.used[name] = v
        return float(v)

    def bool(self, name):
        v = bool(self.values.get(name, False))
        self.used[name] = v
        return v

    def choice(self, name, n):
        if n == 1:
            return 0
        v = 0
        for k in range(max(1, (n - 1).bit_length())):
            v |= int(self.bool("%s.b%d" % (name, k))) << k
        if v >= n:
            raise AssumeFailed(name)
        return v

    def array(self, name, n, **kw):
        return np.array([self.real("%s[%d]" % (name, i), **kw) for i in range(n)], dtype=float)

    def doubles(self, name, n):
        return np.array([self.double("%s[%d]" % (name, i)) for i in range(n)], dtype=float)

    def assume(self, b):
        if not bool(b):
            raise AssumeFailed("assumption")

    # assertions
    def reach(self, tag):
        self.reached.add(tag)

    def check(self, b, label, strong=None):
        if not bool(b):
            raise Failed(label)

    def check_eq(self, a, b, label, tol=None):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            A, B = list(np.asarray(a).reshape(-1)), list(np.asarray(b).reshape(-1))
            if len(A) != len(B):
                raise Failed(label + " (length)", "%d/%d" % (len(A), len(B)))
            for i, (x, y) in enumerate(zip(A, B)):
                self.check_eq(x, y, "%s[%d]" % (label, i), tol)
            return
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if not (a == b and type(a) == type(b)):
                raise Failed(label, "%r / %r" % (a, b))
            return
        x, y = float(a), float(b)
        if math.isnan(y) or math.isinf(y):
            if x == y or (math.isnan(x) and math.isnan(y)):
                return
            if not math.isfinite(x):
                return
            if math.isnan(y):
                self.soft_skips += 1   # the reference itself overflowed
                return
            raise Failed(label, "%r / %r" % (x, y))
        t = self.tol if tol is None else tol
        m = max(abs(x), abs(y))
        # rounding residues of sums are forgiven, quantities that are tiny by themselves (cgs fluxes) are not
        a = 1e-12 if m > 1e-20 else 1e-290
        if not (abs(x - y) <= t * m + a * self.scale(label)):
            raise Failed(label, "%r / %r" % (x, y))

    def check_any(self, alts, label):
        best = None
        for alt in alts:
            try:
                for a, b in alt:
                    self.check_eq(a, b, label)
                return
            except Failed as e:
                best = best or e
        raise best or Failed(label)

    def scale(self, label):
        return 1.0

    def check_iff(self, flag, cond, label, near=None):
        if near is not None:
            a, b = float(near[0]), float(near[1])
            if abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3):
                self.soft_skips += 1
                return
        if bool(flag) != bool(cond):
            raise Failed(label)

    def check_same(self, a, b, label):
        if isinstance(a, dict) and isinstance(b, dict):
            if sorted(map(str, a)) != sorted(map(str, b)):
                raise Failed(label, "keys %s / %s" % (sorted(map(str, a)), sorted(map(str, b))))
            for k in a:
                self.check_same(a[k], b[k], "%s.%s" % (label, k))
            return
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            A = list(np.asarray(a).reshape(-1)) if isinstance(a, np.ndarray) else list(a)
            B = list(np.asarray(b).reshape(-1)) if isinstance(b, np.ndarray) else list(b)
            if len(A) != len(B):
                raise Failed(label, "length %d/%d" % (len(A), len(B)))
            for i, (x, y) in enumerate(zip(A, B)):
                self.check_same(x, y, "%s[%d]" % (label, i))
            return
        num = (bool, int, float, np.integer, np.floating, np.bool_)
        if isinstance(a, num) and isinstance(b, num):
            if a == b or (a != a and b != b):
                return
            return self.check_eq(a, b, label, 1e-12)
        if not (type(a) == type(b) and a == b):
            raise Failed(label, "%r / %r" % (a, b))
