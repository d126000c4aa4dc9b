"""The two worlds a harness runs in.

SymWorld: inputs are symbolic, check() is discharged by the solver.
ConWorld: inputs are the numbers of one counterexample, the code is the real
build of arcticpy, check() is evaluated.  Harnesses are written once.
"""
import math

from . import core


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """A concrete replay whose inputs violate the harness's assumptions."""


class World(object):
    symbolic = True

    # derived helpers ---------------------------------------------------------
    def reals(self, stem, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (stem, i), lo, hi, **k) for i in range(n)]

    def image(self, stem, rows, cols, lo=0, hi=None):
        return [[self.real("%s_%d_%d" % (stem, r, c), lo, hi) for c in range(cols)]
                for r in range(rows)]

    def array(self, v):
        return self.np.array(v, dtype=self.np.float64)

    def all_eq(self, a, b, label, tol=1e-6):
        self.check(tuple(a.shape) == tuple(b.shape), label + ": shape")
        for idx in _ndindex(a.shape):
            self.eq(a[idx], b[idx], "%s%s" % (label, list(idx)), tol)

    def identical(self, a, b, label):
        self.all_eq(a, b, label, tol=0)


def _ndindex(shape):
    import numpy as np

    return np.ndindex(*shape)


class SymWorld(World):
    symbolic = True

    def __init__(self, pkg, eng):
        from . import arr

        self.pkg = pkg
        self.eng = eng
        self.np = arr.NP
        self.INT, self.FLOAT = arr.symint, arr.symfloat
        self.range = arr.symrange
        self.ac = pkg.fresh()

    def module(self, name):
        return self.pkg.load("arcticpy." + name)

    # inputs ------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nice=None):
        v = self.eng.var(name, "real")
        if lo is not None:
            self.eng.add(v > lo if lo_open else v >= lo)
        if hi is not None:
            self.eng.add(v < hi if hi_open else v <= hi)
        if nice:
            self.eng.meta.setdefault("nice", {})[name] = nice
        return v

    def int(self, name, lo, hi, force=False):
        v = self.eng.var(name, "int")
        self.eng.meta["int"] = True
        self.eng.add(v >= lo)
        self.eng.add(v <= hi)
        if force:
            return v.__index__()
        return v

    def bool(self, name):
        return bool(self.eng.var(name, "bool"))

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1, force=True)]

    # logic -------------------------------------------------------------------
    def assume(self, c):
        self.eng.add(c)

    def both(self, *cs):
        r = True
        for c in cs:
            if c is False:
                return False
            if c is True:
                continue
            r = c if r is True else (r & c)
        return r

    def either(self, *cs):
        r = False
        for c in cs:
            if c is True:
                return True
            if c is False:
                continue
            r = c if r is False else (r | c)
        return r

    def implies(self, a, b):
        return self.either(core.sym_not(a), b)

    def no(self, a):
        return core.sym_not(a)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def smin(self, a, b):
        return core.sym_min(a, b)

    def smax(self, a, b):
        return core.sym_max(a, b)

    def fork(self, c):
        return bool(c)

    def exp(self, x):
        return core.exp(x)

    def power(self, a, b):
        return a ** b if core.is_sym(a) or core.is_sym(b) else core.scalar_op("**", a, b)

    # assertions ----------------------------------------------------------------
    def check(self, c, label):
        self.eng.prove(c, label)

    def eq(self, a, b, label, tol=1e-6):
        for x, y in ((a, b), (b, a)):
            if core._special(x):
                same = core._special(y) and (float(x) == float(y))
                self.eng.prove(same, label)
                return
        if not core.is_sym(a) and not core.is_sym(b):
            self.eng.prove(abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a))), label)
            return
        d = a - b
        margin = None
        if tol:
            margin = self.both(core.scalar_cmp("<=", d, tol), core.scalar_cmp(">=", d, -tol))
        self.eng.prove(core.scalar_cmp("==", a, b), label, margin)

    def le(self, a, b, label, tol=1e-6):
        if core._special(a) or core._special(b):
            self.eng.prove(bool(core.scalar_cmp("<=", a, b)), label)
            return
        self.eng.prove(core.scalar_cmp("<=", a, b), label,
                       core.scalar_cmp("<=", a, b + tol) if tol else None)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.eng.prove(True, label)
            return
        self.eng.prove(False, label)

    def lemma(self, c, label="lemma"):
        """Prove something, then let the solver use it."""
        if self.eng.prove(c, label):
            self.eng.add(c)

    def reach(self, label):
        """This point is reachable (non-vacuity witness)."""
        self.eng.reached.add(label)

    # special inputs ------------------------------------------------------------
    def lifetime(self, name):
        """A positive timescale whose reciprocal is a separate, positive variable."""
        return self.eng.atom(name)

    def fill_function(self, name, lo=0, hi=1, zero=True):
        """A non-decreasing function with values in [lo, hi], F(0) = 0."""
        return SymFill(self, name, lo, hi, zero)

    def quad(self, hook):
        from . import load

        load.Integrate.hook = staticmethod(hook)

    def fsolve(self, hook):
        from . import load

        load.Optimize.hook = staticmethod(hook)

    def num(self, x):
        return x

    def frame(self, data, **meta):
        from . import load

        return load.Frame(self.array(data), **meta)

    @property
    def Frame(self):
        from . import load

        return load.Frame

    def survival(self, name):
        return SymSurvival(self, name)

    def stepper(self, name, contract=True):
        return SymStep(self, name, contract)


class SymFill(object):
    def __init__(self, W, name, lo, hi, zero):
        self.W, self.name, self.lo, self.hi = W, name, lo, hi
        self.pts = []
        if zero:
            self.pts.append((0.0, 0.0))

    def __call__(self, n, surface=False):
        import z3

        W, eng = self.W, self.W.eng
        x = n
        for a, v in self.pts:
            if core.is_sym(a) and core.is_sym(x):
                if z3.simplify(core.to_real(a)).eq(z3.simplify(core.to_real(x))):
                    return v
            elif not core.is_sym(a) and not core.is_sym(x) and float(a) == float(x):
                return v
        k = len(self.pts)
        v = W.real("%s_v%d" % (self.name, k), self.lo, self.hi)
        if core.is_sym(x):
            eng.report("%s_a%d" % (self.name, k), core.to_real(x))
        else:
            eng.report("%s_a%d" % (self.name, k), core.to_real(float(x)))
        for a, w in self.pts:
            # monotone: a <= x => F(a) <= F(x), and the other way round
            eng.add(W.implies(core.scalar_cmp("<=", a, x), core.scalar_cmp("<=", w, v)))
            eng.add(W.implies(core.scalar_cmp(">=", a, x), core.scalar_cmp(">=", w, v)))
        self.pts.append((x, v))
        return v


class ConFill(object):
    """Monotone interpolation through the counterexample's points."""

    def __init__(self, W, name, lo, hi, zero):
        pts = [(0.0, 0.0)] if zero else []
        k = len(pts)
        while "%s_v%d" % (name, k) in W.values:
            a = W.values.get("%s_a%d" % (name, k))
            if a is not None:
                pts.append((a, W.values["%s_v%d" % (name, k)]))
            k += 1
        pts.sort()
        self.pts = pts or [(0.0, lo)]

    def __call__(self, n, surface=False):
        n = float(n)
        pts = self.pts
        if n <= pts[0][0]:
            return pts[0][1]
        for (a, v), (b, w) in zip(pts, pts[1:]):
            if n <= b:
                # snap: rounding must not turn a level into two
                if abs(n - b) <= 1e-9 * max(1.0, abs(b)):
                    return w
                if abs(n - a) <= 1e-9 * max(1.0, abs(a)):
                    return v
                return v + (w - v) * (n - a) / (b - a) if b > a else w
        return pts[-1][1]


class SymSurvival(object):
    """A strictly decreasing function G with G(0) = 1, 0 < G <= 1, and its inverse."""

    def __init__(self, W, name):
        self.W, self.name = W, name
        self.pts = [(0.0, 1.0)]
        self.k = 0

    def _add(self, t, v):
        W, eng = self.W, self.W.eng
        for x, nm in ((t, "t"), (v, "v")):
            eng.report("%s_%s%d" % (self.name, nm, self.k), core.to_real(x if core.is_sym(x) else float(x)))
        self.k += 1
        for a, w in self.pts:
            for i, j in (("<", ">"), (">", "<"), ("==", "==")):
                eng.add(W.implies(core.scalar_cmp(i, a, t), core.scalar_cmp(j, w, v)))
        self.pts.append((t, v))

    def _known(self, x, col):
        import z3

        for p in self.pts:
            a = p[col]
            if core.is_sym(a) and core.is_sym(x):
                if z3.simplify(core.to_real(a)).eq(z3.simplify(core.to_real(x))):
                    return p[1 - col]
            elif not core.is_sym(a) and not core.is_sym(x) and float(a) == float(x):
                return p[1 - col]
        return None

    def fill(self, t):
        if not core.is_sym(t) and float(t) == float("inf"):
            return 0.0
        v = self._known(t, 0)
        if v is None:
            v = self.W.real("%s_f%d" % (self.name, self.k), 0, 1, lo_open=True)
            self._add(t, v)
        return v

    def time(self, f):
        if not core.is_sym(f) and float(f) == 0:
            return float("inf")
        t = self._known(f, 1)
        if t is None:
            t = self.W.real("%s_i%d" % (self.name, self.k), 0)
            self._add(t, f)
        return t


class ConSurvival(object):
    def __init__(self, W, name):
        pts = [(0.0, 1.0)]
        k = 0
        while "%s_v%d" % (name, k) in W.values:
            pts.append((float(W.values["%s_t%d" % (name, k)]), float(W.values["%s_v%d" % (name, k)])))
            k += 1
        self.pts = sorted(set(p for p in pts if p[0] >= 0), key=lambda p: (p[0], -p[1]))

    def fill(self, t):
        t = float(t)
        p = self.pts
        for (a, v), (b, w) in zip(p, p[1:]):
            if t <= b:
                return v + (w - v) * (t - a) / (b - a) if b > a else w
        return p[-1][1] * math.exp(-(t - p[-1][0]))

    def time(self, f):
        f = float(f)
        p = self.pts
        if f >= 1:
            return 0.0
        for (a, v), (b, w) in zip(p, p[1:]):
            if f >= w:
                return a + (b - a) * (f - v) / (w - v) if w < v else b
        return p[-1][0] - math.log(f / p[-1][1]) if f > 0 else float("inf")


class SymStep(object):
    """An arbitrary deterministic trap response: charge exchanged and new state
    depend on nothing but (state, electrons, dwell time); the state is a single
    real number standing for everything the manager remembers."""

    def __init__(self, W, name, contract):
        self.W, self.name, self.contract = W, name, contract
        self.k = 0

    def __call__(self, state, n, dwell):
        eng = self.W.eng
        r = eng.call_uf(self.name + "_r", [state, n, dwell])
        s = eng.call_uf(self.name + "_s", [state, n, dwell])
        # the response the counterexample chose, for the replay
        if self.k < 300:
            for nm, x in (("0", state), ("1", n), ("2", dwell), ("3", r), ("4", s)):
                eng.report("STEP_%s_%d_%s" % (self.name, self.k, nm), core.to_real(x if core.is_sym(x) else float(x)))
            self.k += 1
        if self.contract:
            eng.add(core.scalar_cmp(">=", r + n, 0))
        return r, s


class ConStep(object):
    """The counterexample's own response where it says, any other elsewhere."""

    def __init__(self, W, name, contract):
        self.contract = contract
        self.table = []
        k = 0
        while "STEP_%s_%d_4" % (name, k) in W.values:
            self.table.append([float(W.values["STEP_%s_%d_%d" % (name, k, i)]) for i in range(5)])
            k += 1

    def __call__(self, state, n, dwell):
        s, n, d = float(state), float(n), float(dwell)
        for t in self.table:
            if all(abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)) for x, y in zip(t, (s, n, d))):
                return t[3], t[4]
        a = math.sin(1.7 * s + 0.31 * n + 2.3 * d + 0.2)
        b = math.sin(0.9 * s + 0.77 * n + 1.1 * d + 1.3)
        r = 3.0 * a
        if self.contract:
            r = max(r, -0.5 * n)
        return r, 0.6 * s + 2.0 * b + 0.1 * n + 0.05


class ConWorld(World):
    symbolic = False

    def __init__(self, values):
        import numpy as np

        self.values = values
        self.np = np
        self.INT, self.FLOAT = int, float
        self.range = range
        import arcticpy

        self.ac = arcticpy
        self.failed = []
        self.checked = 0

    def module(self, name):
        import importlib

        return importlib.import_module("arcticpy." + name)

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nice=None):
        v = float(self._get(name, 1.0))
        if lo is not None:
            v = max(v, float(lo)) if not lo_open else v
        if hi is not None:
            v = min(v, float(hi)) if not hi_open else v
        return self.np.float64(v)

    def int(self, name, lo, hi, force=False):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not c:
            raise Skip()

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def no(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def smin(self, a, b):
        return min(a, b)

    def smax(self, a, b):
        return max(a, b)

    def fork(self, c):
        return bool(c)

    def exp(self, x):
        return self.np.exp(x)

    def power(self, a, b):
        return self.np.float64(a) ** b

    def check(self, c, label):
        self.checked += 1
        if not c:
            self.failed.append(label)

    def eq(self, a, b, label, tol=1e-6):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            self.check(a == b, "%s: %r != %r" % (label, a, b))
            return
        t = 0.5 * tol if tol else 0.0
        t = max(t, 1e-9 * max(1.0, abs(a), abs(b))) if tol else 0.0
        self.check(abs(a - b) <= t, "%s: %r != %r" % (label, a, b))

    def le(self, a, b, label, tol=1e-6):
        a, b = float(a), float(b)
        t = max(0.5 * tol, 1e-9 * max(1.0, abs(a), abs(b)))
        self.check(a <= b + t, "%s: %r > %r" % (label, a, b))

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def reach(self, label):
        pass

    def lemma(self, c, label="lemma"):
        pass

    def lifetime(self, name):
        return self.np.float64(self._get(name, 1.0))

    def fill_function(self, name, lo=0, hi=1, zero=True):
        return ConFill(self, name, lo, hi, zero)

    def quad(self, hook):
        import scipy.integrate

        scipy.integrate.quad = lambda f, a, b, args=(), **k: (
            hook(f, a, b, args if isinstance(args, tuple) else (args,)), 0.0)

    def fsolve(self, hook):
        pass

    def frame(self, data, **meta):
        from autoarray.structures import frames

        cls = frames.Frame
        return cls(array=self.np.array(data, dtype=float), **meta)

    @property
    def Frame(self):
        from autoarray.structures import frames

        return frames.Frame

    def survival(self, name):
        return ConSurvival(self, name)

    def stepper(self, name, contract=True):
        return ConStep(self, name, contract)
