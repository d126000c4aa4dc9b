"""Path exploration by re-execution, and symbolic scalars.

A symbolic scalar (Sym) wraps a z3 Real or Int term.  Taking the truth value of
a symbolic comparison forks: the engine asks the solver which outcomes are
feasible under the current path condition, follows one and queues the other.
Paths are explored depth first by re-running the harness with a recorded
decision prefix, so harnesses must be deterministic.

Concrete numbers are left alone (they keep IEEE double semantics, exactly as in
the real program); only terms that involve a symbolic input are reals.
"""
import math
import os
import shutil
import subprocess
import operator
import time
from fractions import Fraction

import z3

_ENG = None  # the engine of the path being executed


def engine():
    return _ENG


class Infeasible(BaseException):
    """The current path's assumptions are unsatisfiable."""


class PathAbort(BaseException):
    """The current path is cut (bound reached); counted and reported."""


class Inconclusive(Exception):
    """The engine cannot decide; reported as an error of the check."""


class Unsupported(Exception):
    """The code does something the encoding has no semantics for."""


# --------------------------------------------------------------------------
# terms


def is_sym(x):
    return isinstance(x, Sym)


def _num(x):
    """A python/numpy number as a python int/Fraction, or None if inf/nan."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    try:
        import numpy as np

        if isinstance(x, np.bool_):
            return int(x)
        if isinstance(x, np.integer):
            return int(x)
    except ImportError:
        pass
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        return None
    return Fraction(f)


def to_z3(x):
    """z3 term (Int or Real sort) for a Sym or a finite number."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    v = _num(x)
    if v is None:
        raise Unsupported("non-finite number in a term: %r" % (x,))
    if isinstance(v, int):
        return z3.IntVal(v)
    if v.denominator == 1 and isinstance(x, int):
        return z3.IntVal(v.numerator)
    return z3.RealVal(v)


def to_real(x):
    e = to_z3(x)
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _unify(a, b):
    a, b = to_z3(a), to_z3(b)
    if a.sort() != b.sort():
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
    return a, b


def _mk(e):
    """Wrap a z3 arithmetic term; fold constants back to python numbers."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        # keep exactly representable constants as floats, others as terms
        fl = float(f)
        if Fraction(fl) == f:
            return _f64(fl)
    return Sym(e)


_np = None


def _f64(x):
    global _np
    if _np is None:
        import numpy

        _np = numpy
    return _np.float64(x)


def _special(x):
    """True for a concrete inf/nan."""
    if isinstance(x, (Sym, SymBool, bool, int, Fraction)):
        return False
    try:
        f = float(x)
    except (TypeError, ValueError):
        return False
    return math.isinf(f) or math.isnan(f)


def _is_number(x):
    import numbers

    global _np
    if _np is None:
        import numpy

        _np = numpy
    return isinstance(x, (Sym, SymBool, numbers.Number, _np.bool_))


def sgn(x):
    """Sign of a scalar, forking if it is symbolic."""
    if isinstance(x, Sym):
        if bool(x > 0):
            return 1
        if bool(x < 0):
            return -1
        return 0
    f = float(x)
    return 1 if f > 0 else (-1 if f < 0 else 0)


class SymBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _ENG.decide(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __and__(self, o):
        return mkbool(z3.And(self.e, bool_z3(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bool_z3(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bool_z3(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    # arithmetic: as 0/1
    def _as_int(self):
        return _mk(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (Sym, int, float)) or _is_number(o):
            # avoid a nonlinear/ite term: fork
            return (1 if bool(self) else 0) * o
        return NotImplemented

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._as_int() - o

    def __rsub__(self, o):
        return o - self._as_int()

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.e == bool_z3(o))
        return self._as_int() == o

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        # equal values must collide, so that dictionaries compare them
        return 0

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __repr__(self):
        return "SymBool(%s)" % self.e


def bool_z3(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def sym_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def topy(v):
    """The Python number a C number becomes."""
    if isinstance(v, Sym):
        return v if v.py or v.is_int else PySym(v.e)
    if type(v) is float or type(v) is int or isinstance(v, SymBool):
        return v
    if isinstance(v, float):
        return float(v)
    if not isinstance(v, bool) and hasattr(v, "dtype") and getattr(v, "shape", None) == ():
        return v.item()
    return v


class Sym(object):
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # identity ------------------------------------------------------------
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        # equal values must collide, so that dictionaries compare them
        return 0

    def __repr__(self):
        return "Sym(%s)" % str(self.e)[:200]

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    # numpy-ish attributes -------------------------------------------------
    @property
    def real(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, t):
        from . import arr

        return arr.cast_scalar(self, arr.kind_of(t))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, op, rev=False):
        if not _is_number(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return scalar_op(op, a, b)

    py = False

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, "//", True)

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return self._bin(o, "**")

    def __rpow__(self, o):
        return self._bin(o, "**", True)

    def __neg__(self):
        return _mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if at_most(self, 0) else self

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o._as_int()
        if not _is_number(o):
            return NotImplemented
        return scalar_cmp(op, self, o)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(mkbool(self.e != 0))

    # conversions ----------------------------------------------------------
    def __index__(self):
        if not self.is_int:
            raise TypeError("symbolic float used as an index")
        return _ENG.concretize(self.e)

    def __int__(self):
        t = trunc(self)
        return t if not isinstance(t, Sym) else _ENG.concretize(t.e)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round() of a symbolic value to digits")
        r = rint(self)
        return r if n is None else tofloat(r)

    def __float__(self):
        raise Unsupported("a symbolic value reached float()")

    def is_integer(self):
        if self.is_int:
            return True
        return mkbool(z3.IsInt(self.e))

    # methods numpy's object loops look for ----------------------------------
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def rint(self):
        return tofloat(rint(self))

    def floor(self):
        return tofloat(floor(self))

    def ceil(self):
        return tofloat(ceil(self))

    def arctan(self):
        return arctan(self)

    def conjugate(self):
        return self


_PY = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "%": operator.mod,
    "//": operator.floordiv,
    "**": operator.pow,
}


def scalar_op(op, a, b):
    """a op b for scalars, symbolic or not (numpy float semantics)."""
    if isinstance(a, SymBool):
        a = 1 if bool(a) else 0
    if isinstance(b, SymBool):
        b = 1 if bool(b) else 0
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        if op == "/":
            return _f64(a) / _f64(b)
        if op in ("%", "//") and not _num(b):
            return getattr(operator, "mod" if op == "%" else "floordiv")(
                _f64(a), _f64(b)
            )
        if op == "**" and isinstance(a, int) and isinstance(b, int) and b < 0:
            return _f64(a) ** b
        return _PY[op](a, b)
    # one of them is an inf/nan constant
    if _special(a) or _special(b):
        return _special_op(op, a, b)
    if op == "+":
        if not sa and _num(a) == 0:
            return _coerce(b, a)
        if not sb and _num(b) == 0:
            return _coerce(a, b)
        x, y = _unify(a, b)
        return _mk(x + y)
    if op == "-":
        if not sb and _num(b) == 0:
            return _coerce(a, b)
        x, y = _unify(a, b)
        return _mk(x - y)
    if op == "*":
        for p, q in ((a, b), (b, a)):
            if not isinstance(p, Sym):
                v = _num(p)
                if v == 0:
                    return 0 if (isinstance(p, (bool, int)) and q.is_int) else _f64(0.0)
                if v == 1:
                    return _coerce(q, p)
        x, y = _unify(a, b)
        if sa and sb and _ENG.naming:
            x, y = _ENG.named(x), _ENG.named(y)
        return _mk(x * y)
    if op == "/":
        if not sb:
            v = _num(b)
            if v == 0:
                return _div_zero(a, b)
            if v == 1:
                return tofloat(a)
            return _mk(to_real(a) / z3.RealVal(Fraction(v)))
        if bool(b == 0):
            return _div_zero(a, b)
        if not sa and _num(a) == 0:
            return _f64(0.0)
        return _ENG.quotient(to_real(a), to_real(b))
    if op in ("//", "%"):
        if isinstance(b, Sym) or _num(b) == 0:
            if bool(scalar_cmp("==", b, 0)):
                raise ZeroDivisionError("symbolic division by zero")
        ai = a.is_int if sa else isinstance(a, int)
        bi = b.is_int if sb else isinstance(b, int)
        if ai and bi:
            x, y = _unify(a, b)
            # z3: x = y*div + mod, 0 <= mod < |y| ; python floors
            if bool(scalar_cmp(">", b, 0)):
                q, r = x / y, x % y
                return _mk(q if op == "//" else r)
            q = (-x) / (-y)
            r = x - q * y
            # -y > 0 so q = floor(-x / -y) = floor(x/y)
            return _mk(q if op == "//" else r)
        q = floor(scalar_op("/", a, b))
        if op == "//":
            return tofloat(q)
        return scalar_op("-", a, scalar_op("*", q, b))
    if op == "**":
        return power(a, b)
    raise Unsupported("operator " + op)


def _coerce(x, other):
    """x + 0.0, x * 1.0: the value, as a float if the other operand was one."""
    if isinstance(x, Sym) and x.is_int and not isinstance(other, (bool, int)):
        import numpy as np

        if isinstance(other, (np.integer, np.bool_)):
            return x
        return tofloat(x)
    return x


def _div_zero(a, b):
    s = sgn(a)
    if s == 0:
        return _f64(math.nan)
    neg = (not isinstance(b, Sym)) and math.copysign(1.0, float(b)) < 0
    return _f64(-math.inf if (s < 0) != neg else math.inf)


def _special_op(op, a, b):
    """One operand is inf/nan, the other a finite symbolic value."""
    sp = a if _special(a) else b
    sp = float(sp)
    if math.isnan(sp):
        return _f64(math.nan)
    if op == "+":
        return _f64(sp)
    if op == "-":
        return _f64(sp if _special(a) else -sp)
    if op == "*":
        s = sgn(b if _special(a) else a)
        return _f64(math.nan if s == 0 else sp * s)
    if op == "/":
        if _special(a):
            s = sgn(b)
            return _f64(sp if s >= 0 else -sp)
        return _f64(0.0)
    if op == "**" and _special(b) is False:
        s = sgn(b)
        return _f64(1.0 if s == 0 else (sp if s > 0 else 0.0))
    raise Unsupported("%s with an infinite operand" % op)


def scalar_cmp(op, a, b):
    if isinstance(a, SymBool):
        a = a._as_int()
    if isinstance(b, SymBool):
        b = b._as_int()
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return {
            "<": operator.lt,
            "<=": operator.le,
            ">": operator.gt,
            ">=": operator.ge,
            "==": operator.eq,
            "!=": operator.ne,
        }[op](a, b)
    if _special(a) or _special(b):
        # finite value against inf/nan
        fa = 0.0 if sa else float(a)
        fb = 0.0 if sb else float(b)
        return bool(scalar_cmp(op, fa, fb))
    x, y = _unify(a, b)
    e = {
        "<": lambda: x < y,
        "<=": lambda: x <= y,
        ">": lambda: x > y,
        ">=": lambda: x >= y,
        "==": lambda: x == y,
        "!=": lambda: x != y,
    }[op]()
    return mkbool(e)


# --------------------------------------------------------------------------
# functions


class PySym(Sym):
    """A Python float rather than numpy's: division by zero raises."""

    __slots__ = ()
    py = True

    def _bin(self, o, op, rev=False):
        if not _is_number(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if not (type(o) in (float, int, bool) or isinstance(o, (PySym, SymBool)) or
                isinstance(o, Sym) and o.is_int):
            return scalar_op(op, a, b)
        if op == "/" and bool(scalar_cmp("==", b, 0)):
            raise ZeroDivisionError("float division by zero")
        return topy(scalar_op(op, a, b))

    def __neg__(self):
        return topy(Sym.__neg__(self))


def unpy(x):
    return Sym(x.e) if isinstance(x, PySym) else x


def tofloat(x):
    if isinstance(x, Sym):
        return Sym(z3.ToReal(x.e)) if x.is_int else x
    if isinstance(x, SymBool):
        return tofloat(x._as_int())
    return _f64(x)


def floor(x):
    if isinstance(x, Sym):
        return x if x.is_int else _mk(z3.ToInt(x.e))
    return math.floor(x)


def ceil(x):
    if isinstance(x, Sym):
        return x if x.is_int else _mk(-z3.ToInt(-x.e))
    return math.ceil(x)


def trunc(x):
    if isinstance(x, Sym):
        if x.is_int:
            return x
        return floor(x) if bool(x >= 0) else ceil(x)
    return int(x)


def rint(x):
    """Round half to even (python 3 round, numpy rint)."""
    if isinstance(x, Sym):
        if x.is_int:
            return x
        f = z3.ToInt(x.e)
        d = x.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        if bool(mkbool(d < half)):
            return _mk(f)
        if bool(mkbool(d > half)):
            return _mk(f + 1)
        if bool(mkbool(f % 2 == 0)):
            return _mk(f)
        return _mk(f + 1)
    return round(float(x))


def exp(x):
    if isinstance(x, Sym):
        return _ENG.exp(x)
    import numpy as np

    return np.exp(_f64(x))


def log(x):
    if isinstance(x, Sym):
        return _ENG.log(x)
    import numpy as np

    return np.log(_f64(x))


def sqrt(x):
    if isinstance(x, Sym):
        return _ENG.sqrt(x)
    import numpy as np

    return np.sqrt(_f64(x))


def arctan(x):
    if isinstance(x, Sym):
        return _ENG.unary_uf("arctan", x)
    import numpy as np

    return np.arctan(_f64(x))


def power(a, b):
    if not isinstance(b, Sym):
        v = _num(b)
        if v == 0:
            return 1 if isinstance(b, int) and (a.is_int) else _f64(1.0)
        if v == 1:
            return _coerce(a, b)
        if v is not None and Fraction(v).denominator == 1 and 0 < v <= 8:
            r = a
            for _ in range(int(v) - 1):
                r = r * a
            return r if isinstance(b, int) else tofloat(r)
        if v is not None and Fraction(v).denominator == 1 and -8 <= v < 0:
            return 1 / power(a, -int(v))
        if v == Fraction(1, 2):
            return sqrt(a)
    return _ENG.power(a, b)


def at_most(a, b):
    """True if a <= b, False if a >= b; where they are equal, either."""
    le = scalar_cmp("<=", a, b)
    if not isinstance(le, SymBool):
        return bool(le)
    ge = scalar_cmp(">=", a, b)
    if not isinstance(ge, SymBool):
        return not bool(ge)
    return _ENG.weak_le(le.e, ge.e)


def sym_min(a, b):
    """Exact minimum as an ite term (no fork): for oracles only."""
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    x, y = _unify(a, b)
    return _mk(z3.If(x <= y, x, y))


def sym_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    x, y = _unify(a, b)
    return _mk(z3.If(x >= y, x, y))


def ite(c, a, b):
    """Conditional term (no fork): for oracles only."""
    if not isinstance(c, SymBool):
        return a if c else b
    x, y = _unify(a, b)
    return _mk(z3.If(c.e, x, y))


# --------------------------------------------------------------------------
# engine


def _is_nonlinear(e, cache):
    """Conservative: does the term contain a product/quotient of variables?"""
    stack, res = [e], False
    seen = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in cache:
            if cache[i]:
                return True
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL:
            if sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1
                   for c in t.children()) > 1:
                cache[e.get_id()] = True
                return True
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
            d = t.children()[1]
            if not (z3.is_rational_value(d) or z3.is_int_value(d)):
                cache[e.get_id()] = True
                return True
        stack.extend(t.children())
    cache[e.get_id()] = False
    return False


class Relax(object):
    """Linear relaxation: every product of variables becomes an opaque variable
    with the sign and [0,1] lemmas that hold of all real products.  Unsat of the
    relaxation implies unsat of the formula."""

    def __init__(self):
        self.cache = {}
        self.mono = {}
        self.keep = []
        self.lemmas = {}     # id of a product variable -> lemmas
        self.parts = {}      # id of a product variable -> its two factors
        self.deps = {}       # id of a formula -> product variables in it, None for others
        self.blobs = set()

    def formula(self, e):
        """(relaxed formula, ids of the product variables in it)"""
        if not z3.is_expr(e):
            return z3.BoolVal(bool(e)), ()
        r = self._go(e)
        i = r.get_id()
        d = self.deps.get(i)
        if d is None:
            d, stack, seen = set(), [r], set()
            while stack:
                t = stack.pop()
                j = t.get_id()
                if j in seen:
                    continue
                seen.add(j)
                if j in self.parts:
                    d.add(j)
                    stack.extend(self.parts[j])
                elif j in self.blobs:
                    d.add(j)
                else:
                    stack.extend(t.children())
            d = self.deps[i] = tuple(d)
        return r, d

    def _go(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            k = t.decl().kind()
            if k in _ARITH_REL:
                a, b = t.children()
                if a.sort() == z3.BoolSort():
                    r = t.decl()(self._go(a), self._go(b))
                else:
                    r = t.decl()(self._poly(a), self._poly(b))
            else:
                ch = [self._poly(c) if z3.is_arith(c) else self._go(c) for c in t.children()]
                if k == z3.Z3_OP_AND:
                    r = z3.And(*ch)
                elif k == z3.Z3_OP_OR:
                    r = z3.Or(*ch)
                else:
                    r = t.decl()(*ch)
        self.keep.append(r)
        self.cache[i] = r
        return r

    def _poly(self, t):
        """Relaxed arithmetic term."""
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        s = z3.simplify(t, som=True)
        self.keep.append(s)
        r = self._arith(s)
        self.keep.append(r)
        self.cache[i] = r
        return r

    def _arith(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            coef, fac = [], []
            for c in t.children():
                (coef if z3.is_rational_value(c) or z3.is_int_value(c) else fac).append(c)
            fs = []
            for f in fac:
                fs.append(self._arith(f))
            m = fs[0] if len(fs) == 1 else self._mono(fs)
            for c in coef:
                m = c * m
            r = m
        elif k == z3.Z3_OP_POWER:
            b, p = t.children()
            b = self._arith(b)
            if z3.is_rational_value(p) or z3.is_int_value(p):
                n = p.as_long() if z3.is_int_value(p) else int(p.as_fraction())
                if 2 <= n <= 8:
                    r = self._mono([b] * n)
                else:
                    r = self._blob(t)
            else:
                r = self._blob(t)
        elif k == z3.Z3_OP_ITE:
            c, a, b = t.children()
            r = z3.If(self._go(c), self._poly(a), self._poly(b))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [self._arith(c) for c in t.children()]
            r = t.decl()(*ch)
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch)
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
            d = t.children()[1]
            if z3.is_rational_value(d) or z3.is_int_value(d):
                r = t.decl()(*[self._arith(c) for c in t.children()])
            else:
                r = self._blob(t)
        else:
            r = t.decl()(*[self._poly(c) if z3.is_arith(c) else self._go(c) for c in t.children()])
        self.keep += [t, r]
        self.cache[i] = r
        return r

    def _blob(self, t):
        r = z3.Const("!blob%d" % t.get_id(), t.sort())
        self.keep += [t, r]
        self.blobs.add(r.get_id())
        return r

    def _mono(self, fs):
        fs = sorted(fs, key=lambda x: x.get_id())
        while len(fs) > 1:
            b = fs.pop()
            a = fs.pop()
            fs.append(self._pair(a, b))
        return fs[0]

    def _pair(self, a, b):
        if a.get_id() > b.get_id():
            a, b = b, a
        key = (a.get_id(), b.get_id())
        m = self.mono.get(key)
        if m is not None:
            return m
        self.keep += [a, b]
        m = z3.Const("!m%d_%d" % key, z3.RealSort() if z3.is_real(a) or z3.is_real(b) else z3.IntSort())
        self.mono[key] = m
        self.parts[m.get_id()] = (a, b)
        L = self.lemmas[m.get_id()] = []
        I, A, O = z3.Implies, z3.And, z3.Or
        if a.get_id() == b.get_id():
            L += [m >= 0, (m == 0) == (a == 0), I(A(a >= 0, a <= 1), m <= a), I(a >= 1, m >= a)]
            L += [m >= 2 * a - 1]
            return m
        L += [(m == 0) == O(a == 0, b == 0), (m > 0) == O(A(a > 0, b > 0), A(a < 0, b < 0))]
        for x, y in ((a, b), (b, a)):
            L += [I(A(x > 0, y < 1), m < x), I(A(x > 0, y > 1), m > x), I(y == 1, m == x),
                  I(A(x > 0, y == 1), m == x)]
        # (1 - a)(1 - b): sign
        L += [I(A(a < 1, b < 1), m > a + b - 1), I(A(a > 1, b < 1), m < a + b - 1),
              I(A(a < 1, b > 1), m < a + b - 1), I(A(a <= 1, b <= 1), m >= a + b - 1)]
        return m


_ARITH_REL = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT}


class Engine(object):
    def __init__(self, branch_ms=300, assert_ms=30000, max_paths=20000,
                 deadline=None, seed=1):
        self.branch_ms = branch_ms
        self.assert_ms = assert_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.stats = dict(paths=0, pruned=0, branch_queries=0, assert_queries=0,
                          branch_unknown=0, solver_s=0.0, assertions=0,
                          trivially_true=0, decided_linear=0)
        self.failures = []   # (label, {name: value}, info)
        self.unknowns = []   # labels
        self.functions = set()
        self.max_failures = 3
        self.reached = set()
        self.label_counts = {}
        self.relax = Relax()
        self.naming = False

    # -- one run over all paths ------------------------------------------------
    def explore(self, fn):
        global _ENG
        stack = [[]]
        prev, _ENG = _ENG, self
        try:
            while stack:
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted with %d paths queued"
                                       % len(stack))
                if self.stats["paths"] >= self.max_paths:
                    raise Inconclusive("path bound %d exhausted" % self.max_paths)
                if len(self.failures) >= self.max_failures:
                    return
                prefix = stack.pop()
                self._start(prefix, stack)
                try:
                    fn()
                    self.stats["paths"] += 1
                    self.on_path_end()
                except Infeasible:
                    self.stats["pruned"] += 1
        finally:
            _ENG = prev

    def on_path_end(self):
        pass

    def _start(self, prefix, stack):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.stack = stack
        self.pc = []            # list of z3 bools
        self.known = {}         # term id -> bool  (keeps terms alive in self.keep)
        self.keep = []
        self.inputs = {}        # name -> z3 const
        self.fresh = 0
        self.expterms = []      # (arg z3 real, value z3 real)
        self.exppts = {}        # id of an exponent -> points with known bounds
        self.powterms = []      # (base, expo, value)
        self.uf = {}
        self.quots = {}
        self.recips = {}        # key of a quotient 1 / b -> b
        self.nl_cache = {}
        self.active = set()
        self.lin = z3.Solver()
        self.lin.set("random_seed", self.seed)
        self.lin_n = 0
        self.nonlinear = False
        self.labels = []
        self.meta = {}
        self.reports = {}
        self.atom_pairs = None
        self.names = {}
        self.atoms = {}         # id of an atomic timescale -> its reciprocal

    # -- inputs -------------------------------------------------------------------
    def var(self, name, sort):
        if name in self.inputs:
            raise Inconclusive("duplicate input " + name)
        c = z3.Real(name) if sort == "real" else z3.Int(name) if sort == "int" else z3.Bool(name)
        self.inputs[name] = c
        return SymBool(c) if sort == "bool" else Sym(c)

    def atom(self, name):
        """A positive quantity that is only divided by: its reciprocal is a
        variable of its own.  The product of the two is never equated to 1 unless
        the two meet, so terms stay polynomial (an over-approximation)."""
        v = self.var(name, "real")
        self.add(v > 0)
        inv = z3.Real(name + "!inv")
        self.add(inv > 0)
        self.atoms[v.e.get_id()] = inv
        self.keep.append(v.e)
        return v

    def report(self, name, e):
        """A term whose value in the counterexample the replay wants."""
        self.reports[name] = e

    def aux(self, stem, sort="real"):
        self.fresh += 1
        n = "%s!%d" % (stem, self.fresh)
        return z3.Real(n) if sort == "real" else z3.Int(n)

    # -- constraints ----------------------------------------------------------------
    def add(self, e):
        if isinstance(e, SymBool):
            e = e.e
        elif isinstance(e, bool) or not z3.is_expr(e):
            if not e:
                raise Infeasible()
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.known[e.get_id()] = True
        ne = z3.simplify(z3.Not(e))
        self.known[ne.get_id()] = False
        self.keep.append(ne)
        if not self.nonlinear and _is_nonlinear(e, self.nl_cache):
            self.nonlinear = True

    def _check(self, extra, ms):
        t = time.time()
        self.stats["solver_s"] += 0.0
        try:
            R, s = self.relax, self.lin
            rex = []
            for x in extra:
                f, deps = R.formula(z3.simplify(x))
                rex.append(f)
                self._lemmas(deps)
            while self.lin_n < len(self.pc):
                f, deps = R.formula(self.pc[self.lin_n])
                s.add(f)
                self._lemmas(deps)
                self.lin_n += 1
            nl = bool(self.active)
            s.set("timeout", int(min(ms or 1000, 3000)) if nl else int(ms or 5000))
            if rex:
                s.push()
                s.add(*rex)
            r = s.check()
            self._model = s.model() if r == z3.sat and not nl else None
            if rex:
                s.pop()
            if r == z3.unsat:
                self.stats["decided_linear"] += 1
                return r
            if r == z3.sat and not nl:
                self.stats["decided_linear"] += 1
                return r
            if ms == 0:
                return z3.unknown
            return self._check_nl(extra, ms)
        finally:
            self.stats["solver_s"] += time.time() - t

    def _lemmas(self, deps):
        for d in deps:
            if d not in self.active:
                self.active.add(d)
                self.lin.add(*self.relax.lemmas.get(d, ()))

    def _check_nl(self, extra, ms):
        """A small portfolio of nonlinear solvers, with growing time limits."""
        uf = self._has_uf_or_int()
        steps = [ms] if ms <= 400 else [ms // 20, ms // 4, ms]
        for k, t in enumerate(steps):
            last = k == len(steps) - 1 and k > 0
            kinds = ["nlsat", "default"] if not uf else ["default"]
            if k:
                kinds = ["nlsat", "cvc5", "default"] if not uf else ["default", "cvc5"]
            if last:
                kinds.append("old")
            for kind in kinds:
                if kind == "cvc5":
                    if self._cvc5(extra, t) == z3.unsat:
                        return z3.unsat
                    continue
                s = _NLSAT.solver() if kind == "nlsat" else z3.Solver()
                s.set("timeout", int(t))
                if k and kind != "nlsat":
                    s.set("random_seed", self.seed + 17 * k)
                if kind == "old":
                    s.set("arith.solver", 2)
                s.add(*self.pc)
                s.add(*extra)
                r = s.check()
                if r != z3.unknown:
                    self._model = s.model() if r == z3.sat else None
                    return r
        self._model = None
        return z3.unknown

    def _cvc5(self, extra, ms):
        """A second solver; only its 'unsat' is used."""
        if not _CVC5:
            return z3.unknown
        s = z3.Solver()
        s.add(*self.pc)
        s.add(*extra)
        try:
            r = subprocess.run([_CVC5, "-q", "--lang=smt2", "--tlimit=%d" % ms, "-"], input=s.to_smt2().encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000.0 + 5)
        except Exception:
            return z3.unknown
        self.stats["cvc5"] = self.stats.get("cvc5", 0) + 1
        return z3.unsat if r.stdout.decode().strip() == "unsat" else z3.unknown

    def _has_uf_or_int(self):
        return bool(self.uf) or any(c.sort() != z3.RealSort() for c in self.inputs.values()) or self.meta.get("int")

    # -- branching ---------------------------------------------------------------------
    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(v)
            self.add(e if v else z3.Not(e))
            self._note(e, v)
            return v
        self.pos += 1
        self.stats["branch_queries"] += 1
        rt = self._check([e], self.branch_ms)
        if rt == z3.unsat:
            # is the path itself feasible?  (it was when it was queued)
            self._note(e, False, implied=True)
            self.trail.append(False)
            return False
        rf = self._check([z3.Not(e)], self.branch_ms)
        if rf == z3.unsat:
            self._note(e, True, implied=True)
            self.trail.append(True)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.stats["branch_unknown"] += 1
        self.stack.append(self.trail + [False])
        self.trail.append(True)
        self.add(e)
        self._note(e, True)
        return True

    def weak_le(self, le, ge):
        """Of two orders that overlap in equality, one that holds: only a fork
        if both are needed."""
        le, ge = z3.simplify(le), z3.simplify(ge)
        if z3.is_true(le) or z3.is_false(ge):
            return True
        if z3.is_true(ge) or z3.is_false(le):
            return False
        if self.known.get(le.get_id()):
            return True
        if self.known.get(ge.get_id()):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(v)
            self.add(le if v else ge)
            self.keep.append(le if v else ge)
            self.known[(le if v else ge).get_id()] = True
            return v
        self.pos += 1
        self.stats["branch_queries"] += 1
        v = None
        if self._check([z3.Not(le)], self.branch_ms) == z3.unsat:
            v = True
        elif self._check([z3.Not(ge)], self.branch_ms) == z3.unsat:
            v = False
        if v is None:
            self.stack.append(self.trail + [False])
            v = True
            self.add(le)
        self.trail.append(v)
        self.keep.append(le if v else ge)
        self.known[(le if v else ge).get_id()] = True
        return v

    def _note(self, e, v, implied=False):
        self.keep.append(e)
        self.known[e.get_id()] = v
        ne = z3.simplify(z3.Not(e))
        self.keep.append(ne)
        self.known[ne.get_id()] = not v

    def concretize(self, e):
        """Fork over every feasible value of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(v)
            if v[0] == "=":
                self.add(e == v[1])
                return v[1]
            # excluded values; pick another
            for x in v[1]:
                self.add(e != x)
            excl = v[1]
        else:
            self.pos += 1
            excl = ()
            self.trail.append(None)
        if len(excl) > 400:
            raise Inconclusive("concretisation of %s has too many values" % e)
        self.stats["branch_queries"] += 1
        r = self._check([], max(self.branch_ms, self.assert_ms))
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Inconclusive("cannot concretise %s" % e)
        v = self._model.eval(e, model_completion=True).as_long()
        self.stack.append(self.trail[:-1] + [("!", excl + (v,))])
        self.trail[-1] = ("=", v)
        self.add(e == v)
        return v

    # -- transcendental and uninterpreted functions --------------------------------------
    def quotient(self, a, b):
        inv = self.atoms.get(b.get_id())
        if inv is not None:
            return _mk(self.cancel(a * inv))
        if self.naming:
            a, b = self.named(a), self.named(b)
        key = (a.get_id(), b.get_id())
        if key in self.quots:
            return self.quots[key]
        q = self.aux("q")
        self.keep += [a, b]
        self.add(q * b == a)
        # consequences that the linear relaxation cannot see
        self.add(z3.Implies(b > 0, z3.And((a >= 0) == (q >= 0), (a > 0) == (q > 0),
                                          (a <= b) == (q <= 1), (a < b) == (q < 1))))
        self.add(z3.Implies(b < 0, z3.And((a <= 0) == (q >= 0), (a < 0) == (q > 0),
                                          (a >= b) == (q <= 1), (a > b) == (q < 1))))
        r = Sym(q)
        self.quots[key] = r
        if z3.is_rational_value(a) and a.as_fraction() == 1:
            self.recips[key] = b
        return r

    def named(self, t):
        """A variable for a nonlinear sum about to become a factor, so that
        products stay products of two variables."""
        t = z3.simplify(t)
        if not (z3.is_add(t) or (z3.is_mul(t) and any(z3.is_add(c) for c in t.children()))):
            return t
        if z3.is_int(t) or not _is_nonlinear(t, self.nl_cache):
            return t
        v = self.names.get(t.get_id())
        if v is None:
            v = self.aux("y")
            self.keep.append(t)
            self.names[t.get_id()] = v
            self.add(v == t)
        return v

    def cancel(self, t):
        """Sum of monomials of t in which a timescale meeting its reciprocal is 1."""
        t = z3.simplify(t, som=True)
        if not self.atoms:
            return t
        if not self.atom_pairs or len(self.atom_pairs) != len(self.atoms):
            self.atom_pairs = {i: inv.get_id() for i, inv in self.atoms.items()}
        terms = t.children() if z3.is_add(t) else [t]
        out, changed = [], False
        for m in terms:
            fs = []

            def flat(x):
                if z3.is_mul(x):
                    for c in x.children():
                        flat(c)
                elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) \
                        and x.arg(1).as_fraction().denominator == 1 and 0 < x.arg(1).as_fraction() < 9:
                    for _ in range(int(x.arg(1).as_fraction())):
                        flat(x.arg(0))
                else:
                    fs.append(x)

            flat(m)
            for a, b in self.atom_pairs.items():
                while True:
                    ia = next((k for k, f in enumerate(fs) if f.get_id() == a), None)
                    ib = next((k for k, f in enumerate(fs) if f.get_id() == b), None)
                    if ia is None or ib is None:
                        break
                    fs = [f for k, f in enumerate(fs) if k not in (ia, ib)]
                    changed = True
            p = z3.RealVal(1)
            for f in fs:
                p = p * f
            out.append(p)
        if not changed:
            return t
        return z3.simplify(z3.Sum(out), som=True)

    def exp_pair(self, arg, val):
        """Register val = exp(arg) (z3 real terms) with instantiated axioms."""
        arg, val = z3.simplify(arg), z3.simplify(val)
        one = z3.RealVal(1)
        self.add(val > 0)
        self.add((arg == 0) == (val == one))
        self.add((arg < 0) == (val < one))
        self.add(z3.Implies(arg != 0, val > one + arg))
        for (b, w) in self.expterms:
            self.add((arg == b) == (val == w))
            self.add((arg < b) == (val < w))
        # exp(x) exp(y) = exp(x + y), exp(x) exp(-x) = 1, where the args add up
        ts = self.expterms
        for i, (b, w) in enumerate(ts):
            if self._zero(arg + b):
                self.add(val * w == one)
            for j in range(i + 1):
                c, x = ts[j]
                if self._zero(arg - b - c):
                    self.add(val == w * x)
                if self._zero(b - arg - c):
                    self.add(w == val * x)
                if i != j and self._zero(c - arg - b):
                    self.add(x == val * w)
            if self._zero(b - arg - arg):
                self.add(w == val * val)
        self.expterms.append((arg, val))

    def _zero(self, t):
        t = z3.simplify(t, som=True)
        if z3.is_rational_value(t):
            return t.as_fraction() == 0
        return False

    def exp(self, x):
        arg = self.cancel(to_real(x))
        for (b, w) in self.expterms:
            if b.get_id() == arg.get_id():
                return _mk(w)
        for (b, w) in self.expterms:
            if self._zero(arg - b):
                return _mk(w)
        v = self.aux("exp")
        self.exp_pair(arg, v)
        return Sym(v)

    def log(self, x):
        val = z3.simplify(to_real(x))
        if not bool(mkbool(val > 0)):
            return _f64(-math.inf if bool(mkbool(val == 0)) else math.nan)
        for (b, w) in self.expterms:
            if w.get_id() == val.get_id():
                return _mk(b)
        for key, q in self.quots.items():
            if isinstance(key, tuple) and isinstance(q, Sym) and q.e.get_id() == val.get_id() and key[0] != "sqrt":
                den = self.recips.get(key)
                if den is not None:
                    return -self.log(Sym(den))
        v = self.aux("log")
        self.exp_pair(v, val)
        return Sym(v)

    def sqrt(self, x):
        if not bool(x >= 0):
            return _f64(math.nan)
        key = ("sqrt", x.e.get_id())
        if key not in self.quots:
            v = self.aux("sqrt")
            self.keep.append(x.e)
            self.add(v >= 0)
            self.add(v * v == to_real(x))
            self.quots[key] = Sym(v)
        return self.quots[key]

    def power(self, a, b):
        """Positive power of a non-negative base: uninterpreted, with the
        axioms 0^b=0, 1^b=1, x^1=x, monotone in x, 0<=x<=1 => 0<=x^b<=1."""
        if not bool(scalar_cmp(">=", a, 0)):
            raise Unsupported("power of a negative symbolic base")
        if not bool(scalar_cmp(">", b, 0)):
            raise Unsupported("non-positive symbolic exponent")
        x, y = z3.simplify(to_real(a)), z3.simplify(to_real(b))
        for (p, q, w) in self.powterms:
            if p.get_id() == x.get_id() and q.get_id() == y.get_id():
                return _mk(w)
        v = self.aux("pow")
        one = z3.RealVal(1)
        self.add(v >= 0)
        self.add((x == 0) == (v == 0))
        self.add((x == one) == (v == one))
        self.add((x <= one) == (v <= one))
        self.add(z3.Implies(y == one, v == x))
        # x < 1: larger exponents give smaller powers; compare with x itself
        self.add(z3.Implies(z3.And(x > 0, x < one, y < one), v > x))
        self.add(z3.Implies(z3.And(x > 0, x < one, y > one), v < x))
        for (p, q, w) in self.powterms:
            self.add(z3.Implies(y == q, (x == p) == (v == w)))
            self.add(z3.Implies(y == q, (x < p) == (v < w)))
            self.add(z3.Implies(z3.And(x == p, x > 0, x < one), (y < q) == (v > w)))
        self.powterms.append((x, y, v))
        return Sym(v)

    def unary_uf(self, name, x):
        key = name
        if key not in self.uf:
            self.uf[key] = z3.Function(name, z3.RealSort(), z3.RealSort())
        return Sym(self.uf[key](to_real(x)))

    def call_uf(self, name, args, n_out=1):
        """Uninterpreted function over reals (scalars), one result."""
        key = (name, len(args))
        if key not in self.uf:
            self.uf[key] = z3.Function(
                "%s_%d" % (name, len(args)), *([z3.RealSort()] * (len(args) + 1))
            )
        return Sym(self.uf[key](*[to_real(a) for a in args]))

    # -- assertions -------------------------------------------------------------------------
    def prove(self, cond, label, margin_cond=None):
        """cond must hold on every input of this path.  margin_cond is a weaker
        condition whose negation is what a counterexample has to satisfy."""
        self.stats["assertions"] += 1
        self.label_counts[label] = self.label_counts.get(label, 0) + 1
        c = bool_z3(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats["trivially_true"] += 1
            return True
        neg = z3.Not(c)
        self.stats["assert_queries"] += 1
        t = time.time()
        wneg = z3.Not(bool_z3(margin_cond)) if margin_cond is not None else None
        r, weak = z3.unknown, None
        for ms in (self.assert_ms // 10, 2 * self.assert_ms):
            r = self._check([neg], ms)
            if r == z3.unknown and wneg is not None:
                weak = self._check([wneg], ms)
                if weak == z3.unsat:
                    return True
                if weak == z3.sat:
                    break
            if r != z3.unknown:
                break
        t = time.time() - t
        if t > self.stats.get("slowest_s", 0):
            self.stats["slowest_s"], self.stats["slowest"] = t, label
        if t > 5 and os.environ.get("SYMX_DUMP"):
            for nm, x in (("neg", neg), ("weak", wneg)):
                if x is not None:
                    d = z3.Solver()
                    d.add(*self.pc)
                    d.add(x)
                    with open(os.path.join(os.environ["SYMX_DUMP"], "%d-%s.smt2" % (time.time() * 10, nm)), "w") as g:
                        g.write(d.to_smt2())
        if r == z3.unsat:
            return True
        if wneg is not None:
            if weak != z3.sat:
                weak = self._check([wneg], 2 * self.assert_ms)
            r = weak
            if r == z3.unsat:
                # only differs within the stated tolerance
                return True
            neg = wneg
        if r == z3.unknown:
            self.unknowns.append(label)
            return False
        m = self._model
        if self.refine([neg]) == z3.unsat:
            return True
        self._model = m
        self.fail(label, neg)
        return False

    def refine(self, extra, rounds=8):
        """Counterexamples whose exponentials are not those of their exponents
        are excluded by tangents and secants at the exponents they use.  unsat if
        nothing remains, sat (with a model in self.refined) if a model is exact."""
        self.refined = None
        m = self._model
        if m is None or not (self.expterms or self.atoms or self.powterms):
            self.refined = m
            return z3.sat
        for k in range(rounds):
            pins, off = [], False
            for c, inv in self.atom_vars():
                y = self._rat(m, inv)
                if y is None or y <= 0:
                    return z3.unknown
                pins += [inv == z3.RealVal(y), c == z3.RealVal(1 / y)]
            for i, (arg, val) in enumerate(self.expterms):
                a, v = self._rat(m, arg), self._rat(m, val)
                if a is None or v is None or abs(a) > 600:
                    return z3.unknown
                lo, hi = _exp_bounds(a)
                if not lo <= v <= hi:
                    off = True
                    self._exp_lemmas(i, Fraction(float(a)))
                pins += [arg == z3.RealVal(a), val >= z3.RealVal(lo), val <= z3.RealVal(hi)]
            for (x, y, w) in self.powterms:
                a, b = self._rat(m, x), self._rat(m, y)
                if a is None or b is None:
                    return z3.unknown
                e = Fraction(float(a) ** float(b))
                pins += [x == z3.RealVal(a), y == z3.RealVal(b), w >= z3.RealVal(e * (1 - _EPS)),
                         w <= z3.RealVal(e * (1 + _EPS))]
            if self._check(extra + pins, min(self.assert_ms, 5000)) == z3.sat:
                self.refined = self._model
                return z3.sat
            if not off:
                return z3.unknown
            r = self._check(extra, min(self.assert_ms, 10000))
            if r != z3.sat:
                return r
            m = self._model
        return z3.unknown

    def atom_vars(self):
        for n, c in self.inputs.items():
            inv = self.atoms.get(c.get_id())
            if inv is not None:
                yield c, inv

    def _rat(self, m, t):
        v = m.eval(t, model_completion=True)
        if z3.is_rational_value(v):
            return v.as_fraction()
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_algebraic_value(v):
            return v.approx(30).as_fraction()
        return None

    def _exp_lemmas(self, i, a):
        arg, val = self.expterms[i]
        key = arg.get_id()
        pts = self.exppts.setdefault(key, [(Fraction(0), Fraction(1), Fraction(1))])
        if any(p[0] == a for p in pts):
            return
        lo, hi = _exp_bounds(a)
        pts.append((a, lo, hi))
        pts.sort()
        R = z3.RealVal
        self.add(val >= R(lo) * (1 + arg - R(a)))
        self.add(z3.Implies(arg <= R(a), val <= R(hi)))
        self.add(z3.Implies(arg >= R(a), val >= R(lo)))
        j = [p[0] for p in pts].index(a)
        for p, q in ((j - 1, j), (j, j + 1)):
            if 0 <= p and q < len(pts):
                (x, _, u), (y, _, w) = pts[p], pts[q]
                self.add(z3.Implies(z3.And(arg >= R(x), arg <= R(y)),
                                    val <= R(u) + R((w - u) / (y - x)) * (arg - R(x))))

    def fail(self, label, neg=None):
        models = []
        extra = [neg] if neg is not None else []
        m = self._model if neg is not None else None
        if m is None:
            r = self._check(extra, self.assert_ms)
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                self.unknowns.append(label)
                return
            m = self._model
            if self.refine(extra) == z3.unsat:
                raise Infeasible()
        models.append(self._values(m))
        exact = [self._values(self.refined)] if self.refined is not None else []
        # a few more, diverse and "nicer" models for the replay
        for k in range(4):
            hints = self._hints(k)
            try:
                r = self._check(extra + hints, min(self.assert_ms, 5000))
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                models.insert(0, self._values(self._model))
        # what only tiny inputs show is rounding
        models = [m for m in exact + models if not any(
            0 < abs(v) < _TINY for n, v in m.items() if n in self.inputs and isinstance(v, float))]
        self.failures.append(dict(label=label, models=models, meta=dict(self.meta)))

    def _plain(self):
        """Inputs whose effect does not drown in rounding: zero or not tiny."""
        t = z3.RealVal(_TINY)
        return [z3.Or(c == 0, c >= t, c <= -t) for c in self.inputs.values() if c.sort() == z3.RealSort()]

    def _hints(self, k):
        import random

        rnd = random.Random(self.seed * 100 + k)
        hs = self._plain()
        for n, c in self.inputs.items():
            if c.sort() == z3.RealSort():
                nice = self.meta.get("nice", {}).get(n)
                if nice:
                    lo, hi = nice
                    hs.append(c >= z3.RealVal(Fraction(lo)))
                    hs.append(c <= z3.RealVal(Fraction(hi)))
                if k >= 2 and rnd.random() < 0.5:
                    lo2, hi2 = nice if nice else (0.25, 4)
                    mid = Fraction(lo2) + (Fraction(hi2) - Fraction(lo2)) * Fraction(rnd.randint(1, 9), 10)
                    hs.append(c >= z3.RealVal(mid * Fraction(9, 10)))
                    hs.append(c <= z3.RealVal(mid * Fraction(11, 10)))
        return hs

    def _values(self, m):
        out = {}
        for n, c in list(self.inputs.items()) + list(self.reports.items()):
            v = m.eval(c, model_completion=True)
            out[n] = _pyval(v)
        return out


_NLSAT = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat")
_CVC5 = shutil.which("cvc5")
_EPS = Fraction(1, 10 ** 12)
_TINY = Fraction(1, 2 ** 24)


def _exp_bounds(a):
    e = Fraction(math.exp(float(a))) if float(a) > -700 else Fraction(0)
    return e * (1 - _EPS), e * (1 + _EPS) + Fraction(1, 10 ** 300)


def _pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    raise Inconclusive("no value for %s" % v)
