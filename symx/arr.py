"""Arrays holding symbolic scalars, and a stand-in for the numpy module.

SymArray is an ndarray of dtype object tagged with a kind, 'f' (float64) or
'i' (int64): assignments are coerced to it, as numpy would.  Every float array
the code under analysis creates becomes a SymArray; integer and boolean arrays
of concrete values stay native numpy arrays.
"""
import builtins
import inspect
import math
import numbers

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported

# ------------------------------------------------------------------- scalars


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return not x.is_int
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


class symfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return core.tofloat(x)
        if isinstance(x, np.ndarray) and x.ndim:
            return NP._cast(x, symfloat)
        if isinstance(x, np.ndarray):
            return symfloat(base(x)[()])
        return np.float64(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.is_int
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class symint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymBool):
            return x._as_int()
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, SymArray) and x.size == 1:
            return symint(base(x).reshape(-1)[0])
        return builtins.int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.bool)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class symbool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return builtins.bool(x)


class SymRange(object):
    """range() with symbolic bounds; only concretised when it must be."""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, Sym):
            raise Unsupported("symbolic range step")

    def _nonempty(self):
        return bool(self.start < self.stop if self.step > 0 else self.start > self.stop)

    def _last(self):
        if self.step == 1:
            return self.stop - 1
        if self.step == -1:
            return self.stop + 1
        return self.concrete()[-1]

    def concrete(self):
        a = self.start.__index__() if isinstance(self.start, Sym) else self.start
        b = self.stop.__index__() if isinstance(self.stop, Sym) else self.stop
        return builtins.range(a, b, self.step)

    def __iter__(self):
        # lazy: one fork per iteration instead of concretising up front
        i = self.start.__index__() if isinstance(self.start, Sym) else self.start
        while bool(i < self.stop) if self.step > 0 else bool(i > self.stop):
            yield i
            i = i + self.step

    def __reversed__(self):
        return reversed(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __bool__(self):
        return self._nonempty()

    def __contains__(self, x):
        if self.step == 1:
            return bool(x >= self.start) and bool(x < self.stop)
        return x in self.concrete()

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.concrete()[k]
        if isinstance(k, Sym):
            k = k.__index__()
        if k == -1:
            if not self._nonempty():
                raise IndexError("range object index out of range")
            return self._last()
        if k < 0:
            return self.concrete()[k]
        v = self.start + k * self.step
        if not (bool(v < self.stop) if self.step > 0 else bool(v > self.stop)):
            raise IndexError("range object index out of range")
        return v

    def __eq__(self, o):
        if isinstance(o, (SymRange, builtins.range)):
            return self.concrete() == (o.concrete() if isinstance(o, SymRange) else o)
        return False

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    def index(self, v):
        return self.concrete().index(v)

    def count(self, v):
        return self.concrete().count(v)

    def __array__(self, dtype=None):
        return np.array(self.concrete(), dtype=dtype)

    def __repr__(self):
        return "SymRange(%r, %r, %r)" % (self.start, self.stop, self.step)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.range, SymRange))

    def __eq__(cls, o):
        return o is cls or o is builtins.range

    def __hash__(cls):
        return hash(builtins.range)


class symrange(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if any(isinstance(x, Sym) for x in a):
            if len(a) == 1:
                a = (0, a[0])
            return SymRange(*a)
        a = [int(x) if isinstance(x, np.integer) else x for x in a]
        return builtins.range(*a)


def _kmin(args, key, default, pick):
    it = list(args[0]) if len(args) == 1 else list(args)
    if not it:
        if default is not _NO:
            return default
        raise ValueError("arg is an empty sequence")
    best = it[0]
    for x in it[1:]:
        if key is None and (isinstance(x, Sym) or isinstance(best, Sym)) and core._is_number(x) and core._is_number(best) \
                and not (_f_isnan(x) or _f_isnan(best)):
            # which of two equal numbers makes no difference
            if core.at_most(best, x) == (pick == "max"):
                best = x
            continue
        kx, kb = (key(x), key(best)) if key else (x, best)
        if bool(kx < kb) if pick == "min" else bool(kx > kb):
            best = x
    return best


_NO = object()


def symmin(*args, key=None, default=_NO):
    if len(args) == 1 and isinstance(args[0], SymRange):
        r = args[0]
        if not r._nonempty():
            raise ValueError("min() arg is an empty sequence")
        return r.start if r.step > 0 else r._last()
    return _kmin(args, key, default, "min")


def symmax(*args, key=None, default=_NO):
    if len(args) == 1 and isinstance(args[0], SymRange):
        r = args[0]
        if not r._nonempty():
            raise ValueError("max() arg is an empty sequence")
        return r._last() if r.step > 0 else r.start
    return _kmin(args, key, default, "max")


def kind_of(t):
    """'f', 'i', 'b', 'o' for a dtype-like, or None."""
    if t is None:
        return None
    if t is symfloat or t is builtins.float:
        return "f"
    if t is symint or t is builtins.int:
        return "i"
    if t is symbool or t is builtins.bool:
        return "b"
    if t is object:
        return "o"
    k = np.dtype(t).kind
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "o"}.get(k, "o")


def real_dtype(t):
    if t is symfloat:
        return np.float64
    if t is symint:
        return np.int64
    if t is symbool:
        return np.bool_
    return t


def cast_scalar(x, kind):
    if kind == "f":
        if isinstance(x, (Sym, SymBool)):
            return core.unpy(core.tofloat(x))
        return np.float64(x)
    if kind == "i":
        if isinstance(x, SymBool):
            return x._as_int()
        if isinstance(x, Sym):
            return core.trunc(x)
        return int(x)
    if kind == "b":
        return builtins.bool(x)
    return x


# -------------------------------------------------------------------- arrays


def base(a):
    return a.view(np.ndarray) if isinstance(a, (SymArray, IntArray)) else a


def like(r, x):
    """r as an array of x's class, with what that class attaches to it."""
    if type(x) is SymArray or type(r) is not SymArray:
        return r
    k = r.kind
    o = base(r).view(type(x))
    o.__array_finalize__(x)
    o.kind = k
    return o


class IntArray(np.ndarray):
    """Concrete integers or booleans; floats computed from them are SymArrays."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get("out")
        outs = out if isinstance(out, tuple) else (out,) if out is not None else ()
        if any(isinstance(x, (SymArray, Sym, SymBool)) for x in tuple(inputs) + outs):
            return ufunc_dispatch(ufunc, method, inputs, kw)
        if out is not None:
            kw["out"] = tuple(base(o) for o in outs)
        if isinstance(kw.get("where"), np.ndarray):
            kw["where"] = base(kw["where"])
        r = getattr(ufunc, method)(*[base(x) for x in inputs], **kw)
        if out is not None:
            return outs[0]
        if isinstance(r, tuple):
            return tuple(wrap(x) for x in r)
        return wrap(r)

    def astype(self, t, *a, **k):
        kd = kind_of(t)
        if k.get("copy") is False and kd == kind_of(base(self).dtype):
            return self
        if kd == "o":
            return base(self).astype(object)
        if kd == "f":
            return wrap(base(self).astype(np.float64))
        if t is symint or t is symbool:
            t = real_dtype(t)
        return base(self).astype(t).view(IntArray)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _index(k))

    def __setitem__(self, k, v):
        if isinstance(v, SymArray):
            v = v.astype(symint)
        if isinstance(v, (Sym, SymBool)):
            v = v.__index__() if isinstance(v, Sym) and v.is_int else int(bool(v)) \
                if isinstance(v, SymBool) else core.trunc(v).__index__()
        np.ndarray.__setitem__(self, _index(k), v)

    def mean(self, *a, **k):
        return wrap(base(self).mean(*a, **k))

    def nonzero(self):
        return _rewrap(base(self).nonzero())

    def std(self, *a, **k):
        return wrap(base(self).std(*a, **k))


def _infer_kind(arr):
    """Kind of an object ndarray from its elements."""
    k = "i"
    for x in arr.flat:
        if isinstance(x, Sym):
            if not x.is_int:
                return "f"
        elif isinstance(x, (SymBool, builtins.bool, np.bool_)):
            pass
        elif isinstance(x, numbers.Integral):
            pass
        elif isinstance(x, numbers.Number):
            return "f"
        else:
            return "o"
    return k


def wrap(arr, kind=None):
    """Tag an ndarray as SymArray (objects) or leave native ints/bools."""
    if not isinstance(arr, np.ndarray):
        return arr
    if arr.dtype != object:
        if arr.dtype.kind == "f":
            o = np.empty(arr.shape, dtype=object)
            of, af = o.reshape(-1), arr.reshape(-1)
            for i in range(of.size):
                of[i] = np.float64(af[i])
            s = o.view(SymArray)
            s.kind = "f"
            return s
        if arr.dtype.kind in "iub" and not isinstance(arr, SymArray):
            return arr.view(IntArray)
        return arr
    if kind is None:
        kind = _infer_kind(arr)
    if kind == "o":
        return arr.view(np.ndarray)
    if kind == "i" and not any(isinstance(x, (Sym, SymBool)) for x in arr.flat):
        return np.array(arr.tolist(), dtype=np.int64).reshape(arr.shape).view(IntArray)
    s = arr.view(SymArray)
    s.kind = kind
    return s


def coerce_array(v, kind):
    """Elements of an array-like coerced to kind, as object ndarray."""
    if isinstance(v, np.ndarray):
        a = base(v)
        if isinstance(v, SymArray) and v.kind == kind:
            return a
        o = np.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        for i, x in enumerate(a.flat):
            of[i] = cast_scalar(x, kind)
        return o
    if isinstance(v, (list, tuple, builtins.range, SymRange)):
        return coerce_array(wrap_new(v), kind)
    return v if not core._is_number(v) else cast_scalar(v, kind)


def wrap_new(v):
    """np.array(v)"""
    if isinstance(v, SymRange):
        v = v.concrete()
    if isinstance(v, SymArray):
        o = base(v).copy().view(SymArray)
        o.kind = v.kind
        return o
    if isinstance(v, np.ndarray):
        return wrap(v.copy())
    if isinstance(v, (Sym, SymBool)):
        o = np.empty((), dtype=object)
        o[()] = v
        return wrap(o)
    if hasattr(v, "__memview__"):
        return wrap_new(v.__memview__())
    if isinstance(v, (list, tuple)):
        v = _plain(v)
        if _has_sym(v):
            return wrap(np.array(v, dtype=object))
    return wrap(np.array(v))


def _plain(v):
    """Nested sequence with SymArray parts as lists."""
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, SymRange):
        return list(v.concrete())
    if isinstance(v, np.ndarray) and v.ndim:
        return [_plain(x) for x in base(v)]
    if isinstance(v, np.ndarray):
        return base(v)[()]
    if hasattr(v, "__memview__"):
        return _plain(v.__memview__())
    return v


def _has_sym(v):
    if isinstance(v, list):
        return any(_has_sym(x) for x in v)
    return isinstance(v, (Sym, SymBool))


def _index(k):
    """Make an index usable on a native ndarray."""
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymRange):
        return list(k.concrete())
    if isinstance(k, builtins.range):
        return np.array(k, dtype=np.int64) if len(k) else np.zeros(0, dtype=np.int64)
    if isinstance(k, slice):
        f = lambda x: x.__index__() if isinstance(x, Sym) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, SymArray):
        if k.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([int(x) for x in base(k).flat], dtype=np.int64).reshape(k.shape)
    if isinstance(k, list) and any(isinstance(x, (Sym, SymBool)) for x in k):
        return [_index(x) for x in k]
    return k


class SymArray(np.ndarray):
    kind = "f"

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, "kind", "f")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        r = ufunc_dispatch(ufunc, method, inputs, kw)
        if method == "__call__" and "out" not in kw and type(r) is SymArray:
            # subclasses survive arithmetic, as numpy's own do
            for x in inputs:
                if isinstance(x, SymArray) and type(x) is not SymArray:
                    return like(r, x)
        return r

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _index(k))
        return r

    def __setitem__(self, k, v):
        if hasattr(v, "__memview__"):
            v = v.__memview__()
        v = coerce_array(v, self.kind)
        np.ndarray.__setitem__(self.view(np.ndarray), _index(k), v)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def fill(self, v):
        self[...] = v

    def astype(self, t, order=None, casting=None, subok=True, copy=True):
        kd = kind_of(t)
        if not copy and kd == self.kind:
            return self
        if kd == "b":
            o = np.array([builtins.bool(x) for x in base(self).flat], dtype=bool)
            return o.reshape(self.shape)
        o = np.array(coerce_array(self, kd), dtype=object, copy=True)
        if kd == "o":
            return o
        s = o.view(SymArray)
        s.kind = kd
        return like(s, self) if kd == "f" else wrap(o, "i")

    def copy(self, order="C"):
        s = base(self).copy(order).view(SymArray)
        s.kind = self.kind
        return like(s, self)

    def __deepcopy__(self, memo):
        return self.copy("K")

    __copy__ = copy

    @property
    def dtype(self):
        return np.dtype(np.float64 if self.kind == "f" else np.int64)

    def item(self, *a):
        return base(self).item(*a)

    # reductions: through the module functions, so that forks happen one by one
    def sum(self, axis=None, **k):
        return _reduce(np.add, self, axis)

    def prod(self, axis=None, **k):
        return _reduce(np.multiply, self, axis)

    def cumsum(self, axis=None, **k):
        return _accumulate(np.add, self, axis)

    def cumprod(self, axis=None, **k):
        return _accumulate(np.multiply, self, axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis] if not isinstance(axis, tuple) \
            else math.prod(self.shape[i] for i in axis)
        return self.sum(axis=axis) / n

    def var(self, axis=None, ddof=0, **k):
        n = self.size if axis is None else self.shape[axis]
        m = self.mean(axis=axis, keepdims=True)
        return ((self - m) ** 2).sum(axis=axis) / (n - ddof)

    def std(self, axis=None, ddof=0, **k):
        return ufunc_dispatch(np.sqrt, "__call__", (self.var(axis=axis, ddof=ddof),), {})

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def min(self, axis=None, **k):
        return _reduce(np.minimum, self, axis, False)

    def max(self, axis=None, **k):
        return _reduce(np.maximum, self, axis, False)

    def argmin(self, axis=None, **k):
        return _argext(self, axis, "min")

    def argmax(self, axis=None, **k):
        return _argext(self, axis, "max")

    def any(self, axis=None, **k):
        return (self != 0).any(axis=axis)

    def all(self, axis=None, **k):
        return (self != 0).all(axis=axis)

    def clip(self, min=None, max=None, **k):
        return _clip(self, min, max)

    def round(self, decimals=0, **k):
        return NP.round(self, decimals)

    def nonzero(self):
        return _rewrap(base(self != 0).nonzero())

    def dot(self, o):
        return _dot(self, o)

    def __matmul__(self, o):
        return _dot(self, o)

    def tolist(self):
        return base(self).tolist()

    def __contains__(self, v):
        for x in base(self).flat:
            if bool(core.scalar_cmp("==", x, v)):
                return True
        return False

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array is ambiguous")
        return builtins.bool(base(self).reshape(-1)[0])

    def __float__(self):
        raise Unsupported("float() of a symbolic array")

    def __index__(self):
        if self.size == 1 and self.kind == "i":
            return int(base(self).reshape(-1)[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")


# ------------------------------------------------------------------ keywords

# keywords that change neither values nor what aliases what
_IGNORABLE = {"order", "subok", "casting", "like", "otypes", "assume_unique", "equal_nan"}


def _ignorable(name, k):
    bad = sorted(n for n, v in k.items() if n not in _IGNORABLE and v is not None
                 and v is not np._NoValue)
    if bad:
        raise Unsupported("%s with keywords %s" % (name, bad))


def _into(out, r):
    if out is None:
        return r
    if hasattr(out, "__memview__"):
        out = out.__memview__()
    out[...] = r
    return out


def honouring(f):
    """f(a, ..., **k) computes the plain result; the keywords in k that numpy
    knows are applied to it, and any other is Unsupported."""
    sig = inspect.signature(f)
    if not any(p.kind == p.VAR_KEYWORD for p in sig.parameters.values()):
        return f
    own = {n for n, p in sig.parameters.items() if p.kind != p.VAR_KEYWORD}
    method = next(iter(sig.parameters)) == "self" and "." in f.__qualname__ \
        and not f.__qualname__.startswith("SymArray")
    pos = 1 if method else 0
    name = f.__name__

    def g(*a, **k):
        x = {n: k.pop(n) for n in list(k) if n not in own}
        if not x:
            return f(*a, **k)
        x = {n: v for n, v in x.items() if v is not None and v is not np._NoValue}
        out = x.pop("out", None)
        out = out[0] if isinstance(out, tuple) else out
        keep = x.pop("keepdims", False)
        where = x.pop("where", True)
        initial = x.pop("initial", None)
        dtype = x.pop("dtype", None)
        if name in ("diff",):
            k.update({n: x.pop(n) for n in ("prepend", "append") if n in x})
        _ignorable(name, x)
        a = list(a)
        if where is not True:
            fill = {"sum": 0, "nansum": 0, "prod": 1, "any": False, "all": True}.get(name, initial)
            if fill is None or name not in ("sum", "nansum", "prod", "any", "all", "min", "max",
                                            "amin", "amax"):
                raise Unsupported("%s with where=" % name)
            a[pos] = NP.where(where, a[pos], fill)
        if dtype is not None and kind_of(dtype) == "f" and name in ("sum", "prod", "cumsum", "cumprod"):
            a[pos] = NP.asarray(a[pos], dtype=dtype)
            dtype = None
        arg = NP._a(a[pos]) if keep or initial is not None else None
        if initial is not None and name in ("min", "max", "amin", "amax") and arg.size == 0:
            r = initial
        else:
            r = f(*a, **k)
        if initial is not None:
            u = {"sum": np.add, "nansum": np.add, "prod": np.multiply, "min": np.minimum,
                 "amin": np.minimum, "max": np.maximum, "amax": np.maximum}.get(name)
            if u is None:
                raise Unsupported("%s with initial=" % name)
            r = ufunc_dispatch(u, "__call__", (r, initial), {})
        if keep:
            ax = k.get("axis", a[pos + 1] if len(a) > pos + 1 else None)
            ax = range(arg.ndim) if ax is None else ax if isinstance(ax, tuple) else (ax,)
            ax = {i % arg.ndim for i in ax}
            r = NP._a(r).reshape(tuple(1 if i in ax else n for i, n in enumerate(arg.shape)))
        if dtype is not None:
            r = NP._cast(r, dtype) if isinstance(r, np.ndarray) else cast_scalar(r, kind_of(dtype))
        return _into(out, r)

    g.__name__ = name
    g.__qualname__ = f.__qualname__
    return g


for _n, _f in list(vars(SymArray).items()):
    if inspect.isfunction(_f) and not _n.startswith("_") and _n not in ("astype", "copy"):
        setattr(SymArray, _n, honouring(_f))


# -------------------------------------------------------------------- ufuncs

def _s1(f):
    return f


def _round_away(x):
    return core.rint(x)


def _mean_sign(x):
    s = core.sgn(x)
    return np.float64(s)


def _f_isnan(x):
    return (not isinstance(x, (Sym, SymBool))) and math.isnan(float(x))


def _f_isinf(x):
    return (not isinstance(x, (Sym, SymBool))) and math.isinf(float(x))


def _f_isfinite(x):
    return isinstance(x, (Sym, SymBool)) or math.isfinite(float(x))


def _smin(a, b):
    if _f_isnan(a) or _f_isnan(b):
        return np.float64(math.nan)
    return a if core.at_most(a, b) else b


def _smax(a, b):
    if _f_isnan(a) or _f_isnan(b):
        return np.float64(math.nan)
    return b if core.at_most(a, b) else a


def _op(o):
    return lambda a, b: core.scalar_op(o, a, b)


def _cm(o):
    return lambda a, b: builtins.bool(core.scalar_cmp(o, a, b))


def _expm1(x):
    return core.exp(x) - 1


def _np1(name):
    f = getattr(np, name)

    def g(x):
        if isinstance(x, Sym):
            raise Unsupported("np.%s of a symbolic value" % name)
        return f(np.float64(x))

    return g


# name -> (arity, function, result kind: f, same, b)
_UF = {
    "add": (2, _op("+"), None),
    "subtract": (2, _op("-"), None),
    "multiply": (2, _op("*"), None),
    "divide": (2, _op("/"), "f"),
    "true_divide": (2, _op("/"), "f"),
    "floor_divide": (2, _op("//"), None),
    "remainder": (2, _op("%"), None),
    "mod": (2, _op("%"), None),
    "power": (2, _op("**"), None),
    "float_power": (2, _op("**"), "f"),
    "maximum": (2, _smax, None),
    "minimum": (2, _smin, None),
    "fmax": (2, _smax, None),
    "fmin": (2, _smin, None),
    "negative": (1, lambda x: -x, None),
    "positive": (1, lambda x: x, None),
    "absolute": (1, lambda x: abs(x), None),
    "fabs": (1, lambda x: abs(x), "f"),
    "square": (1, lambda x: x * x, None),
    "reciprocal": (1, lambda x: core.scalar_op("/", 1, x), "f"),
    "sign": (1, _mean_sign, None),
    "exp": (1, core.exp, "f"),
    "expm1": (1, _expm1, "f"),
    "log": (1, core.log, "f"),
    "sqrt": (1, core.sqrt, "f"),
    "arctan": (1, core.arctan, "f"),
    "rint": (1, lambda x: core.tofloat(core.rint(x)), "f"),
    "floor": (1, lambda x: core.tofloat(core.floor(x)), "f"),
    "ceil": (1, lambda x: core.tofloat(core.ceil(x)), "f"),
    "trunc": (1, lambda x: core.tofloat(core.trunc(x)), "f"),
    "less": (2, _cm("<"), "b"),
    "less_equal": (2, _cm("<="), "b"),
    "greater": (2, _cm(">"), "b"),
    "greater_equal": (2, _cm(">="), "b"),
    "equal": (2, _cm("=="), "b"),
    "not_equal": (2, _cm("!="), "b"),
    "isnan": (1, _f_isnan, "b"),
    "isinf": (1, _f_isinf, "b"),
    "isfinite": (1, _f_isfinite, "b"),
    "logical_not": (1, lambda x: not builtins.bool(x), "b"),
    "logical_and": (2, lambda a, b: builtins.bool(a) and builtins.bool(b), "b"),
    "logical_or": (2, lambda a, b: builtins.bool(a) or builtins.bool(b), "b"),
    "logical_xor": (2, lambda a, b: builtins.bool(a) != builtins.bool(b), "b"),
    "conjugate": (1, lambda x: x, None),
    "log10": (1, _np1("log10"), "f"),
    "log2": (1, _np1("log2"), "f"),
    "log1p": (1, lambda x: core.log(1 + x), "f"),
    "exp2": (1, _np1("exp2"), "f"),
    "sin": (1, _np1("sin"), "f"),
    "cos": (1, _np1("cos"), "f"),
    "tanh": (1, _np1("tanh"), "f"),
}


def _unmem(x):
    if hasattr(x, "__memview__"):
        return x.__memview__()
    if isinstance(x, SymRange):
        return np.array(x.concrete())
    if isinstance(x, (list, tuple)):
        return wrap_new(x)
    return x


def _opkind(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, np.ndarray):
        return kind_of(x.dtype)
    if isinstance(x, Sym):
        return "i" if x.is_int else "f"
    if isinstance(x, (SymBool, builtins.bool, np.bool_)):
        return "b"
    if isinstance(x, numbers.Integral):
        return "i"
    return "f"


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    if method == "__call__":
        if name not in _UF:
            if name == "clip":
                o = kw.pop("out", None)
                o = o[0] if isinstance(o, tuple) else o
                _ignorable("clip", kw)
                r = _clip(*inputs[:3])
                return _into(o if o is not None else inputs[3] if len(inputs) > 3 else None, r)
            if name in ("bitwise_and", "bitwise_or", "invert"):
                name = {"bitwise_and": "logical_and", "bitwise_or": "logical_or",
                        "invert": "logical_not"}[name]
            elif name == "matmul":
                o = kw.pop("out", None)
                _ignorable("matmul", kw)
                return _into(o[0] if isinstance(o, tuple) else o, _dot(*inputs[:2]))
            elif name == "divmod":
                return (ufunc_dispatch(np.floor_divide, method, inputs, {}),
                        ufunc_dispatch(np.remainder, method, inputs, {}))
            else:
                raise Unsupported("ufunc " + name)
        arity, f, rk = _UF[name]
        out = kw.pop("out", None)
        where = kw.pop("where", True)
        dt = kw.pop("dtype", None)
        _ignorable(name, kw)
        if len(inputs) > arity:
            out, inputs = inputs[arity], inputs[:arity]
        inputs = [_unmem(x) for x in inputs]
        ins = [base(x) for x in inputs]
        if rk is None:
            ks = [_opkind(x) for x in inputs]
            rk = "f" if "f" in ks else "i"
        if dt is not None and rk != "b":
            if kind_of(dt) not in "fi" or (rk == "f" and kind_of(dt) == "i"):
                raise Unsupported("%s with dtype=%s" % (name, dt))
            rk = kind_of(dt)
        if all(not isinstance(x, np.ndarray) for x in ins):
            r = f(*ins)
            if rk == "f":
                r = cast_scalar(r, "f")
        else:
            r = _elementwise(f, ins, rk)
        if where is not True:
            w = np.asarray(where, dtype=bool)
            o = out[0] if isinstance(out, tuple) else out
            if o is None:
                raise Unsupported("where= without out=")
            o[w] = np.broadcast_to(base(r), w.shape)[w] if isinstance(r, np.ndarray) else r
            return o
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if hasattr(o, "__memview__"):
                o = o.__memview__()
            if isinstance(o, np.ndarray):
                ok = o.kind if isinstance(o, SymArray) else kind_of(o.dtype)
                if rk == "f" and ok == "i":
                    raise TypeError(
                        "Cannot cast ufunc '%s' output from dtype('float64') to "
                        "dtype('int64') with casting rule 'same_kind'" % name)
                if isinstance(o, SymArray):
                    o[...] = r
                else:
                    a = base(r) if isinstance(r, np.ndarray) else r
                    try:
                        o[...] = a
                    except (TypeError, Unsupported):
                        raise Unsupported("symbolic value into a native %s array" % o.dtype)
            return o
        return r
    if method == "reduce":
        a = _unmem(inputs[0])
        if len(inputs) > 1:
            kw["axis"] = inputs[1]
        kw.setdefault("axis", 0)
        return _ureduce(a, ufunc, **kw)
    if method == "accumulate":
        if len(inputs) > 1:
            kw["axis"] = inputs[1]
        kw.setdefault("axis", 0)
        return _uaccumulate(_unmem(inputs[0]), ufunc, **kw)
    if method == "outer":
        a, b = [wrap_new(x) for x in inputs]
        a2 = base(a).reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, "__call__", (wrap(a2), b), {})
    if method == "at":
        a, idx = inputs[0], inputs[1]
        if len(inputs) == 2:
            a[idx] = ufunc_dispatch(ufunc, "__call__", (a[idx],), {})
            return None
        idx = np.atleast_1d(np.asarray(_index(idx)))
        vals = np.broadcast_to(base(wrap_new(inputs[2])), idx.shape + np.shape(a)[1:])
        for i, j in enumerate(idx.flat):
            a[int(j)] = ufunc_dispatch(ufunc, "__call__", (a[int(j)], vals[i]), {})
        return None
    raise Unsupported("ufunc method " + method)


def _elementwise(f, ins, rk):
    b = np.broadcast(*[x if isinstance(x, np.ndarray) else np.empty((), object) for x in ins])
    shape = b.shape
    cols = []
    for x in ins:
        if isinstance(x, np.ndarray):
            cols.append(list(np.broadcast_to(x, shape).flat))
        else:
            cols.append([x] * b.size)
    out = [f(*t) for t in zip(*cols)]
    if rk == "b":
        return np.array(out, dtype=bool).reshape(shape).view(IntArray)
    o = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        o[i] = cast_scalar(v, rk)
    o = o.reshape(shape)
    if o.shape == ():
        return o[()]
    return wrap(o, rk)


def _reduce(ufunc, a, axis, keepdims=False, initial=None):
    name = ufunc.__name__
    b = base(a)
    if name in ("logical_and", "logical_or"):
        m = np.array([builtins.bool(x) for x in b.flat], dtype=bool).reshape(b.shape)
        return ufunc.reduce(m, axis=axis, keepdims=keepdims)
    f = _UF[name][1]
    ident = {"add": 0, "multiply": 1}.get(name)
    if axis is None:
        axes = tuple(range(b.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % b.ndim for x in axis)
    else:
        axes = (axis % b.ndim,) if b.ndim else ()
    rest = tuple(i for i in range(b.ndim) if i not in axes)
    t = b.transpose(rest + axes)
    rshape = tuple(b.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= b.shape[i]
    t = t.reshape(rshape + (n,))
    kind = a.kind if isinstance(a, SymArray) else "f"

    def red(v):
        v = list(v)
        if initial is not None and initial is not np._NoValue:
            v = [initial] + v
        if not v:
            if ident is None:
                raise ValueError("zero-size array to reduction operation")
            return cast_scalar(ident, kind)
        acc = v[0]
        for x in v[1:]:
            acc = f(acc, x)
        return acc

    if rshape == ():
        r = red(t.reshape(-1))
        if keepdims:
            o = np.empty((1,) * b.ndim, dtype=object)
            o[(0,) * b.ndim] = r
            return wrap(o, kind)
        return r
    o = np.empty(rshape, dtype=object)
    for idx in np.ndindex(*rshape):
        o[idx] = red(t[idx])
    if keepdims:
        o = o.reshape(tuple(1 if i in axes else b.shape[i] for i in range(b.ndim)))
    return wrap(o, kind)


def _accumulate(ufunc, a, axis):
    f = _UF[ufunc.__name__][1]
    b = base(a)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    o = np.empty(b.shape, dtype=object)
    bm, om = np.moveaxis(b, axis, 0), np.moveaxis(o, axis, 0)
    for i in range(bm.shape[0]):
        if i == 0:
            om[0] = bm[0]
        elif bm.ndim == 1:
            om[i] = f(om[i - 1], bm[i])
        else:
            for j in np.ndindex(*bm.shape[1:]):
                om[(i,) + j] = f(om[(i - 1,) + j], bm[(i,) + j])
    return wrap(o, a.kind if isinstance(a, SymArray) else None)


@honouring
def _ureduce(a, ufunc, axis=0, keepdims=False, initial=None, **k):
    return _reduce(ufunc, a, axis, keepdims, initial)


@honouring
def _uaccumulate(a, ufunc, axis=0, **k):
    return _accumulate(ufunc, a, axis)


def _argext(a, axis, which):
    b = base(a)
    if axis is None:
        b = b.reshape(-1)
        best = 0
        if b.size == 0:
            raise ValueError("attempt to get arg%s of an empty sequence" % which)
        for i in range(1, b.size):
            op = "<" if which == "min" else ">"
            if bool(core.scalar_cmp(op, b[i], b[best])):
                best = i
        return best
    bm = np.moveaxis(b, axis, -1)
    o = np.empty(bm.shape[:-1], dtype=np.int64)
    for idx in np.ndindex(*bm.shape[:-1]):
        o[idx] = _argext(wrap_new(list(bm[idx])), None, which)
    return o


def _clip(a, lo=None, hi=None, *r):
    if lo is not None:
        a = ufunc_dispatch(np.maximum, "__call__", (a, lo), {})
    if hi is not None:
        a = ufunc_dispatch(np.minimum, "__call__", (a, hi), {})
    return a


def _dot(a, b):
    a, b = _unmem(a), _unmem(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return a * b
    x, y = base(a).astype(object), base(b).astype(object)
    r = np.dot(x, y)
    if isinstance(r, np.ndarray):
        return wrap(r)
    return r


# ------------------------------------------------------------------ np module


def _shape(s):
    if isinstance(s, Sym):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() if isinstance(x, Sym) else int(x) for x in s)
    return int(s)


def filled(shape, value, kind):
    shape = _shape(shape)
    if kind == "b":
        return np.full(shape, builtins.bool(value), dtype=bool).view(IntArray)
    if kind == "o":
        return np.full(shape, value, dtype=object)
    o = np.empty(shape, dtype=object)
    v = cast_scalar(value, kind)
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = v
    s = o.view(SymArray)
    s.kind = kind
    return s


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __getattr__(cls, n):
        return getattr(np.ndarray, n)


class ndarray(metaclass=_NdarrayMeta):
    """np.ndarray(shape, dtype): uninitialised memory, modelled as nan."""

    def __new__(cls, shape, dtype=symfloat, **k):
        return NP.empty(shape, dtype=dtype)


class FakeRandom(object):
    """np.random: draws are arbitrary numbers as far from their mean as never
    happens (but for a chance below 1e-9), the same ones for the same seed,
    place in the sequence and mean."""

    def __init__(self, seed=None):
        self.state, self.n = seed, 0

    def seed(self, seed=None):
        self.state, self.n = seed, 0

    def RandomState(self, seed=None):
        return FakeRandom(seed)

    default_rng = RandomState

    def poisson(self, lam=1.0, size=None):
        lam = _unmem(lam)
        if size is not None:
            lam = NP.broadcast_to(NP._a(lam), _shape(size) if isinstance(size, (tuple, list)) else (_shape(size),))
        if isinstance(lam, np.ndarray):
            o = np.empty(lam.shape, dtype=object)
            for i in np.ndindex(*lam.shape):
                o[i] = self._one(base(lam)[i])
            return wrap(o, "i")
        return self._one(lam)

    def _one(self, lam):
        if bool(core.scalar_cmp("<", lam, 0)):
            raise ValueError("lam < 0 or lam is NaN")
        e = core.engine()
        memo = e.meta.setdefault("draws", {})
        key = (str(self.state), self.n, lam.e.get_id() if isinstance(lam, Sym) else builtins.float(lam))
        self.n += 1
        if self.state is None or key not in memo:
            v = Sym(e.aux("draw", "int"))
            e.add(core.scalar_cmp(">=", v, 0))
            e.add(core.scalar_cmp(">=", v, 0.9 * lam - 200))
            e.add(core.scalar_cmp("<=", v, 1.1 * lam + 200))
            memo[key] = (v, lam)
            seq = e.meta.setdefault("drawn", {}).setdefault(key[0], [])
            seq.append(v)
            if len(seq) == 8:
                # eight draws in a row of large numbers are not all the same
                big = [core.scalar_cmp("<", w, 1000) for w in seq]
                off = [core.scalar_cmp("!=", w, seq[0]) for w in seq[1:]]
                e.add(core.SymBool(core.z3.Or(*[core.bool_z3(c) for c in big + off])))
        return memo[key][0]


class FakeNumpy(object):
    """numpy as seen by the code under analysis."""

    ndarray = ndarray
    inf = np.inf
    nan = np.nan
    random = FakeRandom()

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def call(*a, **k):
                a = [_unmem(x) for x in a]
                if any(isinstance(x, (SymArray, Sym, SymBool)) for x in a) or any(
                        isinstance(x, (SymArray,)) for x in k.values()):
                    return ufunc_dispatch(v, "__call__", a, k)
                return wrap(v(*a, **k))

            call.reduce = lambda a, axis=0, **k: (
                _ureduce(_unmem(a), v, axis=axis, **k)
                if isinstance(_unmem(a), SymArray) else _rewrap(v.reduce(a, axis=axis, **k)))
            call.accumulate = lambda a, axis=0, **k: (
                _uaccumulate(_unmem(a), v, axis=axis, **k)
                if isinstance(_unmem(a), SymArray) else _rewrap(v.accumulate(a, axis=axis, **k)))
            call.at = lambda a, i, *b: ufunc_dispatch(v, "at", (a, i) + b, {}) \
                if isinstance(a, SymArray) else v.at(a, i, *b)
            call.outer = lambda a, b: ufunc_dispatch(v, "outer", (a, b), {})
            call.__name__ = name
            return call
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            a = [_unmem(x) if hasattr(x, "__memview__") or isinstance(x, SymRange) else x for x in a]
            if "dtype" in k:
                kd = kind_of(k["dtype"])
                k["dtype"] = object if (kd == "f" and any(isinstance(x, SymArray) for x in a)) \
                    else real_dtype(k["dtype"])
            r = v(*a, **k)
            if isinstance(r, np.ndarray):
                return wrap(base(r)) if not isinstance(r, SymArray) else r
            if isinstance(r, (list, tuple)) and r and all(isinstance(x, np.ndarray) for x in r):
                return type(r)(x if isinstance(x, SymArray) else wrap(x) for x in r)
            return r

        f.__name__ = name
        return f

    # creation ------------------------------------------------------------------
    def zeros(self, shape, dtype=symfloat, order="C"):
        return filled(shape, 0, kind_of(dtype))

    def ones(self, shape, dtype=symfloat, order="C"):
        return filled(shape, 1, kind_of(dtype))

    def full(self, shape, fill_value, dtype=None, order="C"):
        k = kind_of(dtype) if dtype is not None else _opkind(fill_value)
        return filled(shape, fill_value, k)

    def empty(self, shape, dtype=symfloat, order="C"):
        k = kind_of(dtype)
        return filled(shape, {"f": np.nan, "i": -987654321, "b": True}.get(k), k)

    def _like(self, a, v, dtype, shape=None):
        if hasattr(a, "__memview__"):
            a = a.__memview__()
        a = a if isinstance(a, np.ndarray) else wrap_new(a)
        k = kind_of(dtype) if dtype is not None else (
            a.kind if isinstance(a, SymArray) else kind_of(a.dtype))
        return filled(a.shape if shape is None else shape, v, k)

    def zeros_like(self, a, dtype=None, order=None, subok=True, shape=None):
        return self._like(a, 0, dtype, shape)

    def ones_like(self, a, dtype=None, order=None, subok=True, shape=None):
        return self._like(a, 1, dtype, shape)

    def empty_like(self, a, dtype=None, order=None, subok=True, shape=None):
        return self._like(a, np.nan, dtype, shape)

    def full_like(self, a, v, dtype=None, order=None, subok=True, shape=None):
        return self._like(a, v, dtype, shape)

    def identity(self, n, dtype=symfloat):
        a = filled((_shape(n), _shape(n)), 0, kind_of(dtype))
        for i in range(_shape(n)):
            a[i, i] = 1
        return a

    def eye(self, n, m=None, k=0, dtype=symfloat, **kw):
        n = _shape(n)
        m = n if m is None else _shape(m)
        a = filled((n, m), 0, kind_of(dtype))
        for i in range(n):
            if 0 <= i + k < m:
                a[i, i + k] = 1
        return a

    def array(self, v, dtype=None, copy=True, ndmin=0, **k):
        if copy is False or copy is None:
            a = self.asarray(v, dtype)
        else:
            a = wrap_new(v)
        if dtype is not None:
            a = self._cast(a, dtype)
        while a.ndim < ndmin:
            a = a[None]
        return a

    def _cast(self, a, dtype):
        kd = kind_of(dtype)
        if isinstance(a, SymArray):
            if a.kind == kd:
                return a
            return a.astype(dtype)
        if kd == "f":
            return wrap(a.astype(np.float64))
        if kd == "i" and any(isinstance(x, (Sym, SymBool)) for x in a.flat):
            return wrap(coerce_array(a, "i"), "i")
        return a.astype(real_dtype(dtype))

    def asarray(self, v, dtype=None, order=None, **k):
        if hasattr(v, "__memview__"):
            v = v.__memview__()
        if isinstance(v, np.ndarray):
            if dtype is None or (isinstance(v, SymArray) and v.kind == kind_of(dtype)):
                return v if isinstance(v, SymArray) else wrap(v)
            return self._cast(v, dtype)
        return self.array(v, dtype)

    asanyarray = asarray

    def ascontiguousarray(self, v, dtype=None, **k):
        a = self.asarray(v, dtype)
        if isinstance(a, SymArray):
            return a if a.flags["C_CONTIGUOUS"] else a.copy()
        return np.ascontiguousarray(a)

    asfortranarray = asarray
    require = asarray

    def copy(self, a, **k):
        return wrap_new(a)

    def arange(self, *a, dtype=None, **k):
        if any(isinstance(x, Sym) and not x.is_int for x in a):
            raise Unsupported("arange of symbolic floats")
        a = [x.__index__() if isinstance(x, Sym) else x for x in a]
        r = np.arange(*a, dtype=real_dtype(dtype), **k)
        return wrap(r)

    def linspace(self, a, b, num=50, endpoint=True, dtype=None, **k):
        num = _shape(num)
        d = (num - 1) if endpoint else num
        vals = [a + (b - a) * i / d if d else a for i in range(num)]
        return self.array(vals, dtype=dtype or symfloat)

    def concatenate(self, seq, axis=0, **k):
        seq = [_unmem(x) for x in seq]
        seq = [x if isinstance(x, np.ndarray) else wrap_new(x) for x in seq]
        if any(isinstance(x, SymArray) for x in seq):
            kind = "f" if any(_opkind(x) == "f" for x in seq) else "i"
            return wrap(np.concatenate([np.asarray(coerce_array(x, kind), dtype=object)
                                        for x in seq], axis=axis), kind)
        return wrap(np.concatenate(seq, axis=axis))

    def vstack(self, seq, **k):
        return self.concatenate([self.atleast_2d(x) for x in seq], axis=0)

    row_stack = vstack

    def hstack(self, seq, **k):
        seq = [wrap_new(x) if not isinstance(x, np.ndarray) else x for x in seq]
        return self.concatenate(seq, axis=0 if seq[0].ndim == 1 else 1)

    def stack(self, seq, axis=0, **k):
        seq = [wrap_new(x) for x in seq]
        return self.concatenate([self.expand_dims(x, axis) for x in seq], axis=axis)

    def append(self, a, v, axis=None):
        a, v = wrap_new(a), wrap_new(v)
        if axis is None:
            return self.concatenate((a.reshape(-1), v.reshape(-1)))
        return self.concatenate((a, v), axis=axis)

    def atleast_1d(self, a):
        a = a if isinstance(a, np.ndarray) else wrap_new(a)
        return a.reshape(1) if a.ndim == 0 else a

    def atleast_2d(self, a):
        a = self.atleast_1d(a)
        return a[None, :] if a.ndim == 1 else a

    def expand_dims(self, a, axis):
        r = np.expand_dims(base(a), axis)
        return wrap(r, getattr(a, "kind", None)) if isinstance(a, SymArray) else r

    # reductions -----------------------------------------------------------------
    def _a(self, a):
        a = _unmem(a)
        return a if isinstance(a, np.ndarray) else wrap_new(a)

    def sum(self, a, axis=None, **k):
        if not isinstance(a, (np.ndarray, list, tuple)) and not hasattr(a, "__memview__"):
            a = list(a) if hasattr(a, "__iter__") else a
        a = self._a(a)
        if isinstance(a, SymArray):
            return _reduce(np.add, a, axis)
        return np.sum(a, axis=axis)

    def nansum(self, a, axis=None, **k):
        return self.sum(self.nan_to_num(self._a(a), posinf=np.inf, neginf=-np.inf), axis=axis)

    def prod(self, a, axis=None, **k):
        a = self._a(a)
        return _reduce(np.multiply, a, axis) if isinstance(a, SymArray) else np.prod(a, axis=axis)

    def mean(self, a, axis=None, **k):
        a = self._a(a)
        return a.mean(axis=axis)

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis=axis)
        a, w = self._a(a), self._a(weights)
        if a.shape != w.shape:
            raise Unsupported("average with weights of another shape")
        return self.sum(a * w, axis=axis) / self.sum(w, axis=axis)

    def var(self, a, axis=None, ddof=0, **k):
        return self._a(a).var(axis=axis, ddof=ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return self._a(a).std(axis=axis, ddof=ddof)

    def ptp(self, a, axis=None, **k):
        return self.max(a, axis=axis) - self.min(a, axis=axis)

    def cumsum(self, a, axis=None, **k):
        a = self._a(a)
        if isinstance(a, SymArray):
            return _accumulate(np.add, a, axis)
        return wrap(np.cumsum(a, axis=axis))

    def cumprod(self, a, axis=None, **k):
        a = self._a(a)
        if isinstance(a, SymArray):
            return _accumulate(np.multiply, a, axis)
        return wrap(np.cumprod(a, axis=axis))

    def diff(self, a, n=1, axis=-1, prepend=None, append=None):
        a = self._a(a)
        ends = []
        for e in (prepend, append):
            if e is not None:
                e = self._a(e)
                if e.ndim == 0:
                    sh = list(a.shape)
                    sh[axis] = 1
                    e = self.broadcast_to(e, tuple(sh))
            ends.append(e)
        if ends[0] is not None or ends[1] is not None:
            a = self.concatenate([x for x in (ends[0], a, ends[1]) if x is not None], axis=axis)
        for _ in range(n):
            s1 = [slice(None)] * a.ndim
            s2 = [slice(None)] * a.ndim
            s1[axis], s2[axis] = slice(1, None), slice(None, -1)
            a = a[tuple(s1)] - a[tuple(s2)]
        return a

    def min(self, a, axis=None, **k):
        a = self._a(a)
        return a.min(axis=axis)

    amin = min

    def nanmin(self, a, axis=None, **k):
        return self._nanext(a, axis, "min")

    def nanmax(self, a, axis=None, **k):
        return self._nanext(a, axis, "max")

    def _nanext(self, a, axis, which):
        a = self._a(a)
        if any(_f_isnan(x) for x in base(a).flat):
            raise Unsupported("nan%s of nan" % which)
        return getattr(a, which)(axis=axis)

    def max(self, a, axis=None, **k):
        a = self._a(a)
        return a.max(axis=axis)

    amax = max

    def argmin(self, a, axis=None, **k):
        return self._a(a).argmin(axis=axis)

    def argmax(self, a, axis=None, **k):
        return self._a(a).argmax(axis=axis)

    def any(self, a, axis=None, **k):
        if not isinstance(a, np.ndarray) and not hasattr(a, "__memview__") and hasattr(a, "__iter__"):
            a = list(a)
        return self._a(a).any(axis=axis)

    def all(self, a, axis=None, **k):
        if not isinstance(a, np.ndarray) and not hasattr(a, "__memview__") and hasattr(a, "__iter__"):
            a = list(a)
        return self._a(a).all(axis=axis)

    def clip(self, a, a_min=None, a_max=None, min=None, max=None, **k):
        a_min = a_min if min is None else min
        a_max = a_max if max is None else max
        if isinstance(a, (list, tuple)) or hasattr(a, "__memview__"):
            a = self._a(a)
        return _clip(a, a_min, a_max)

    def round(self, a, decimals=0, **k):
        if decimals:
            if core.is_sym(decimals):
                decimals = int(decimals)
            if not isinstance(a, (SymArray, Sym, list, tuple)):
                return wrap(np.round(a, decimals))
            p = 10.0 ** abs(decimals)
            if isinstance(a, (list, tuple)):
                a = wrap_new(a)
            if decimals > 0:
                return ufunc_dispatch(np.rint, "__call__", (a * p,), {}) / p
            return ufunc_dispatch(np.rint, "__call__", (a / p,), {}) * p
        if isinstance(a, (list, tuple)):
            a = wrap_new(a)
        if isinstance(a, (SymArray, Sym)):
            return ufunc_dispatch(np.rint, "__call__", (a,), {})
        return wrap(np.round(a))

    around = round_ = round

    def nonzero(self, a):
        return self._a(a).nonzero()

    def flatnonzero(self, a):
        return self._a(a).reshape(-1).nonzero()[0]

    def argwhere(self, a):
        return np.transpose(self.nonzero(a))

    def count_nonzero(self, a, axis=None, **k):
        a = self._a(a)
        if isinstance(a, SymArray):
            a = a != 0
        return np.count_nonzero(a, axis=axis)

    def where(self, c, *xy):
        c = self._a(c)
        if isinstance(c, SymArray):
            c = c != 0
        elif c.dtype != bool:
            c = c.astype(bool)
        if not xy:
            return np.nonzero(c)
        x, y = [_unmem(v) for v in xy]
        ks = "f" if "f" in (_opkind(x), _opkind(y)) else "i"
        r = _elementwise(lambda cc, a, b: a if cc else b, [c, base(x), base(y)], ks)
        return r

    def dot(self, a, b):
        return _dot(a, b)

    def inner(self, a, b):
        a, b = self._a(a), self._a(b)
        return _dot(a, b.T if b.ndim > 1 else b)

    def matmul(self, a, b):
        return _dot(a, b)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not isinstance(a, (Sym, np.ndarray)):
            a = wrap_new(a) if isinstance(a, (list, tuple)) else _unmem(a)
        if not isinstance(b, (Sym, np.ndarray)):
            b = wrap_new(b) if isinstance(b, (list, tuple)) else _unmem(b)
        if any(_f_isnan(x) or _f_isinf(x) for v in (a, b)
               for x in (base(v).flat if isinstance(v, np.ndarray) else [v])):
            def one(x, y):
                if _f_isnan(x) or _f_isnan(y):
                    return equal_nan and _f_isnan(x) and _f_isnan(y)
                if _f_isinf(x) or _f_isinf(y):
                    return builtins.bool(x == y)
                return builtins.bool(core.scalar_cmp("<=", abs(x - y), atol + rtol * abs(y)))
            return _elementwise(one, [base(v) if isinstance(v, np.ndarray) else v for v in (a, b)], "b") \
                if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else one(a, b)
        d = abs(a - b) if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) else \
            ufunc_dispatch(np.absolute, "__call__", (a - b,), {})
        if isinstance(b, np.ndarray):
            m = ufunc_dispatch(np.absolute, "__call__", (b,), {})
        else:
            m = abs(b)
        r = d <= atol + rtol * m
        return r

    def allclose(self, a, b, **k):
        return bool(np.all(self.isclose(self._a(a), self._a(b), **k)))

    def array_equal(self, a, b, equal_nan=False):
        a, b = self._a(a), self._a(b)
        if equal_nan and any(_f_isnan(x) for x in base(a).flat):
            raise Unsupported("array_equal with equal_nan")
        return a.shape == b.shape and bool(np.all(a == b))

    def in1d(self, a, b, invert=False, **k):
        a, b = self._a(a), self._a(b)
        return np.array([(x in b) != invert for x in a.reshape(-1)], dtype=bool)

    def isin(self, a, b, invert=False, **k):
        a = self._a(a)
        return self.in1d(a, b, invert=invert).reshape(a.shape)

    def searchsorted(self, a, v, side="left", **k):
        a = self._a(a)
        if isinstance(v, (np.ndarray, list)):
            return np.array([self.searchsorted(a, x, side) for x in v])
        op = ">=" if side == "left" else ">"
        for i in range(a.shape[0]):
            if bool(core.scalar_cmp(op, a[i], v)):
                return i
        return a.shape[0]

    def isscalar(self, x):
        return isinstance(x, Sym) or np.isscalar(x)

    def shape(self, a):
        return a.shape if hasattr(a, "shape") else self._a(a).shape

    def size(self, a, axis=None):
        return a.size if axis is None else a.shape[axis]

    def ndim(self, a):
        return a.ndim if hasattr(a, "ndim") else self._a(a).ndim

    def outer(self, a, b):
        return ufunc_dispatch(np.multiply, "outer", (a, b), {})

    def nan_to_num(self, a, copy=True, nan=0.0, posinf=None, neginf=None):
        big = np.finfo(np.float64).max
        posinf = big if posinf is None else posinf
        neginf = -big if neginf is None else neginf

        def one(x):
            return nan if _f_isnan(x) else (posinf if x > 0 else neginf) if _f_isinf(x) else x
        a = _unmem(a)
        if not isinstance(a, np.ndarray):
            return one(a)
        r = a.copy() if copy else a
        if _opkind(a) == "f":
            for i in np.ndindex(*a.shape):
                r[i] = one(base(a)[i])
        return r

    float64 = double = float_ = symfloat
    int64 = intp = int_ = int32 = symint
    bool_ = symbool

    def vectorize(self, f, otypes=None):
        return lambda *a: _elementwise(f, [base(_unmem(x)) for x in a], "f")

    def apply_along_axis(self, f, axis, a, *r, **k):
        m = np.moveaxis(base(self._a(a)), axis, -1)
        return self.array([f(wrap_new(list(m[i])), *r, **k) for i in np.ndindex(*m.shape[:-1])])

    def fromiter(self, it, dtype=symfloat, count=-1):
        it = list(it)
        return self.array(it[:count] if count >= 0 else it, dtype=dtype)

    def fromfunction(self, f, shape, dtype=symfloat, **k):
        idx = [wrap(x.astype(real_dtype(dtype))) for x in np.indices(shape)]
        return self.array(f(*idx, **k), dtype=None)

    def einsum(self, spec, *ops, **k):
        ops = [base(self._a(o)).astype(object) for o in ops]
        r = np.einsum(spec, *ops)
        return wrap(r) if isinstance(r, np.ndarray) else r

    def roll(self, a, shift, axis=None):
        a = self._a(a)
        if isinstance(shift, Sym):
            shift = shift.__index__()
        r = np.roll(base(a), shift, axis=axis)
        return wrap(r, a.kind) if isinstance(a, SymArray) else r


def _rewrap(r):
    if type(r) is np.ndarray and r.dtype.kind in "fiub":
        return wrap(r)
    if isinstance(r, (list, tuple)) and r and any(type(x) is np.ndarray for x in r):
        if type(r) in (list, tuple):
            return type(r)(_rewrap(x) for x in r)
    return r


def _rewrapping(f):
    if f.__name__ not in ("arange", "apply_along_axis", "allclose", "fromfunction"):
        f = honouring(f)

    def g(*a, **k):
        return _rewrap(f(*a, **k))

    g.__name__ = f.__name__
    return g


for _n, _f in list(vars(FakeNumpy).items()):
    if isinstance(_f, type(_rewrap)) and not _n.startswith("_"):
        setattr(FakeNumpy, _n, _rewrapping(_f))

NP = FakeNumpy()
