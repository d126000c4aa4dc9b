"""Loads arcticpy's sources (Python and Cython) under the symbolic semantics.

Every file is read from the repository when the process starts: nothing about
the code is remembered between runs.
"""
import ast
import builtins
import math
import os
import sys
import types

import numpy as np

from . import arr, core, cy
from .arr import NP, symbool, symfloat, symint, symmax, symmin, symrange
from .core import Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "arcticpy"


class MathShim(object):
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, (Sym, SymBool)) for x in a):
                raise Unsupported("math.%s of a symbolic value" % n)
            return f(*a)

        return g

    def exp(self, x):
        return core.exp(x) if isinstance(x, Sym) else math.exp(x)

    def log(self, x, *b):
        if isinstance(x, Sym) and not b:
            return core.log(x)
        return math.log(x, *b)

    def sqrt(self, x):
        return core.sqrt(x) if isinstance(x, Sym) else math.sqrt(x)

    def floor(self, x):
        return core.floor(x) if isinstance(x, Sym) else math.floor(x)

    def ceil(self, x):
        return core.ceil(x) if isinstance(x, Sym) else math.ceil(x)

    def trunc(self, x):
        return core.trunc(x) if isinstance(x, Sym) else math.trunc(x)

    def fabs(self, x):
        return abs(x)

    def atan(self, x):
        return core.arctan(x) if isinstance(x, Sym) else math.atan(x)

    def pow(self, a, b):
        return a ** b

    def fmin(self, a, b):
        return symmin(a, b)

    def fmax(self, a, b):
        return symmax(a, b)

    def isnan(self, x):
        return arr._f_isnan(x)

    def isinf(self, x):
        return arr._f_isinf(x)

    def isfinite(self, x):
        return arr._f_isfinite(x)

    def fsum(self, xs):
        t = 0.0
        for x in xs:
            t = t + x
        return t

    def prod(self, xs):
        t = 1
        for x in xs:
            t = t * x
        return t

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        return bool(abs(a - b) <= symmax(rel_tol * symmax(abs(a), abs(b)), abs_tol))


MATH = MathShim()


class Integrate(object):
    """scipy.integrate: quadrature is whatever the harness says it is."""

    hook = None

    def quad(self, f, a, b, args=(), **k):
        if Integrate.hook is None:
            raise Unsupported("scipy.integrate.quad")
        if not isinstance(args, tuple):
            args = (args,)
        return Integrate.hook(f, a, b, args), 0.0

    def __getattr__(self, n):
        raise Unsupported("scipy.integrate." + n)


class Optimize(object):
    hook = None

    def __getattr__(self, n):
        if n in ("fsolve", "brentq", "root_scalar", "bisect", "newton") and Optimize.hook:
            return lambda *a, **k: Optimize.hook(n, *a, **k)
        raise Unsupported("scipy.optimize." + n)


class Scipy(object):
    integrate = Integrate()
    optimize = Optimize()

    def __getattr__(self, n):
        raise Unsupported("scipy." + n)


SCIPY = Scipy()


class Frame(arr.SymArray):
    """autoarray.structures.frames.Frame: an array with readout metadata."""

    FIELDS = ("mask", "original_roe_corner", "scans", "exposure_info")

    def __new__(cls, array, mask, original_roe_corner=(1, 0), scans=None, exposure_info=None):
        a = array if isinstance(array, arr.SymArray) else arr.wrap_new(array)
        if mask is not None:
            b = arr.base(a)
            for i in np.ndindex(*b.shape):
                if bool(mask[i]):
                    b[i] = np.float64(0.0)
        o = arr.base(a).view(cls)
        o.kind = "f"
        o.mask = mask
        o.original_roe_corner = original_roe_corner
        o.scans = scans
        o.exposure_info = exposure_info
        return o

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, "kind", "f")
            for f in Frame.FIELDS:
                if isinstance(obj, Frame):
                    setattr(self, f, getattr(obj, f, None))


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return StubModule(self.__name__ + "." + n)


def _autoarray(name):
    m = StubModule(name)
    m.__dict__["frames"] = fm = StubModule(name + ".frames")
    fm.__dict__["Frame"] = Frame
    m.__dict__["Frame"] = Frame
    st = StubModule("autoarray.structures")
    st.__dict__["frames"] = fm
    m.__dict__["structures"] = st
    return m


class Package(object):
    """One set of arcticpy modules; .fresh() gives a new copy of them."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = os.path.join(self.repo, PKG)
        self.code = {}
        self.cy = {}
        self.defined = {}
        for fn in sorted(os.listdir(self.dir)):
            stem, ext = os.path.splitext(fn)
            path = os.path.join(self.dir, fn)
            if ext == ".py":
                with open(path) as f:
                    src = f.read()
                mod = PKG if stem == "__init__" else PKG + "." + stem
                tree = ast.parse(src, path)
                self.code[mod] = (compile(tree, path, "exec"), path, None)
            elif ext == ".pyx":
                with open(path) as f:
                    src = f.read()
                mod = PKG + "." + stem
                tr = cy.Translator(src, mod)
                tree = tr.module()
                self.code[mod] = (compile(tree, path, "exec"), path, tr)
        self.modules = {}

    def fresh(self):
        self.modules = {}
        Integrate.hook = None
        Optimize.hook = None
        return self.load(PKG)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.code:
            raise ImportError("No module named %r" % name)
        code, path, tr = self.code[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = PKG
        if name == PKG:
            m.__path__ = [self.dir]
        self.modules[name] = m
        g = m.__dict__
        g["__builtins__"] = self.builtins()
        if tr is not None:
            g.update(cy.namespace(tr, MATH))
        exec(code, g)
        if name != PKG and PKG in self.modules:
            setattr(self.modules[PKG], name.split(".", 1)[1], m)
        return m

    def builtins(self):
        if not hasattr(self, "_b"):
            d = dict(builtins.__dict__)
            d.update(float=symfloat, int=symint, bool=symbool, range=symrange, min=symmin,
                     max=symmax, __import__=self._import, profile=lambda f: f)
            self._b = d
        return self._b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = PKG
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == PKG:
            self.load(PKG)
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and (name + "." + f) in self.code:
                        self.load(name + "." + f)
                return m
            return self.modules[PKG]
        if top == "numpy":
            if fromlist and name != "numpy":
                o = NP
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return o
            return NP
        if top == "math" or top == "cmath":
            return MATH
        if top == "scipy":
            o = SCIPY
            if fromlist:
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
            return o
        if top == "autoarray":
            m = _autoarray(name)
            return m if fromlist else _autoarray("autoarray")
        return builtins.__import__(name, globals, locals, fromlist, level)


class Coverage(object):
    """Names of the functions of the code under analysis that were executed."""

    TOOL = 4

    def __init__(self, pkg):
        self.dir = pkg.dir
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            pass
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        return self

    def _start(self, code, off):
        if code.co_filename.startswith(self.dir):
            if not code.co_name.startswith("<"):
                self.seen.add("%s:%s" % (os.path.basename(code.co_filename), code.co_qualname))
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.PY_START, None)
        mon.free_tool_id(self.TOOL)
