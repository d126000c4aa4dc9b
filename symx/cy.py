"""Cython source to Python AST, by way of Cython's own parser.

The translation keeps what matters for the semantics: C-typed variables coerce
what is assigned to them, memoryviews alias the array they were taken from and
are not bounds checked where the directives say so (an out-of-range index is a
memory error, raised as MemoryViolation), malloc'ed buffers have a size.
"""
import ast
import builtins

import numpy as np

from . import core
from .core import Sym, SymBool, Unsupported


class MemoryViolation(Exception):
    """An access outside the object it addresses (undefined behaviour in C)."""


# ----------------------------------------------------------------- C types

FLOATS = {"float64_t", "float32_t", "double", "float", "float_t", "double_t", "longdouble"}
INTS = {
    "int64_t", "int32_t", "int16_t", "int8_t", "int", "long", "short", "char", "Py_ssize_t",
    "ssize_t", "size_t", "int_t", "intp_t", "long_t", "npy_intp",
}
UINTS = {"uint8_t", "uint16_t", "uint32_t", "uint64_t", "uint_t", "unsigned"}
SIZES = {
    "float64_t": 8, "double": 8, "float32_t": 4, "float": 4, "int64_t": 8, "int32_t": 4,
    "int": 4, "long": 8, "short": 2, "char": 1, "uint8_t": 1, "Py_ssize_t": 8, "size_t": 8,
    "int16_t": 2, "int8_t": 1, "bint": 4, "intp_t": 8, "npy_intp": 8, "uint64_t": 8,
    "uint32_t": 4, "uint16_t": 2, "float_t": 8, "double_t": 8, "int_t": 8,
}


class CType(object):
    def __init__(self, kind, name="", nd=0, contig=False, elem=None, n=None):
        self.kind = kind  # 'f' 'i' 'b' 'o' 'v' 'mv' 'ptr' 'arr'
        self.name = name
        self.nd = nd
        self.contig = contig
        self.elem = elem
        self.n = n


class Flags(object):
    def __init__(self, boundscheck=True, wraparound=True):
        self.boundscheck = boundscheck
        self.wraparound = wraparound


class CPtr(object):
    """A typed pointer into a buffer of known size."""

    def __init__(self, buf, off, elem):
        self.buf, self.off, self.elem = buf, off, elem

    def _at(self, k):
        if isinstance(k, Sym):
            k = k.__index__()
        k = self.off + int(k)
        if self.buf.freed:
            raise MemoryViolation("use of freed memory")
        if k < 0 or k >= self.buf.count(self.elem):
            raise MemoryViolation("index %d outside an allocation of %d elements"
                                  % (k, self.buf.count(self.elem)))
        return k

    def __getitem__(self, k):
        k = self._at(k)
        v = self.buf.get(k)
        if v is _UNSET:
            raise MemoryViolation("read of uninitialised memory")
        return v

    def __setitem__(self, k, v):
        self.buf.put(self._at(k), scalar(self.elem, v))

    def __add__(self, k):
        return CPtr(self.buf, self.off + int(k), self.elem)

    __radd__ = __add__

    def __sub__(self, k):
        if isinstance(k, CPtr):
            return self.off - k.off
        return CPtr(self.buf, self.off - int(k), self.elem)

    def __bool__(self):
        return True

    def __eq__(self, o):
        return isinstance(o, CPtr) and o.buf is self.buf and o.off == self.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self.buf)


_UNSET = object()


class CBuf(object):
    def __init__(self, nbytes, zero=False):
        if isinstance(nbytes, Sym):
            nbytes = nbytes.__index__()
        self.nbytes = int(nbytes)
        self.freed = False
        self.zero = zero
        self.cells = {}

    def count(self, elem):
        return self.nbytes // SIZES.get(elem.name, 8)

    def get(self, k):
        return self.cells.get(k, 0 if self.zero else _UNSET)

    def put(self, k, v):
        self.cells[k] = v


class ArrBuf(object):
    """Elements of a contiguous array seen through a pointer."""

    freed = False

    def __init__(self, a):
        self.a = a.reshape(-1)
        if not np.shares_memory(np.asarray(self.a), np.asarray(a)):
            raise Unsupported("pointer into a non-contiguous array")

    def count(self, elem):
        return self.a.shape[0]

    def get(self, k):
        return self.a[k]

    def put(self, k, v):
        self.a[k] = v


class MemView(object):
    """A typed memoryview: aliases .a"""

    __slots__ = ("a", "t", "fl", "sh")

    def __init__(self, a, t, fl):
        self.a, self.t, self.fl = a, t, fl
        self.sh = a.shape

    def __memview__(self):
        return self.a

    @property
    def shape(self):
        return self.sh

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def nbytes(self):
        return self.a.size * 8

    @property
    def base(self):
        return self.a

    @property
    def T(self):
        return MemView(self.a.T, self.t, self.fl)

    @property
    def strides(self):
        return self.a.strides

    def copy(self):
        return MemView(self.a.copy(), self.t, self.fl)

    def __len__(self):
        return self.a.shape[0]

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def _idx(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if Ellipsis in [x for x in k if x is Ellipsis]:
            p = [i for i, x in enumerate(k) if x is Ellipsis][0]
            k = k[:p] + (slice(None),) * (self.a.ndim - len(k) + 1) + k[p + 1:]
        out = []
        for d, x in enumerate(k):
            if isinstance(x, slice):
                f = lambda v: v.__index__() if isinstance(v, Sym) else v
                out.append(slice(f(x.start), f(x.stop), f(x.step)))
                continue
            if isinstance(x, Sym):
                x = x.__index__()
            x = int(x)
            n = self.a.shape[d]
            if x < 0 and self.fl.wraparound:
                x += n
            if x < 0 or x >= n:
                if self.fl.boundscheck:
                    raise IndexError("Out of bounds on buffer access (axis %d)" % d)
                raise MemoryViolation("index %d outside axis %d of length %d" % (x, d, n))
            out.append(x)
        return tuple(out)

    def __getitem__(self, k):
        k = self._idx(k)
        r = self.a[k]
        if isinstance(r, np.ndarray) and r.ndim:
            return MemView(r, self.t, self.fl)
        if isinstance(r, np.ndarray):
            r = r[()]
        return core.topy(r)

    def __setitem__(self, k, v):
        k = self._idx(k)
        if len(k) < self.a.ndim or any(isinstance(x, slice) for x in k):
            self.a[k] = v.a if isinstance(v, MemView) else v
        else:
            self.a[k] = core.unpy(scalar(self.t.elem, v))


def scalar(t, v):
    if t.kind == "f":
        if isinstance(v, (Sym, SymBool)):
            return core.topy(core.tofloat(v))
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.reshape(-1)[0]
            return scalar(t, v)
        if v is None:
            raise TypeError("must be real number, not NoneType")
        return builtins.float(v)
    if t.kind in ("i", "u"):
        if isinstance(v, SymBool):
            return v._as_int()
        if isinstance(v, Sym):
            return v if v.is_int else core.trunc(v)
        if isinstance(v, builtins.float) or isinstance(v, np.floating):
            # a C double converts by truncation; a Python float would raise
            return int(v)
        return int(v.__index__() if hasattr(v, "__index__") else v)
    if t.kind == "b":
        return bool(v)
    return v


_BUFK = {"f": "f", "i": "i", "u": "iu"}


def coerce(t, v, fl):
    if t.kind in "fib" or t.kind == "u":
        return scalar(t, v)
    if t.kind == "mv":
        if v is None:
            return None
        if isinstance(v, MemView):
            a = v.a
        elif isinstance(v, np.ndarray):
            a = v
        elif hasattr(v, "__memview__"):
            a = v.__memview__()
        else:
            raise TypeError("a bytes-like object is required, not %r" % type(v).__name__)
        if a.ndim != t.nd:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)"
                             % (t.nd, a.ndim))
        k = getattr(a, "kind", None) or a.dtype.kind
        if k == "O":
            k = "o"
        want = t.elem.kind
        ok = (want == k) or (want == "u" and k in "ub" and a.dtype.itemsize == 1) \
            or (want == "u" and k == "i" and isinstance(v, MemView)) or want == "o"
        if want == "f" and t.elem.name in ("float32_t", "float"):
            ok = False
        if want == "i" and k == "i" and a.dtype != object:
            ok = a.dtype.itemsize == SIZES.get(t.elem.name, 8)
        if not ok:
            raise ValueError("Buffer dtype mismatch, expected '%s' but got kind %r"
                             % (t.elem.name, k))
        if t.contig and not a.flags["C_CONTIGUOUS"]:
            raise ValueError("ndarray is not C-contiguous")
        if not a.flags["WRITEABLE"]:
            raise ValueError("buffer source array is read-only")
        return MemView(a, t, fl)
    if t.kind == "ptr":
        if v is None or isinstance(v, CPtr):
            return v
        if isinstance(v, (CBuf, ArrBuf)):
            return CPtr(v, 0, t.elem)
        raise Unsupported("pointer from %r" % type(v))
    return v


def getitem(o, k, fl):
    """o[k] for a C integer k: no checks on lists and tuples if switched off."""
    if type(o) in (list, tuple):
        if isinstance(k, Sym):
            k = k.__index__()
        n = len(o)
        if k < 0 and fl.wraparound:
            return o[k]
        if (k < 0 or k >= n) and not fl.boundscheck:
            raise MemoryViolation("index %d outside a %s of length %d" % (k, type(o).__name__, n))
        if k < 0:
            raise IndexError("list index out of range")
    return o[k]


def c_array(t, n):
    return CPtr(CBuf(n * SIZES.get(t.name, 8)), 0, t)


def malloc(n):
    return CBuf(n)


def calloc(n, m):
    return CBuf(n * m, zero=True)


def free(p):
    b = p.buf if isinstance(p, CPtr) else p
    if b is None:
        return
    if b.freed:
        raise MemoryViolation("double free")
    b.freed = True


def realloc(p, n):
    b = p.buf if isinstance(p, CPtr) else p
    nb = CBuf(n)
    nb.cells = {k: v for k, v in b.cells.items()}
    b.freed = True
    return nb


def memset(p, v, n):
    es = SIZES.get(p.elem.name, 8)
    for k in range(int(n) // es):
        p[k] = 0 if v == 0 else v


def memcpy(p, q, n):
    es = SIZES.get(p.elem.name, 8)
    tmp = [q[k] for k in range(int(n) // es)]
    for k, x in enumerate(tmp):
        p[k] = x


memmove = memcpy


def sizeof(name):
    return SIZES.get(name, 8)


def address(a, k):
    """&mv[i, j]"""
    if isinstance(a, MemView):
        k = a._idx(k)
        return CPtr(ArrBuf(a.a), int(np.ravel_multi_index(k, a.a.shape)), a.t.elem)
    if isinstance(a, CPtr):
        return a + k
    raise Unsupported("address of %r" % type(a))


def make_libc_math(mathshim):
    return mathshim


# ------------------------------------------------------------ translation


def _N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def _C(v):
    return ast.Constant(value=v)


def _call(f, *args):
    return ast.Call(func=_N(f), args=list(args), keywords=[])


class Translator(object):
    def __init__(self, src, name):
        from Cython.Compiler import Options  # noqa: F401
        from Cython.Compiler.TreeFragment import parse_from_strings

        self.types = []  # CType table
        self.flags = []
        self.funcs = []
        self.tree = parse_from_strings(name, src)
        self.modfl = self._module_flags(src)
        self.scope = [({}, self._flag(*self.modfl))]

    def _module_flags(self, src):
        b, w = True, True
        for line in src.splitlines():
            s = line.strip()
            if s.startswith("#") and "cython:" in s:
                for part in s.split("cython:", 1)[1].split(","):
                    if "=" in part:
                        k, v = [x.strip() for x in part.split("=", 1)]
                        if k == "boundscheck":
                            b = v == "True"
                        if k == "wraparound":
                            w = v == "True"
            elif s and not s.startswith("#"):
                break
        return b, w

    def _flag(self, b, w):
        self.flags.append(Flags(b, w))
        return len(self.flags) - 1

    # types ----------------------------------------------------------------
    def tid(self, t):
        self.types.append(t)
        return _C(len(self.types) - 1)

    def simple_type(self, n):
        k = type(n).__name__
        if k == "CSimpleBaseTypeNode":
            nm = n.name
            if nm is None:
                return CType("o")
            if nm in FLOATS:
                return CType("f", nm)
            if nm in UINTS:
                return CType("u" if nm == "uint8_t" else "i", nm)
            if nm in INTS:
                return CType("i", nm)
            if nm == "bint":
                return CType("b", nm)
            if nm == "void":
                return CType("v", nm)
            return CType("o", nm)
        if k == "MemoryViewSliceTypeNode":
            el = self.simple_type(n.base_type_node)
            contig = False
            for ax in n.axes:
                st = getattr(ax, "step", None)
                if st is not None and type(st).__name__ == "IntNode":
                    contig = True
            return CType("mv", "mv", nd=len(n.axes), contig=contig, elem=el)
        if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.simple_type(n.base_type)
        if k == "CComplexBaseTypeNode":
            return self.declare(self.simple_type(n.base_type), n.declarator)[1]
        return CType("o", k)

    def declare(self, base, d):
        """(name, type, default, arrays) of a declarator."""
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name, base, getattr(d, "default", None)
        if k == "CPtrDeclaratorNode":
            nm, t, df = self.declare(CType("ptr", "ptr", elem=base), d.base)
            return nm, t, df if df is not None else getattr(d, "default", None)
        if k == "CArrayDeclaratorNode":
            nm, t, df = self.declare(CType("arr", "arr", elem=base, n=d.dimension), d.base)
            return nm, t, df
        if k == "CConstDeclaratorNode":
            return self.declare(base, d.base)
        raise Unsupported("Cython declarator " + k)

    # module ------------------------------------------------------------------
    def module(self):
        body = self.stmts(self.tree.body)
        m = ast.Module(body=body, type_ignores=[])
        ast.fix_missing_locations(m)
        for x in ast.walk(m):
            for f, v in list(ast.iter_fields(x)):
                if isinstance(v, str) and type(v) is not str:
                    setattr(x, f, "".join(v))
                elif isinstance(v, list) and v and isinstance(v[0], str):
                    setattr(x, f, ["".join(s) for s in v])
        return m

    def stmts(self, n):
        out = []
        if n is None:
            return out
        if isinstance(n, (list, tuple)):
            for x in n:
                out += self.stmts(x)
            return out
        k = type(n).__name__
        if k == "StatListNode":
            for x in n.stats:
                out += self.stmts(x)
            return out
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("Cython statement " + k)
        r = m(n)
        r = r if isinstance(r, list) else [r]
        for x in r:
            for y in ast.walk(x):
                if not hasattr(y, "lineno"):
                    y.lineno = n.pos[1]
                    y.col_offset = 0
                    y.end_lineno = n.pos[1]
                    y.end_col_offset = 0
        return r

    def block(self, n):
        return self.stmts(n) or [ast.Pass()]

    # coercion of typed names
    def _types(self):
        return self.scope[-1][0]

    def typed(self, name):
        t = self._types().get(name)
        return t if t is not None and t.kind not in ("o", "v", "arr") else None

    def co(self, t, e):
        return _call("__cy_coerce", self.tid(t), e, _C(self.scope[-1][1]))

    def assign(self, lhs, val):
        """statements for lhs = val (val an ast expression)"""
        k = type(lhs).__name__
        if k == "NameNode":
            t = self.typed(lhs.name)
            if t is not None:
                val = self.co(t, val)
            return [ast.Assign(targets=[_N(lhs.name, ast.Store())], value=val)]
        tgt = self.target(lhs)
        return [ast.Assign(targets=[tgt], value=val)] + self.post(lhs)

    def post(self, lhs):
        """coercions after an unpacking assignment"""
        k = type(lhs).__name__
        if k == "NameNode":
            t = self.typed(lhs.name)
            if t is not None:
                return [ast.Assign(targets=[_N(lhs.name, ast.Store())],
                                   value=self.co(t, _N(lhs.name)))]
            return []
        if k in ("TupleNode", "ListNode"):
            out = []
            for a in lhs.args:
                out += self.post(a)
            return out
        return []

    def target(self, n):
        k = type(n).__name__
        if k in ("TupleNode", "ListNode"):
            return ast.Tuple(elts=[self.target(a) for a in n.args], ctx=ast.Store())
        if k == "StarredUnpackingNode":
            return ast.Starred(value=self.target(n.target), ctx=ast.Store())
        e = self.e_IndexNode(n, load=False) if k == "IndexNode" else self.e(n)
        e.ctx = ast.Store()
        return e

    # statements ----------------------------------------------------------------
    def s_CImportStatNode(self, n):
        if n.module_name in ("numpy", "cython"):
            return []
        top = n.module_name.split(".")[0]
        if top in ("libc", "cython", "cpython"):
            return []
        return [ast.Import(names=[ast.alias(name=n.module_name, asname=n.as_name)])]

    def s_FromCImportStatNode(self, n):
        out = []
        for item in n.imported_names:
            name, as_name = item[1], item[2]
            out.append(ast.Assign(
                targets=[_N(as_name or name, ast.Store())],
                value=_call("__cy_cimport", _C(n.module_name), _C(name))))
        return out

    def s_FromImportStatNode(self, n):
        mod = n.module
        names = [ast.alias(name=nm, asname=(t.name if t.name != nm else None)) for nm, t in n.items]
        return ast.ImportFrom(module=mod.module_name.value, names=names,
                              level=max(0, mod.level if mod.level is not None else 0))

    def s_SingleAssignmentNode(self, n):
        rhs = n.rhs
        if type(rhs).__name__ == "ImportNode":
            nm = rhs.module_name.value
            if nm == "cython" or nm.startswith("cython."):
                return ast.Assign(targets=[_N(n.lhs.name, ast.Store())],
                                  value=_N("__cy_module"))
            asn = n.lhs.name
            if "." in nm and asn == nm.split(".")[0] and not getattr(rhs, "is_import_as_name", False):
                return ast.Import(names=[ast.alias(name=nm, asname=None)])
            return ast.Import(names=[ast.alias(name=nm, asname=asn)])
        return self.assign(n.lhs, self.e(rhs))

    def s_CascadedAssignmentNode(self, n):
        tmp = "__cy_tmp%d" % n.pos[1]
        out = [ast.Assign(targets=[_N(tmp, ast.Store())], value=self.e(n.rhs))]
        for l in n.lhs_list:
            out += self.assign(l, _N(tmp))
        return out

    def s_ParallelAssignmentNode(self, n):
        out, names = [], []
        for i, s in enumerate(n.stats):
            tmp = "__cy_par%d_%d_%d" % (n.pos[1], n.pos[2], i)
            out.append(ast.Assign(targets=[_N(tmp, ast.Store())], value=self.e(s.rhs)))
            names.append((s.lhs, tmp))
        for l, t in names:
            out += self.assign(l, _N(t))
        return out

    def s_InPlaceAssignmentNode(self, n):
        op = _BIN[n.operator.rstrip("=")]()
        lhs = n.lhs
        if type(lhs).__name__ == "NameNode":
            t = self.typed(lhs.name)
            if t is not None and t.kind != "mv":
                return ast.Assign(
                    targets=[_N(lhs.name, ast.Store())],
                    value=self.co(t, ast.BinOp(left=_N(lhs.name), op=op, right=self.e(n.rhs))))
        return ast.AugAssign(target=self.target(lhs), op=op, value=self.e(n.rhs))

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_NonlocalNode(self, n):
        return ast.Nonlocal(names=list(n.names))

    def s_DelStatNode(self, n):
        ts = []
        for a in n.args:
            e = self.e_IndexNode(a, load=False) if type(a).__name__ == "IndexNode" else self.e(a)
            e.ctx = ast.Del()
            ts.append(e)
        return ast.Delete(targets=ts)

    def s_AssertStatNode(self, n):
        exc = n.exception
        msg = None
        v = getattr(n, "value", None)
        if v is not None:
            msg = self.e(v)
        return ast.Assert(test=self.e(n.condition), msg=msg)

    def s_RaiseStatNode(self, n):
        e = self.e(n.exc_type) if n.exc_type is not None else None
        if n.exc_value is not None:
            e = ast.Call(func=e, args=[self.e(n.exc_value)], keywords=[])
        return ast.Raise(exc=e, cause=self.e(n.cause) if getattr(n, "cause", None) else None)

    s_ReraiseStatNode = lambda self, n: ast.Raise(exc=None, cause=None)

    def s_ReturnStatNode(self, n):
        v = self.e(n.value) if n.value is not None else None
        rt = self.scope[-1][0].get("return ")
        if v is not None and rt is not None and rt.kind not in "ov":
            v = self.co(rt, v)
        return ast.Return(value=v)

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [ast.If(test=self.e(c.condition), body=self.block(c.body), orelse=orelse)]
        return orelse

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition) if n.condition is not None else _C(True),
                         body=self.block(n.body),
                         orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_ForInStatNode(self, n):
        return ast.For(target=self.target(n.target), iter=self.e(n.iterator.sequence),
                       body=self.post(n.target) + self.block(n.body),
                       orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_ForFromStatNode(self, n):
        lo, hi = self.e(n.bound1), self.e(n.bound2)
        step = self.e(n.step) if n.step is not None else _C(1)
        one = _C(1)
        if n.relation1 == "<":
            lo = ast.BinOp(left=lo, op=ast.Add(), right=one)
        if n.relation1 == ">":
            lo = ast.BinOp(left=lo, op=ast.Sub(), right=one)
        if n.relation2 == "<=":
            hi = ast.BinOp(left=hi, op=ast.Add(), right=one)
        if n.relation2 == ">=":
            hi = ast.BinOp(left=hi, op=ast.Sub(), right=one)
        if n.relation1 in (">", ">="):
            step = ast.UnaryOp(op=ast.USub(), operand=step)
        return ast.For(target=self.target(n.target), iter=_call("range", lo, hi, step),
                       body=self.block(n.body),
                       orelse=self.stmts(n.else_clause) if n.else_clause is not None else [])

    def s_GILStatNode(self, n):
        return self.block(n.body)

    def s_WithStatNode(self, n):
        m = n.manager
        d = self._directive(m)
        body = n.body
        if type(body).__name__ == "TryFinallyStatNode":
            body = body.body
        if d is not None:
            b, w = d(self.flags[self.scope[-1][1]])
            self.scope.append((self.scope[-1][0], self._flag(b, w)))
            try:
                return self.block(body)
            finally:
                self.scope.pop()
        tgt = getattr(n, "target", None)
        return ast.With(items=[ast.withitem(context_expr=self.e(m),
                                            optional_vars=self.target(tgt) if tgt is not None else None)],
                        body=self.block(body))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            if pat is None:
                t = None
            else:
                ps = [self.e(p) for p in pat]
                t = ps[0] if len(ps) == 1 else ast.Tuple(elts=ps, ctx=ast.Load())
            nm = c.target.name if c.target is not None else None
            hs.append(ast.ExceptHandler(type=t, name=nm, body=self.block(c.body)))
        return ast.Try(body=self.block(n.body), handlers=hs,
                       orelse=self.stmts(n.else_clause) if n.else_clause is not None else [],
                       finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.block(n.body), handlers=[], orelse=[],
                       finalbody=self.block(n.finally_clause))

    def s_CVarDefNode(self, n):
        base = self.simple_type(n.base_type)
        out = []
        for d in n.declarators:
            nm, t, df = self.declare(base, d)
            self._types()[nm] = t
            if t.kind == "arr":
                out.append(ast.Assign(targets=[_N(nm, ast.Store())],
                                      value=_call("__cy_carray", self.tid(t.elem), self.e(t.n))))
            elif df is not None:
                v = self.e(df)
                if t.kind not in "ov":
                    v = self.co(t, v)
                out.append(ast.Assign(targets=[_N(nm, ast.Store())], value=v))
        return out

    s_CTypeDefNode = s_CEnumDefNode = lambda self, n: []

    def _directive(self, e):
        """Flags transformer of cython.boundscheck(False) and the like."""
        if type(e).__name__ not in ("SimpleCallNode", "GeneralCallNode"):
            return None
        f = e.function
        nm = f.attribute if type(f).__name__ == "AttributeNode" else getattr(f, "name", None)
        args = getattr(e, "args", None) or []
        if nm in ("boundscheck", "wraparound") and args:
            v = bool(args[0].value)
            if nm == "boundscheck":
                return lambda fl: (v, fl.wraparound)
            return lambda fl: (fl.boundscheck, v)
        if nm in ("nonecheck", "cdivision", "initializedcheck", "profile", "linetrace",
                  "binding", "returns", "locals", "overflowcheck", "embedsignature", "nogil",
                  "exceptval", "inline", "infer_types"):
            return lambda fl: (fl.boundscheck, fl.wraparound)
        return None

    def _decorators(self, decs):
        fl = self.flags[self.scope[-1][1]]
        b, w = fl.boundscheck, fl.wraparound
        keep = []
        for d in decs or []:
            t = self._directive(d.decorator)
            if t is not None:
                b, w = t(Flags(b, w))
            else:
                s = d.decorator
                if type(s).__name__ == "AttributeNode" and getattr(s.obj, "name", "") == "cython":
                    continue
                keep.append(self.e(s))
        return self._flag(b, w), keep

    def _function(self, n, name, args, body, decs, rtype, star=None, starstar=None):
        fl, keep = self._decorators(decs)
        types = {}
        pre = []
        a_names, defaults, kwonly, kwdef = [], [], [], []
        for a in args:
            base = self.simple_type(a.base_type)
            nm, t, df = self.declare(base, a.declarator)
            if nm == "" or nm is None:
                # untyped argument: the name was parsed as a type
                nm, t = a.base_type.name, CType("o")
            df = a.default if a.default is not None else df
            types[nm] = t
            dv = self.e(df) if df is not None else None
            if getattr(a, "kw_only", 0):
                kwonly.append(ast.arg(arg=nm))
                kwdef.append(dv)
            else:
                a_names.append(ast.arg(arg=nm))
                if dv is not None:
                    defaults.append(dv)
        if rtype is not None:
            types["return "] = rtype
        self.scope.append((types, fl))
        for nm, t in list(types.items()):
            if nm != "return " and t.kind not in ("o", "v"):
                pre.append(ast.Assign(targets=[_N(nm, ast.Store())], value=self.co(t, _N(nm))))
        # C declarations apply to the whole function
        self._collect(body, types)
        b = pre + self.block(body)
        self.scope.pop()
        dflt = None
        if rtype is not None and rtype.kind in "fiu":
            b = b + [ast.Return(value=_C(0))]
        self.funcs.append(name)
        return ast.FunctionDef(
            name=name, args=ast.arguments(
                posonlyargs=[], args=a_names, vararg=ast.arg(arg=star.name) if star else None,
                kwonlyargs=kwonly, kw_defaults=kwdef,
                kwarg=ast.arg(arg=starstar.name) if starstar else None, defaults=defaults),
            body=b, decorator_list=keep, returns=None, type_comment=None, type_params=[])

    def _collect(self, n, types):
        if isinstance(n, (list, tuple)):
            for x in n:
                self._collect(x, types)
            return
        if n is None or not hasattr(n, "child_attrs"):
            return
        k = type(n).__name__
        if k == "CVarDefNode":
            base = self.simple_type(n.base_type)
            for d in n.declarators:
                nm, t, df = self.declare(base, d)
                types[nm] = t
            return
        if k in ("DefNode", "CFuncDefNode", "LambdaNode"):
            return
        for a in n.child_attrs or []:
            self._collect(getattr(n, a, None), types)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        base = self.simple_type(n.base_type)
        while type(d).__name__ == "CPtrDeclaratorNode":
            base = CType("ptr", "ptr", elem=base)
            d = d.base
        return self._function(n, d.base.name, d.args, n.body, n.decorators, base)

    def s_DefNode(self, n):
        return self._function(n, n.name, n.args, n.body, n.decorators, None,
                              n.star_arg, n.starstar_arg)

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        self.scope.append(({}, self.scope[-1][1]))
        b = self.block(n.body)
        self.scope.pop()
        return ast.ClassDef(name=n.name, bases=bases, keywords=[], body=b, decorator_list=[],
                            type_params=[])

    def s_CDefExternNode(self, n):
        raise Unsupported("cdef extern")

    # expressions --------------------------------------------------------------
    def e(self, n):
        if n is None:
            return _C(None)
        k = type(n).__name__
        if k in _BINNODES and hasattr(n, "operand1"):
            return ast.BinOp(left=self.e(n.operand1), op=_BIN[n.operator](), right=self.e(n.operand2))
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("Cython expression " + k)
        return m(n)

    def e_NameNode(self, n):
        return _N(n.name)

    def e_IntNode(self, n):
        v = n.value
        return _C(int(str(v), 0) if not str(v).lstrip("-").startswith("0") or str(v) in ("0",)
                  else int(str(v), 0))

    def e_FloatNode(self, n):
        return _C(float(n.value))

    def e_BoolNode(self, n):
        return _C(bool(n.value))

    def e_NoneNode(self, n):
        return _C(None)

    def e_NullNode(self, n):
        return _C(None)

    def e_EllipsisNode(self, n):
        return _C(Ellipsis)

    def e_UnicodeNode(self, n):
        return _C(str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return _C(bytes(n.value))

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=ast.Load())

    def _is_cint(self, n):
        k = type(n).__name__
        if k == "NameNode":
            t = self._types().get(n.name)
            return t is not None and t.kind in ("i", "u")
        if k == "IntNode":
            return True
        if k in ("AddNode", "SubNode", "MulNode"):
            return self._is_cint(n.operand1) and self._is_cint(n.operand2)
        return False

    def e_IndexNode(self, n, load=True):
        b = n.base
        untyped = not (type(b).__name__ == "NameNode" and b.name in self._types()
                       and self._types()[b.name].kind not in ("o",))
        if load and untyped and self._is_cint(n.index):
            return _call("__cy_getitem", self.e(b), self.e(n.index), _C(self.scope[-1][1]))
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        s = ast.Slice(lower=self.e(n.start) if n.start is not None else None,
                      upper=self.e(n.stop) if n.stop is not None else None, step=None)
        return ast.Subscript(value=self.e(n.base), slice=s, ctx=ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def e_SetNode(self, n):
        return ast.Set(elts=[self.e(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                        values=[self.e(i.value) for i in n.key_value_pairs])

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(value=self.e(n.target), ctx=ast.Load())

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n):
        pa = n.positional_args
        if type(pa).__name__ == "TupleNode":
            args = [self.e(a) for a in pa.args]
        else:
            args = [ast.Starred(value=self.e(pa), ctx=ast.Load())]
        kws = []
        ka = n.keyword_args
        if ka is not None:
            if type(ka).__name__ == "DictNode":
                for i in ka.key_value_pairs:
                    kws.append(ast.keyword(arg=str(i.key.value), value=self.e(i.value)))
            elif type(ka).__name__ == "MergedDictNode":
                for d in ka.keyword_args:
                    if type(d).__name__ == "DictNode":
                        for i in d.key_value_pairs:
                            kws.append(ast.keyword(arg=str(i.key.value), value=self.e(i.value)))
                    else:
                        kws.append(ast.keyword(arg=None, value=self.e(d)))
            else:
                kws.append(ast.keyword(arg=None, value=self.e(ka)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def e_AsTupleNode(self, n):
        return _call("tuple", self.e(n.arg))

    def e_MergedSequenceNode(self, n):
        elts = []
        for a in n.args:
            if type(a).__name__ in ("TupleNode", "ListNode"):
                elts += [self.e(x) for x in a.args]
            else:
                elts.append(ast.Starred(value=self.e(a), ctx=ast.Load()))
        return ast.Tuple(elts=elts, ctx=ast.Load())

    def e_PrimaryCmpNode(self, n):
        ops, comps = [], []
        left = self.e(n.operand1)
        c = n
        right = n.operand2
        while True:
            ops.append(_CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
            if c is None:
                break
        return ast.Compare(left=left, ops=ops, comparators=comps)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == "and" else ast.Or(),
                          values=[self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand))

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.e(n.condition if hasattr(n, "condition") else n.test),
                         body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_TypecastNode(self, n):
        base = self.simple_type(n.base_type)
        nm, t, df = self.declare(base, n.declarator)
        if t.kind in "ov":
            return self.e(n.operand)
        return self.co(t, self.e(n.operand))

    def e_SizeofVarNode(self, n):
        o = n.operand
        nm = getattr(o, "attribute", None) or getattr(o, "name", "")
        t = self._types().get(nm)
        if t is not None:
            nm = t.name
        return _call("__cy_sizeof", _C(nm))

    def e_SizeofTypeNode(self, n):
        return _call("__cy_sizeof", _C(n.base_type.name))

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == "IndexNode":
            return _call("__cy_address", self.e(o.base), self.e(o.index))
        raise Unsupported("address-of " + type(o).__name__)

    def e_ComprehensionNode(self, n):
        return self._comp(n.loop, n.type.name if getattr(n, "type", None) is not None else "list", n)

    def e_GeneratorExpressionNode(self, n):
        return self._comp(n.loop, "gen", n)

    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def _comp(self, loop, kind, n):
        gens = []
        node = loop
        elt = None
        while True:
            k = type(node).__name__
            if k == "StatListNode" and len(node.stats) == 1:
                node = node.stats[0]
            elif k == "ForInStatNode":
                gens.append(ast.comprehension(target=self.target(node.target),
                                              iter=self.e(node.iterator.sequence), ifs=[], is_async=0))
                node = node.body
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.e(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif k == "ComprehensionAppendNode":
                elt = self.e(node.expr)
                break
            elif k == "DictComprehensionAppendNode":
                return ast.DictComp(key=self.e(node.key_expr), value=self.e(node.value_expr),
                                    generators=gens)
            elif k == "ExprStatNode" and type(node.expr).__name__ == "YieldExprNode":
                elt = self.e(node.expr.arg)
                break
            else:
                raise Unsupported("Cython comprehension " + k)
        if kind == "gen":
            return ast.GeneratorExp(elt=elt, generators=gens)
        if "set" in kind:
            return ast.SetComp(elt=elt, generators=gens)
        return ast.ListComp(elt=elt, generators=gens)

    def e_LambdaNode(self, n):
        names, defaults = [], []
        for a in n.args:
            base = self.simple_type(a.base_type)
            nm, t, df = self.declare(base, a.declarator)
            nm = nm or a.base_type.name
            names.append(ast.arg(arg=nm))
            if a.default is not None:
                defaults.append(self.e(a.default))
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=names, vararg=None, kwonlyargs=[],
                                             kw_defaults=[], kwarg=None, defaults=defaults),
                          body=self.e(n.result_expr))

    def e_JoinedStrNode(self, n):
        vals = []
        for v in n.values:
            if type(v).__name__ == "FormattedValueNode":
                vals.append(_call("str", self.e(v.value)))
            else:
                vals.append(self.e(v))
        out = _C("")
        for v in vals:
            out = ast.BinOp(left=out, op=ast.Add(), right=v)
        return out

    def e_FormattedValueNode(self, n):
        return _call("str", self.e(n.value))

    def e_AssignmentExpressionNode(self, n):
        lhs = n.target_name if hasattr(n, "target_name") else n.assignment.lhs.name
        return ast.NamedExpr(target=_N(str(lhs), ast.Store()), value=self.e(n.rhs))


_BIN = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod,
    "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift,
    ">>": ast.RShift, "@": ast.MatMult,
}
_BINNODES = {
    "AddNode", "SubNode", "MulNode", "DivNode", "ModNode", "PowNode", "IntBinopNode", "MatMultNode",
    "NumBinopNode", "BitwiseOrNode",
}
_CMP = {
    "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq,
    "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn,
}


class _CyModule(object):
    """import cython, at run time: decorators and casts do nothing."""

    compiled = True

    def __getattr__(self, n):
        def f(*a, **k):
            if a and callable(a[0]) and len(a) == 1:
                return a[0]
            return lambda g: g

        return f


def namespace(tr, mathmod):
    """Names the translated module refers to."""
    types, flags = tr.types, tr.flags

    def cimport(mod, name):
        if mod in ("libc.stdlib", "libc.string", "cpython.mem"):
            return {"malloc": malloc, "calloc": calloc, "free": free, "realloc": realloc,
                    "memset": memset, "memcpy": memcpy, "memmove": memmove,
                    "PyMem_Malloc": malloc, "PyMem_Free": free, "abs": abs, "size_t": None}[name]
        if mod.startswith("libc.math") or mod == "math":
            m = {"fabs": "fabs", "fmin": "fmin", "fmax": "fmax"}.get(name, name)
            return getattr(mathmod, m)
        if mod == "cython.parallel":
            return {"prange": lambda *a, **k: builtins.range(*[int(x) for x in a])}.get(name)
        if mod == "numpy":
            from .arr import NP

            return getattr(NP, name, None)
        if mod.startswith("cython"):
            return None
        raise Unsupported("cimport %s.%s" % (mod, name))

    return {
        "__cy_coerce": lambda t, v, f: coerce(types[t], v, flags[f]),
        "__cy_carray": lambda t, n: c_array(types[t], n),
        "__cy_sizeof": sizeof,
        "__cy_getitem": lambda o, k, f: getitem(o, k, flags[f]),
        "__cy_address": address,
        "__cy_cimport": cimport,
        "__cy_module": _CyModule(),
    }
