"""Symbolic backend for pystencils: interprets the kernel AST the real generators build.

`KernelFunction.compile` is replaced: instead of printing C and calling the compiler, the
final AST (loops with bounds, pointer arithmetic, loads, stores, casts, branches) is
turned into a Python function over symbolic memory.  The argument checks of the real
compiled module are emulated.
"""
import numpy as np
import sympy as sp
from sympy.core.numbers import NumberSymbol
from sympy.core.relational import Relational

import pystencils.astnodes as A
from pystencils.typing import CastFunc, BasicType, PointerType, TypedSymbol
from pystencils.typing.typed_sympy import FieldPointerSymbol, FieldShapeSymbol, FieldStrideSymbol
from pystencils.field import FieldType
from pystencils.kernel_wrapper import KernelWrapper

from . import symt, sarr
from .symt import T, Unsupported

try:
    from pystencils.functions import DivFunc
except Exception:  # pragma: no cover
    DivFunc = None

KERNELS = []       # every kernel compiled since the last reset
CALLS = []         # (kernel, bindings) log of calls when LOG_CALLS is set
LOG_CALLS = [False]
OOB = []


class OutOfBounds(Exception):
    pass


def _oob(what, name, a, n):
    OOB.append((what, name, a, n))
    return symt.var("oob!%d" % len(OOB)) if not sarr.LINEAR else float("nan")


def rd(m, a, name):
    if 0 <= a < len(m):
        return m[a]
    return _oob("read", name, a, len(m))


def wr(m, a, v, name):
    if 0 <= a < len(m):
        m[a] = v
    else:
        _oob("write", name, a, len(m))


def ITE(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    return symt.ite(symt.L(c), symt.L(a), symt.L(b))


def LT(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return symt.lt(symt.L(a), symt.L(b))
    return a < b


def LE(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return symt.le(symt.L(a), symt.L(b))
    return a <= b


def EQ(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return symt.eq(symt.L(a), symt.L(b))
    return a == b


def AND(*xs):
    r = True
    for x in xs:
        if isinstance(x, T) or isinstance(r, T):
            r = symt.andT(symt.L(r), symt.L(x))
        else:
            r = r and x
    return r


def OR(*xs):
    r = False
    for x in xs:
        if isinstance(x, T) or isinstance(r, T):
            r = symt.orT(symt.L(r), symt.L(x))
        else:
            r = r or x
    return r


def NOT(x):
    return symt.notT(x) if isinstance(x, T) else (not x)


def FN(name, *a):
    if not any(isinstance(x, T) for x in a):
        if all(isinstance(x, (int, float)) for x in a):
            return {"abs": abs, "min": min, "max": max}.get(name, getattr(np, name, None))(*a)
        raise Unsupported("function %s on %r" % (name, [type(x) for x in a]))
    if name == "abs":
        return symt.absT(symt.L(a[0]))
    if name == "min":
        r = symt.L(a[0])
        for x in a[1:]:
            r = symt.minT(r, symt.L(x))
        return r
    if name == "max":
        r = symt.L(a[0])
        for x in a[1:]:
            r = symt.maxT(r, symt.L(x))
        return r
    if name == "sqrt":
        return symt.sqrtT(symt.L(a[0]))
    if name == "floor":
        return symt.L(a[0]).floor()
    if name == "ceil":
        return symt.L(a[0]).ceil()
    if name == "sign":
        return symt.L(a[0]).sign()
    if name == "tan":
        return symt.L(a[0]).tan()
    return symt.uf(name, symt.L(a[0]))


def TRUNC(x):
    if isinstance(x, T):
        return symt.trunc(x)
    return int(x)


def TOREAL(x):
    if isinstance(x, T):
        return symt.toreal(symt._num(x))
    return x


def POW(x, n):
    if isinstance(x, T):
        return symt.powT(x, n)
    r = x
    if isinstance(n, int) and n > 0:
        for _ in range(n - 1):
            r = r * x
        return r
    if isinstance(x, (int, float)):
        return float(x) ** float(n)
    raise Unsupported("power")


class Gen:
    def __init__(self, ast):
        self.ast = ast
        self.lines = []
        self.consts = []
        self.names = {}
        self.ptr = {}
        self.writes = set()
        self.reads = set()

    def nm(self, s):
        s = str(s)
        if s not in self.names:
            t = "".join(c if c.isalnum() and c.isascii() else "_" for c in s)
            self.names[s] = "v%d_%s" % (len(self.names), t)
        return self.names[s]

    def k(self, v):
        self.consts.append(v)
        return "K[%d]" % (len(self.consts) - 1)

    def number(self, e, dt=None):
        if isinstance(e, sp.Integer):
            v = int(e)
            if dt is not None and not dt.is_int():
                return self.k(float(v) if sarr.LINEAR else symt.const(sp2frac(e), "R"))
            return repr(v) if v >= 0 else "(%d)" % v
        if isinstance(e, NumberSymbol) and e == sp.pi:
            return self.k(float(np.pi) if sarr.LINEAR else symt.PI)
        if isinstance(e, sp.Rational):
            return self.k(float(e) if sarr.LINEAR else symt.const(sp2frac(e), "R"))
        v = float(e)
        if dt is not None and dt.is_int():
            return repr(int(v))
        return self.k(v if sarr.LINEAR else symt.from_float(v, 53))

    def field_of(self, base):
        s = str(base)
        if s not in self.ptr:
            raise Unsupported("unknown pointer %s" % s)
        return self.ptr[s]

    def access(self, acc):
        base = acc.base.label if hasattr(acc, "base") else acc.args[0].label
        f = self.field_of(base)
        idx = [self.ex(i) for i in acc.indices]
        return f, "%s+%s" % (self.nm(base), "+".join(idx) if idx else "0")

    def ex(self, e):
        if isinstance(e, A.ResolvedFieldAccess) or isinstance(e, sp.Indexed):
            f, a = self.access(e)
            self.reads.add(f)
            return "rd(M_%s,%s,%r)" % (self.nm(f), a, f)
        if isinstance(e, CastFunc):
            arg, dt = e.args[0], e.dtype
            if isinstance(arg, (sp.Number, NumberSymbol)):
                return self.number(arg, dt)
            if isinstance(dt, PointerType):
                raise Unsupported("pointer cast")
            if dt.is_int():
                return "TRUNC(%s)" % self.ex(arg)
            if dt.is_float():
                return "TOREAL(%s)" % self.ex(arg)
            return self.ex(arg)
        if isinstance(e, (sp.Number, NumberSymbol)):
            return self.number(e)
        if isinstance(e, FieldPointerSymbol):
            self.ptr.setdefault(str(e), e.field_name)
            return self.nm(e)
        if isinstance(e, sp.Symbol):
            c = symt.captured(e.name)
            if c is not None:
                return self.k(c)
            return self.nm(e)
        if isinstance(e, sp.Add):
            return "(" + "+".join(self.ex(a) for a in e.args) + ")"
        if isinstance(e, sp.Mul):
            return "(" + "*".join(self.ex(a) for a in e.args) + ")"
        if isinstance(e, sp.Pow):
            b, x = e.args
            if isinstance(x, CastFunc):
                x = x.args[0]
            if x == sp.Rational(1, 2):
                return "FN('sqrt',%s)" % self.ex(b)
            if isinstance(x, sp.Float) and float(x) == 0.5:
                return "FN('sqrt',%s)" % self.ex(b)
            if isinstance(x, sp.Integer) or (isinstance(x, sp.Float) and float(x).is_integer()):
                return "POW(%s,%d)" % (self.ex(b), int(x))
            if isinstance(x, sp.Rational):
                return "POW(%s,%s)" % (self.ex(b), self.k(sp2frac(x)))
            raise Unsupported("power %s" % x)
        if isinstance(e, sp.Piecewise):
            args = list(e.args)
            if args[-1][1] not in (True, sp.true):
                raise Unsupported("piecewise without default")
            s = self.ex(args[-1][0])
            for v, c in reversed(args[:-1]):
                s = "ITE(%s,%s,%s)" % (self.cond(c), self.ex(v), s)
            return s
        if isinstance(e, (Relational, sp.And, sp.Or, sp.Not)) or e in (sp.true, sp.false):
            return self.cond(e)
        if DivFunc is not None and isinstance(e, DivFunc):
            return "(%s/%s)" % (self.ex(e.divisor), self.ex(e.dividend))
        if isinstance(e, sp.Abs):
            return "FN('abs',%s)" % self.ex(e.args[0])
        if isinstance(e, sp.Min):
            return "FN('min',%s)" % ",".join(self.ex(a) for a in e.args)
        if isinstance(e, sp.Max):
            return "FN('max',%s)" % ",".join(self.ex(a) for a in e.args)
        for cls, n in ((sp.sin, "sin"), (sp.cos, "cos"), (sp.tan, "tan"), (sp.exp, "exp"), (sp.log, "log"),
                       (sp.floor, "floor"), (sp.ceiling, "ceil"), (sp.sign, "sign")):
            if isinstance(e, cls):
                return "FN(%r,%s)" % (n, self.ex(e.args[0]))
        if isinstance(e, sp.Mod):
            return "(%s %% %s)" % (self.ex(e.args[0]), self.ex(e.args[1]))
        raise Unsupported("kernel expression %s" % type(e).__name__)

    def cond(self, c):
        if c in (True, sp.true):
            return "True"
        if c in (False, sp.false):
            return "False"
        if isinstance(c, sp.StrictGreaterThan):
            return "LT(%s,%s)" % (self.ex(c.args[1]), self.ex(c.args[0]))
        if isinstance(c, sp.GreaterThan):
            return "LE(%s,%s)" % (self.ex(c.args[1]), self.ex(c.args[0]))
        if isinstance(c, sp.StrictLessThan):
            return "LT(%s,%s)" % (self.ex(c.args[0]), self.ex(c.args[1]))
        if isinstance(c, sp.LessThan):
            return "LE(%s,%s)" % (self.ex(c.args[0]), self.ex(c.args[1]))
        if isinstance(c, sp.Eq):
            return "EQ(%s,%s)" % (self.ex(c.args[0]), self.ex(c.args[1]))
        if isinstance(c, sp.Ne):
            return "NOT(EQ(%s,%s))" % (self.ex(c.args[0]), self.ex(c.args[1]))
        if isinstance(c, sp.And):
            return "AND(%s)" % ",".join(self.cond(a) for a in c.args)
        if isinstance(c, sp.Or):
            return "OR(%s)" % ",".join(self.cond(a) for a in c.args)
        if isinstance(c, sp.Not):
            return "NOT(%s)" % self.cond(c.args[0])
        if isinstance(c, CastFunc):
            return self.cond(c.args[0])
        raise Unsupported("condition %s" % type(c).__name__)

    def stmt(self, n, ind):
        p = "  " * ind
        if isinstance(n, A.Block):
            if not n.args:
                self.lines.append(p + "pass")
            for x in n.args:
                self.stmt(x, ind)
        elif isinstance(n, A.LoopOverCoordinate):
            v = self.nm(n.loop_counter_symbol)
            self.lines.append(p + "for %s in range(%s,%s,%s):" % (
                v, self.ex(sp.sympify(n.start)), self.ex(sp.sympify(n.stop)), self.ex(sp.sympify(n.step))))
            k = len(self.lines)
            self.stmt(n.body, ind + 1)
            if len(self.lines) == k:
                self.lines.append("  " * (ind + 1) + "pass")
        elif isinstance(n, A.Conditional):
            self.lines.append(p + "if %s:" % self.cond(n.condition_expr))
            self.stmt(n.true_block, ind + 1)
            if n.false_block:
                self.lines.append(p + "else:")
                self.stmt(n.false_block, ind + 1)
        elif isinstance(n, A.SympyAssignment):
            lhs, rhs = n.lhs, n.rhs
            if isinstance(lhs, (A.ResolvedFieldAccess, sp.Indexed)):
                f, a = self.access(lhs)
                self.writes.add(f)
                self.lines.append(p + "wr(M_%s,%s,%s,%r)" % (self.nm(f), a, self.ex(rhs), f))
            elif isinstance(lhs, TypedSymbol) and isinstance(lhs.dtype, PointerType):
                r = self.ex(rhs)
                src = [s for s in rhs.atoms(sp.Symbol) if str(s) in self.ptr]
                if len(src) != 1:
                    raise Unsupported("pointer expression")
                self.ptr[str(lhs)] = self.ptr[str(src[0])]
                self.lines.append(p + "%s = %s" % (self.nm(lhs), r))
            elif isinstance(lhs, sp.Symbol):
                self.lines.append(p + "%s = %s" % (self.nm(lhs), self.ex(rhs)))
            else:
                raise Unsupported("assignment to %s" % type(lhs).__name__)
        elif isinstance(n, (A.SourceCodeComment, A.EmptyLine)):
            pass
        else:
            raise Unsupported("AST node %s" % type(n).__name__)

    def build(self):
        self.stmt(self.ast.body, 1)
        params = sorted(set(self.names.values()) - set())
        src = "def kern(B):\n"
        # bind every name that is an argument
        free = []
        for prm in self.ast.get_parameters():
            s = str(prm.symbol)
            if symt.captured(s) is not None:
                continue
            if s in self.names:
                free.append(s)
        head = []
        for s in free:
            head.append("  %s = B[%r]" % (self.names[s], s))
        for f in sorted(self.reads | self.writes):
            head.append("  M_%s = B[%r]" % (self.nm(f), "M:" + f))
        src += "\n".join(head + self.lines) + "\n"
        env = dict(rd=rd, wr=wr, ITE=ITE, LT=LT, LE=LE, EQ=EQ, AND=AND, OR=OR, NOT=NOT, FN=FN, TRUNC=TRUNC,
                   TOREAL=TOREAL, POW=POW, K=self.consts)
        exec(compile(src, "<kernel>", "exec"), env)
        self.src = src
        return env["kern"]


def sp2frac(r):
    from fractions import Fraction

    return Fraction(int(r.p), int(r.q))


class Mem:
    """Flat memory of the owner of a set of argument arrays."""

    def __init__(self, owner):
        self.owner = owner
        self.cplx = isinstance(owner, sarr.SArr) and owner._sd is not None and owner._sd.kind == "c"
        r = sarr.raw(owner)
        if r.flags.c_contiguous:
            self.flatview = r.reshape(-1)
        elif r.flags.f_contiguous:
            self.flatview = r.T.reshape(-1)
        else:
            raise Unsupported("non-contiguous owner")
        if r.dtype == object:
            vals = self.flatview.tolist()
            if self.cplx:
                out = []
                for x in vals:
                    x = sarr.C.of(x)
                    out.append(x.re)
                    out.append(x.im)
                vals = out
        else:
            if r.dtype.kind == "c":
                raise Unsupported("plain complex memory")
            vals = sarr.lift_array(self.flatview).tolist()
        self.cells = vals
        self.ptr0 = r.ctypes.data
        self.isize = r.itemsize

    def store(self):
        fv = self.flatview
        if self.cplx:
            o = np.empty(len(self.cells) // 2, dtype=object)
            o[:] = [sarr.C(self.cells[2 * i], self.cells[2 * i + 1]) for i in range(len(o))]
            fv[:] = o
        elif fv.dtype == object:
            o = np.empty(len(self.cells), dtype=object)
            o[:] = self.cells
            fv[:] = o
        else:
            for i, x in enumerate(self.cells):
                if isinstance(x, T):
                    if x.op != "c":
                        if symt.evalf(x, {}) is None:
                            raise Unsupported("symbolic store into a numeric array")
                        fv[i] = symt.evalf(x, {})
                    else:
                        fv[i] = float(x.args)
                else:
                    fv[i] = x


def owner_of(a):
    r = a
    while True:
        b = np.ndarray.base.__get__(r)
        if isinstance(b, np.ndarray):
            r = b
        else:
            break
    if isinstance(a, sarr.SArr):
        # logical dtype lives on the symbolic view; memory on the owner
        o = r.view(sarr.SArr) if not isinstance(r, sarr.SArr) else r
        if o._sd is None:
            o._sd = a._sd
        return o, id(r), r
    return r, id(r), r


class SymKernel:
    """What the compiled extension function is replaced by."""

    def __init__(self, ast):
        self.ast = ast
        self.gen = Gen(ast)
        self.fn = self.gen.build()
        self.params = [p for p in ast.get_parameters() if symt.captured(str(p.symbol)) is None]
        self.linear = sarr.LINEAR

    def bind(self, kwargs):
        """Check the arguments like the compiled module does and bind the parameters."""
        B = {}
        mems = {}
        arrays = {}
        var_sized = []
        for p in self.params:
            if p.is_field_pointer:
                field = p.fields[0]
                name = field.name
                if name not in kwargs:
                    raise TypeError("Keyword argument '%s' missing" % name)
                a = kwargs[name]
                if not isinstance(a, np.ndarray):
                    raise TypeError("expected an array for '%s'" % name)
                arrays[name] = a
                dt = a.dtype
                fdt = field.dtype.numpy_dtype
                if FieldType.is_generic(field) and dt.char != fdt.char and not (dt == fdt and dt.kind in "iu"):
                    raise ValueError("Wrong data type of array %s. Expected %s" % (name, fdt))
                if dt.itemsize != fdt.itemsize:
                    raise ValueError("Wrong itemsize of array %s" % name)
                st = [s // dt.itemsize for s in a.strides]
                if field.has_fixed_shape:
                    ss = [int(s) for s in field.spatial_shape]
                    if a.ndim < len(ss) or list(a.shape[: len(ss)]) != ss:
                        raise ValueError("Wrong shape of array %s. Expected %s" % (name, field.shape))
                    for i, es in enumerate(field.spatial_strides):
                        if st[i] != int(es) and a.shape[i] > 1:
                            raise ValueError("Wrong strides of array %s. Expected %s" % (
                                name, [int(e) * dt.itemsize for e in field.spatial_strides]))
                elif FieldType.is_generic(field):
                    var_sized.append((name, field, a))
                own, key, r0 = owner_of(a)
                if key not in mems:
                    mems[key] = Mem(own)
                m = mems[key]
                d = (sarr.raw(a).ctypes.data - m.ptr0) // m.isize if a.size else 0
                if m.cplx:
                    d = 2 * d + (a._part or 0)
                B[str(p.symbol)] = d
                B["M:" + name] = m.cells
                B["S:" + name] = (tuple(a.shape), tuple(st), d, key)
        for p in self.params:
            if p.is_field_pointer:
                continue
            if p.is_field_shape:
                nm = p.fields[0].name
                a = arrays.get(nm)
                if a is None:
                    a = kwargs[nm]
                B[str(p.symbol)] = int(a.shape[p.symbol.coordinate])
            elif p.is_field_stride:
                nm = p.fields[0].name
                a = arrays[nm]
                B[str(p.symbol)] = int(a.strides[p.symbol.coordinate] // a.dtype.itemsize)
            else:
                nm = str(p.symbol)
                if nm not in kwargs:
                    raise TypeError("Keyword argument '%s' missing" % nm)
                v = kwargs[nm]
                if isinstance(v, np.ndarray):
                    if v.size != 1:
                        raise TypeError("only size-1 arrays can be converted to Python scalars")
                    v = sarr.values(v).reshape(-1)[0]
                if isinstance(v, (str, bytes)) or v is None:
                    raise TypeError("must be real number, not %s" % type(v).__name__)
                v = sarr.lift_elem(v)
                if isinstance(v, (sarr.C, complex)):
                    raise TypeError("can't convert complex to float")
                if isinstance(v, T) and v.sort == "I":
                    v = symt.toreal(v)
                B[nm] = v
        if len(var_sized) > 1:
            sd = [tuple(a.shape[: f.spatial_dimensions]) for _, f, a in var_sized]
            if any(s != sd[0] for s in sd):
                raise ValueError("Arrays must have same shape: %s" % [n for n, _, _ in var_sized])
        return B, mems

    def __call__(self, **kwargs):
        B, mems = self.bind(kwargs)
        if LOG_CALLS[0]:
            CALLS.append((self, {k: v for k, v in B.items() if not k.startswith("M:")}))
        self.fn(B)
        wrote = set()
        for f in self.gen.writes:
            key = B["S:" + f][3]
            if key not in wrote:
                mems[key].store()
                wrote.add(key)


def compile_symbolic(self):
    k = SymKernel(self)
    KERNELS.append(k)
    return KernelWrapper(k, self.get_parameters(), self)


_orig = A.KernelFunction.compile


def install():
    A.KernelFunction.compile = compile_symbolic


def uninstall():
    A.KernelFunction.compile = _orig
