"""Race queries for the parallel loops of resolved kernel ASTs.

For every store in an OpenMP-parallel loop and every access of the same memory, the
obligation says: no two different iterations touch the same element.  Loop counters are
integer variables; sizes, strides and base offsets are those of the recorded call.
"""
import sympy as sp
import pystencils.astnodes as A
from pystencils.typing import CastFunc, PointerType, TypedSymbol
from pystencils.typing.typed_sympy import FieldPointerSymbol

from . import symt
from .symt import Unsupported, const, add, mul, le, lt, eq, conj


def _omp(loop):
    return any("omp" in str(x) and "for" in str(x) for x in getattr(loop, "prefix_lines", []) or [])


class Walker:
    def __init__(self, kernel, B, tag):
        self.B = B
        self.tag = tag
        self.env = {}
        self.ptr = {}        # pointer name -> (field, offset term)
        self.cons = []       # constraints of the enclosing loops
        self.acc = []        # (is_write, field, address, constraints, parallel id, parallel counter)
        self.par = None
        self.nvar = 0
        self.inpar = False

    def I(self, e):
        if isinstance(e, CastFunc):
            return self.I(e.args[0])
        e = sp.sympify(e)
        if isinstance(e, sp.Integer):
            return const(int(e))
        if isinstance(e, sp.Symbol):
            n = str(e)
            if n in self.env:
                return self.env[n]
            if n in self.B:
                v = self.B[n]
                return symt.L(int(v) if not isinstance(v, symt.T) else v)
            raise Unsupported("race analysis: symbol %s" % n)
        if isinstance(e, sp.Add):
            r = const(0)
            for a in e.args:
                r = add(r, self.I(a))
            return r
        if isinstance(e, sp.Mul):
            r = const(1)
            for a in e.args:
                r = mul(r, self.I(a))
            return r
        if isinstance(e, (sp.Min, sp.Max)):
            vs = [self.I(a) for a in e.args]
            r = vs[0]
            for v in vs[1:]:
                c = lt(r, v)
                r = symt.ite(c, r, v) if isinstance(e, sp.Min) else symt.ite(c, v, r)
            return r
        raise Unsupported("race analysis: index %s" % type(e).__name__)

    def pointer(self, e):
        """(field, offset) of a pointer expression"""
        if isinstance(e, FieldPointerSymbol):
            f = e.field_name
            return f, symt.L(int(self.B[str(e)])) if str(e) in self.B else const(self.B["S:" + f][2])
        if isinstance(e, sp.Symbol) and str(e) in self.ptr:
            return self.ptr[str(e)]
        if isinstance(e, sp.Add):
            base = None
            off = const(0)
            for a in e.args:
                if isinstance(a, sp.Symbol) and (isinstance(a, FieldPointerSymbol) or str(a) in self.ptr):
                    base = self.pointer(a)
                else:
                    off = add(off, self.I(a))
            if base is not None:
                return base[0], add(base[1], off)
        raise Unsupported("race analysis: pointer")

    def loads(self, e):
        if isinstance(e, (A.ResolvedFieldAccess, sp.Indexed)):
            self.access(e, False)
            return
        for a in getattr(e, "args", ()):
            if isinstance(a, sp.Basic):
                self.loads(a)

    def access(self, acc, w):
        base = acc.base.label if hasattr(acc, "base") else acc.args[0].label
        f, off = self.pointer(base)
        a = off
        for i in acc.indices:
            a = add(a, self.I(i))
        if self.inpar:
            self.acc.append((w, f, a, tuple(self.cons), self.par))

    def walk(self, n):
        if isinstance(n, A.Block):
            for x in n.args:
                self.walk(x)
        elif isinstance(n, A.LoopOverCoordinate):
            v = symt.var("%s!%s!%d" % (self.tag, n.loop_counter_symbol, self.nvar), "I")
            self.nvar += 1
            st, en = self.I(n.start), self.I(n.stop)
            step = self.I(n.step)
            old = self.env.get(str(n.loop_counter_symbol))
            if step is const(1):
                self.env[str(n.loop_counter_symbol)] = v
                c = [le(st, v), lt(v, en)]
            else:
                x = add(st, mul(step, v))
                self.env[str(n.loop_counter_symbol)] = x
                c = [le(const(0), v), lt(x, en)]
            k = len(self.cons)
            self.cons += c
            par = self.inpar, self.par
            if _omp(n):
                self.inpar, self.par = True, (id(n), v)
            self.walk(n.body)
            self.inpar, self.par = par
            del self.cons[k:]
            if old is not None:
                self.env[str(n.loop_counter_symbol)] = old
        elif isinstance(n, A.Conditional):
            self.loads(n.condition_expr)
            self.walk(n.true_block)
            if n.false_block:
                self.walk(n.false_block)
        elif isinstance(n, A.SympyAssignment):
            lhs, rhs = n.lhs, n.rhs
            if isinstance(lhs, (A.ResolvedFieldAccess, sp.Indexed)):
                self.loads(rhs)
                self.access(lhs, True)
            elif isinstance(lhs, TypedSymbol) and isinstance(lhs.dtype, PointerType):
                self.ptr[str(lhs)] = self.pointer(rhs)
            else:
                self.loads(rhs)
                try:
                    self.env[str(lhs)] = self.I(rhs)
                except Exception:
                    pass
        elif isinstance(n, (A.SourceCodeComment, A.EmptyLine)):
            pass
        else:
            raise Unsupported("race analysis: %s" % type(n).__name__)


def obligations(kernel, B):
    """Yield (label, goal term): True iff no two different iterations conflict."""
    w1, w2 = Walker(kernel, B, "p"), Walker(kernel, B, "q")
    w1.walk(kernel.ast.body)
    w2.walk(kernel.ast.body)
    out = []
    for wr in w1.acc:
        if not wr[0]:
            continue
        for ac in w2.acc:
            if B["S:" + wr[1]][3] != B["S:" + ac[1]][3]:
                continue                       # different memory
            if wr[4][0] != ac[4][0]:
                continue                       # separated by the barrier between loops
            bad = conj(list(wr[3]) + list(ac[3]) + [symt.notT(eq(wr[4][1], ac[4][1])), eq(wr[2], ac[2])])
            out.append(("store to %s, %s of %s" % (wr[1], "store" if ac[0] else "load", ac[1]), symt.notT(bad)))
    return out, bool(w1.acc)
