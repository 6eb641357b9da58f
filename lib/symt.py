"""Symbolic terms: a hash-consed expression DAG over reals, integers and booleans.

A term is what the real code computes with when it is executed symbolically.
Arithmetic on terms builds the DAG; `bool(term)` and `index(term)` ask the current
path context (see paths.py) to fork or concretise.
"""
from fractions import Fraction
import math
import sys

import numpy as np
import sympy as sp

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    """The engine cannot encode this operation (never a property violation)."""


class T:
    __slots__ = ("op", "args", "sort", "uid", "_cap")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    # -- arithmetic ------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return o if o is NotImplemented else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else sub(self, o)

    def __rsub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else sub(o, self)

    def __mul__(self, o):
        o = lift(o)
        return o if o is NotImplemented else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else floordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else floordiv(o, self)

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sub(self, mul(o, floordiv(self, o)))

    def __rmod__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o % self

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absT(self)

    def __pow__(self, n, mod=None):
        if isinstance(n, np.ndarray) or isinstance(n, sp.Basic):
            return NotImplemented
        return powT(self, n)

    def __rpow__(self, b):
        raise Unsupported("symbolic exponent")

    # -- comparison ------------------------------------------------------
    def __lt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else lt(self, o)

    def __gt__(self, o):
        o = lift(o)
        return o if o is NotImplemented else lt(o, self)

    def __le__(self, o):
        o = lift(o)
        return o if o is NotImplemented else le(self, o)

    def __ge__(self, o):
        o = lift(o)
        return o if o is NotImplemented else le(o, self)

    def __eq__(self, o):
        if o is self:
            return TRUE
        o = lift(o)
        return o if o is NotImplemented else eq(self, o)

    def __ne__(self, o):
        if o is self:
            return FALSE
        o = lift(o)
        return o if o is NotImplemented else notT(eq(self, o))

    def __hash__(self):
        return self.uid

    def __and__(self, o):
        o = lift(o)
        return o if o is NotImplemented else andT(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = lift(o)
        return o if o is NotImplemented else orT(self, o)

    __ror__ = __or__

    def __invert__(self):
        if self.sort != "B":
            raise Unsupported("bitwise not on number")
        return notT(self)

    # -- leaving the symbolic world -------------------------------------
    def __bool__(self):
        if self.op == "c":
            return bool(self.args)
        from . import paths

        b = self if self.sort == "B" else notT(eq(self, const(0)))
        if b.op == "c":
            return bool(b.args)
        return paths.decide(b)

    def __index__(self):
        if self.op == "c":
            if self.args.denominator != 1:
                raise TypeError("non-integer index")
            return int(self.args)
        if self.sort == "R":
            raise TypeError("real term used as an index")
        from . import paths

        return paths.concretise(self)

    def __int__(self):
        if self.op == "c":
            return int(self.args)
        t = trunc(self)
        return t.__index__()

    def __float__(self):
        if self.op == "c":
            return float(self.args)
        raise Unsupported("float() of a symbolic term")

    # -- numpy object-array method hooks ----------------------------------
    def sin(self):
        return uf("sin", self)

    def cos(self):
        return uf("cos", self)

    def tan(self):
        return div(uf("sin", self), uf("cos", self))

    def sqrt(self):
        return sqrtT(self)

    def log(self):
        return uf("log", self)

    def exp(self):
        return uf("exp", self)

    def fabs(self):
        return absT(self)

    def absolute(self):
        return absT(self)

    def floor(self):
        return toreal(floorI(self))

    def ceil(self):
        return toreal(mul(const(-1), floorI(mul(const(-1), self))))

    def rint(self):
        return toreal(floorI(add(self, const(Fraction(1, 2), "R"))))

    def trunc(self):
        return toreal(trunc(self))

    def conjugate(self):
        return self

    def square(self):
        return mul(self, self)

    def sign(self):
        return ite(lt(ZERO, self), const(1), ite(lt(self, ZERO), const(-1), ZERO))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def astype(self, dt):
        return cast(self, dt)

    # -- sympy capture ----------------------------------------------------
    def _sympy_(self):
        if self.op == "c":
            return sp.Rational(self.args.numerator, self.args.denominator)
        return capture(self)

    def __repr__(self):
        return show(self)

    def __str__(self):
        """A token from which the term can be found again in written text."""
        if self.op == "c":
            return str(int(self.args)) if self.args.denominator == 1 and self.sort == "I" else repr(float(self.args)) \
                if self.sort != "B" else str(self.args)
        _tokens[self.uid] = self
        return "@T%d@" % self.uid

    def __format__(self, spec):
        if spec and self.op != "c":
            raise Unsupported("formatted text of a symbolic term")
        return format(float(self), spec) if spec else str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_tokens = {}
_table = {}
_next = [0]


def _mk(op, args, sort, key):
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.sort = sort
        t.uid = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


def const(v, sort=None):
    if isinstance(v, bool):
        return _mk("c", v, "B", ("cB", v))
    if isinstance(v, int):
        s = sort or "I"
        return _mk("c", Fraction(v), s, ("c" + s, v, 1))
    s = sort or "R"
    return _mk("c", v, s, ("c" + s, v.numerator, v.denominator))


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def var(name, sort="R"):
    return _mk("v", name, sort, ("v", name))


PI = var("pi")

_caps = {}


def capture(t):
    """A sympy symbol standing for term t inside a stencil definition."""
    name = "cap_%d" % t.uid
    _caps[name] = t
    return sp.Symbol(name, real=True)


def captured(name):
    return _caps.get(name)


# ---------------------------------------------------------------------------
# float recognition
# ---------------------------------------------------------------------------
def _simplest(lo, hi):
    """Simplest fraction in [lo, hi], 0 < lo <= hi (Stern-Brocot)."""
    fl = lo.numerator // lo.denominator
    if fl * lo.denominator == lo.numerator:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_PIF = Fraction(
    314159265358979323846264338327950288419716939937510, 10**50
)
_float_cache = {}


def _recog(x, mant):
    """x: exact Fraction > 0, mant: mantissa bits.  Returns (q, k): q*pi**k."""
    ulp = x / (1 << (mant - 1))
    tol = ulp * 2
    best = None
    # information content: accept only if clearly simpler than a random float
    limit = mant - 8
    for k, scale in ((0, Fraction(1)), (1, _PIF), (-1, 1 / _PIF), (2, _PIF**2), (-2, 1 / _PIF**2)):
        y = x / scale
        t = tol / scale
        lo = y - t
        if lo <= 0:
            continue
        q = _simplest(lo, y + t)
        bits = q.numerator.bit_length() + q.denominator.bit_length()
        if k == 0:
            if y.denominator == 1 or bits <= limit // 2 + 2:
                return (y if (y.denominator.bit_length() + y.numerator.bit_length()) <= limit else q, 0)
            # exact dyadic number with few bits
            if y.numerator.bit_length() <= limit - 14:
                return (y, 0)
            cand = bits
            best = (cand, q, 0)
        else:
            bits += 2 if abs(k) == 1 else 6
            if best is None or bits < best[0]:
                best = (bits, q, k)
    if best is not None and best[0] <= limit:
        return best[1], best[2]
    return x, 0


def from_float(v, mant=53):
    key = (v, mant)
    r = _float_cache.get(key)
    if r is not None:
        return r
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant %r" % v)
    x = Fraction(v)
    if x == 0:
        r = const(Fraction(0), "R")
    else:
        q, k = _recog(abs(x), mant)
        if x < 0:
            q = -q
        r = const(q, "R")
        if k > 0:
            for _ in range(k):
                r = mul(r, PI)
        elif k < 0:
            d = PI
            for _ in range(-k - 1):
                d = mul(d, PI)
            r = div(r, d)
    _float_cache[key] = r
    return r


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return const(bool(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, np.float32):
        return from_float(float(x), 24)
    if isinstance(x, (float, np.floating)):
        return from_float(float(x), 53)
    if isinstance(x, Fraction):
        return const(x, "R")
    if isinstance(x, np.ndarray) and x.ndim == 0 and not type(x).__name__ == "SArr":
        return lift(x.item()) if x.dtype != np.float32 else lift(np.float32(x))
    if hasattr(x, "as_term"):
        return x.as_term()
    return NotImplemented


def L(x):
    r = lift(x)
    if r is NotImplemented:
        raise Unsupported("cannot lift %r" % type(x))
    return r


# ---------------------------------------------------------------------------
# constructors
# ---------------------------------------------------------------------------
def _num(x):
    if x.sort == "B":
        return ite(x, ONE, ZERO)
    return x


def add(a, b):
    if a.sort == "B":
        a = _num(a)
    if b.sort == "B":
        b = _num(b)
    s = "I" if a.sort == "I" and b.sort == "I" else "R"
    if a.op == "c":
        if b.op == "c":
            return const(a.args + b.args, s) if s == "R" else const(int(a.args + b.args))
        if a.args == 0:
            return b
    elif b.op == "c" and b.args == 0:
        return a
    return _mk("+", (a, b), s, ("+", a.uid, b.uid))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, mul(const(-1), b))


def mul(a, b):
    if a.sort == "B":
        a = _num(a)
    if b.sort == "B":
        b = _num(b)
    s = "I" if a.sort == "I" and b.sort == "I" else "R"
    if a.op == "c":
        if b.op == "c":
            return const(a.args * b.args, s) if s == "R" else const(int(a.args * b.args))
        if a.args == 0:
            return a
        if a.args == 1:
            return b
        # c1 * (c2 * x)
        if b.op == "*" and b.args[0].op == "c":
            return mul(mul(a, b.args[0]), b.args[1])
    elif b.op == "c":
        return mul(b, a)
    return _mk("*", (a, b), s, ("*", a.uid, b.uid))


def div(a, b):
    a = _num(a)
    b = _num(b)
    if b.op == "c":
        if b.args == 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        return mul(const(1 / b.args, "R"), a)
    if a.op == "c" and a.args == 0:
        return a
    return _mk("/", (a, b), "R", ("/", a.uid, b.uid))


def floorI(a):
    if a.sort == "I":
        return a
    if a.op == "c":
        return const(math.floor(a.args))
    if a.op == "toreal":
        return a.args[0]
    return _mk("floor", (a,), "I", ("floor", a.uid))


def toreal(a):
    if a.sort == "R":
        return a
    if a.op == "c":
        return const(a.args, "R")
    return _mk("toreal", (a,), "R", ("toreal", a.uid))


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        return floorI(div(a, b))
    return toreal(floorI(div(a, b)))


def trunc(a):
    if a.sort == "B":
        return _num(a)
    if a.sort == "I":
        return a
    if a.op == "toreal":
        return a.args[0]
    if a.op == "c":
        return const(int(a.args))
    return ite(le(ZERO, a), floorI(a), mul(const(-1), floorI(mul(const(-1), a))))


def cast(a, dt):
    try:
        kind = np.dtype(dt).kind
    except Exception:
        return a
    if kind in "iu":
        return trunc(a)
    if kind == "b":
        return a if a.sort == "B" else notT(eq(a, ZERO))
    if kind == "f":
        return toreal(_num(a))
    return a


def ite(c, a, b):
    if c.op == "c":
        return a if c.args else b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        s = "B"
    else:
        a = _num(a)
        b = _num(b)
        s = "I" if a.sort == "I" and b.sort == "I" else "R"
    return _mk("ite", (c, a, b), s, ("ite", c.uid, a.uid, b.uid))


def lt(a, b):
    a = _num(a)
    b = _num(b)
    if a.op == "c" and b.op == "c":
        return const(a.args < b.args)
    if a is b:
        return FALSE
    return _mk("<", (a, b), "B", ("<", a.uid, b.uid))


def le(a, b):
    a = _num(a)
    b = _num(b)
    if a.op == "c" and b.op == "c":
        return const(a.args <= b.args)
    if a is b:
        return TRUE
    return _mk("<=", (a, b), "B", ("<=", a.uid, b.uid))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a.op == "c":
            return b if a.args else notT(b)
        if b.op == "c":
            return a if b.args else notT(a)
    else:
        a = _num(a)
        b = _num(b)
        if a.op == "c" and b.op == "c":
            return const(a.args == b.args)
    return _mk("=", (a, b), "B", ("=", a.uid, b.uid))


def notT(a):
    if a.op == "c":
        return const(not a.args)
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B", ("not", a.uid))


def _b(a):
    return a if a.sort == "B" else notT(eq(a, ZERO))


def andT(a, b):
    a = _b(a)
    b = _b(b)
    if a.op == "c":
        return b if a.args else a
    if b.op == "c":
        return a if b.args else b
    if a is b:
        return a
    return _mk("and", (a, b), "B", ("and", a.uid, b.uid))


def orT(a, b):
    a = _b(a)
    b = _b(b)
    if a.op == "c":
        return a if a.args else b
    if b.op == "c":
        return b if b.args else a
    if a is b:
        return a
    return _mk("or", (a, b), "B", ("or", a.uid, b.uid))


def implies(a, b):
    return orT(notT(a), b)


def conj(xs):
    r = TRUE
    for x in xs:
        r = andT(r, x)
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = orT(r, x)
    return r


def absT(a):
    a = _num(a)
    if a.op == "c":
        return const(abs(a.args), a.sort) if a.sort == "R" else const(int(abs(a.args)))
    return ite(le(ZERO, a), a, mul(const(-1), a))


def minT(a, b):
    return ite(le(a, b), a, b)


def maxT(a, b):
    return ite(le(b, a), a, b)


def powT(a, n):
    if isinstance(n, T):
        if n.op != "c":
            raise Unsupported("symbolic exponent")
        n = n.args
    n = Fraction(n) if not isinstance(n, Fraction) else n
    if n.denominator == 2:
        r = powT(sqrtT(a), n.numerator)
        return r
    if n.denominator != 1:
        raise Unsupported("fractional power %s" % n)
    n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powT(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def sqrtT(a):
    if a.op == "c":
        n, d = a.args.numerator, a.args.denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd), "R")
    return uf("sqrt", a)


def uf(name, *args):
    args = tuple(L(a) for a in args)
    a = args[0]
    if a.op == "c" and a.args == 0:
        if name == "sin":
            return ZERO
        if name in ("cos", "exp"):
            return ONE
    return _mk("uf", (name,) + args, "R", ("uf", name) + tuple(x.uid for x in args))


# ---------------------------------------------------------------------------
# traversal helpers
# ---------------------------------------------------------------------------
def children(t):
    if t.op in ("c", "v"):
        return ()
    if t.op == "uf":
        return t.args[1:]
    return t.args


def topo(roots):
    """Post-order list of all nodes below roots."""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.uid in seen:
            continue
        seen.add(t.uid)
        stack.append((t, True))
        for c in children(t):
            if c.uid not in seen:
                stack.append((c, False))
    return out


def variables(roots):
    return [t for t in topo(roots) if t.op == "v"]


def canon_key(roots):
    """Structure of the DAG up to renaming of variables, and the variable order."""
    num = {}
    names = []
    out = []
    for t in topo(roots):
        i = len(num)
        num[t.uid] = i
        if t.op == "v":
            if t is PI:
                out.append("p")
            else:
                out.append("v" + t.sort)
                names.append(t)
        elif t.op == "c":
            out.append((t.sort, t.args))
        elif t.op == "uf":
            out.append((t.args[0],) + tuple(num[c.uid] for c in t.args[1:]))
        else:
            out.append((t.op,) + tuple(num[c.uid] for c in t.args))
    return tuple(out) + tuple(num[r.uid] for r in roots), names


def size(t):
    return len(topo([t]))


def show(t, depth=6):
    if t.op == "c":
        return str(t.args)
    if t.op == "v":
        return str(t.args)
    if depth == 0:
        return "..."
    if t.op == "uf":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, depth - 1) for a in t.args[1:]))
    return "(%s %s)" % (t.op, " ".join(show(a, depth - 1) for a in t.args))


def evalf(t, model, memo=None):
    """Evaluate numerically with floats; model: name -> float."""
    memo = {}
    for n in topo([t]):
        o = n.op
        if o == "c":
            v = n.args if isinstance(n.args, bool) else float(n.args)
        elif o == "v":
            v = math.pi if n is PI else model[n.args]
        else:
            a = [memo[c.uid] for c in children(n)]
            if o == "+":
                v = a[0] + a[1]
            elif o == "*":
                v = a[0] * a[1]
            elif o == "/":
                v = a[0] / a[1] if a[1] != 0 else float("nan")
            elif o == "ite":
                v = a[1] if a[0] else a[2]
            elif o == "<":
                v = a[0] < a[1]
            elif o == "<=":
                v = a[0] <= a[1]
            elif o == "=":
                v = a[0] == a[1]
            elif o == "not":
                v = not a[0]
            elif o == "and":
                v = a[0] and a[1]
            elif o == "or":
                v = a[0] or a[1]
            elif o == "floor":
                v = math.floor(a[0])
            elif o == "toreal":
                v = float(a[0])
            elif o == "uf":
                f = n.args[0]
                v = {"sin": math.sin, "cos": math.cos, "exp": math.exp}.get(f)
                if v is not None:
                    v = v(a[0])
                elif f == "sqrt":
                    v = math.sqrt(a[0]) if a[0] >= 0 else float("nan")
                elif f == "log":
                    v = math.log(a[0]) if a[0] > 0 else float("nan")
                else:
                    raise Unsupported(f)
            else:
                raise Unsupported(o)
        memo[n.uid] = v
    return memo[t.uid]
