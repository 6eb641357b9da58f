"""Symbolic arrays: object ndarrays whose elements are terms, with a logical dtype.

Works in two domains.  In the term domain every number that meets a symbolic value is
lifted to an exact term.  In the linear domain (LINEAR) elements are Python numbers or
LinForm objects and numbers stay floating-point.
"""
import operator
from fractions import Fraction

import numpy as np

from . import symt
from .symt import T, Unsupported

LINEAR = False

_nd_dtype = np.ndarray.dtype.__get__ if hasattr(np.ndarray.dtype, "__get__") else None


class C:
    """A complex number with symbolic parts."""

    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return C(x.real, x.imag)
        return C(x, 0.0 if LINEAR else symt.ZERO)

    def __add__(self, o):
        o = C.of(o)
        return C(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = C.of(o)
        return C(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = C.of(o)
        return C(o.re - self.re, o.im - self.im)

    def __neg__(self):
        return C(-self.re, -self.im)

    def __mul__(self, o):
        if not isinstance(o, (C, complex, np.complexfloating)):
            return C(self.re * o, self.im * o)
        o = C.of(o)
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (C, complex, np.complexfloating)):
            raise Unsupported("complex division")
        return C(self.re / o, self.im / o)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return C(self.re, -self.im)

    def __deepcopy__(self, memo):
        return self


def lift_elem(x):
    if LINEAR:
        return x
    if isinstance(x, (T, C)):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return C(symt.L(float(x.real)), symt.L(float(x.imag)))
    r = symt.lift(x)
    if r is NotImplemented:
        if x is None:
            raise Unsupported("uninitialised element")
        if hasattr(x, "term"):
            return x.term
        raise Unsupported("cannot lift element %r" % type(x))
    return r


_lift_cache = {}


def lift_array(a):
    """Numeric (or object) ndarray -> object ndarray of liftable elements."""
    a = np.asarray(a)
    if a.dtype == object:
        if LINEAR:
            return a
        b = np.empty(a.shape, dtype=object)
        fl = b.reshape(-1)
        for i, x in enumerate(a.reshape(-1).tolist() if a.ndim else [a.item()]):
            fl[i] = lift_elem(x)
        return b
    k = a.dtype.kind
    b = np.empty(a.shape, dtype=object)
    vals = a.reshape(-1).tolist()
    if LINEAR:
        out = vals
    elif k == "f":
        mant = 24 if a.dtype.itemsize == 4 else 53
        out = [symt.from_float(v, mant) for v in vals]
    elif k in "iu":
        out = [symt.const(int(v)) for v in vals]
    elif k == "b":
        out = [symt.const(bool(v)) for v in vals]
    elif k == "c":
        mant = 24 if a.dtype.itemsize == 8 else 53
        out = [C(symt.from_float(v.real, mant), symt.from_float(v.imag, mant)) for v in vals]
    else:
        raise Unsupported("array of kind %s" % k)
    if b.ndim == 0:
        b[()] = out[0]
    else:
        bl = b.reshape(-1)
        bl[:] = out if out else []
    return b


def cast_elem(x, dt):
    """Cast one element to a logical dtype (assignment semantics)."""
    if dt is None:
        return x
    k = dt.kind
    if isinstance(x, C):
        if k == "c":
            return x
        if k == "f":
            return x.re
        raise Unsupported("complex to int")
    if k == "c":
        return C.of(x)
    if LINEAR and not isinstance(x, T):
        if k in "iu" and isinstance(x, float):
            return int(x)
        return x
    return symt.cast(x, dt)


class SArr(np.ndarray):
    _sd = None
    _part = None

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._sd = getattr(obj, "_sd", None)
        self._part = getattr(obj, "_part", None)

    # -- logical dtype ----------------------------------------------------
    @property
    def dtype(self):
        sd = self._sd
        if sd is None:
            sd = infer_sd(self)
        if self._part is not None:
            return np.dtype(np.float32) if sd == np.dtype(np.complex64) else np.dtype(np.float64)
        return sd

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    @property
    def strides(self):
        f = self.dtype.itemsize
        st = raw(self).strides
        if self._part is not None:
            f *= 2
        return tuple(s // 8 * f for s in st)

    @property
    def real(self):
        if self._part is None and self.dtype.kind == "c":
            v = raw(self).view(SArr)
            v._sd = self._sd
            v._part = 0
            return v
        return self

    @real.setter
    def real(self, v):
        self.real[...] = v

    @property
    def imag(self):
        if self._part is None and self.dtype.kind == "c":
            v = raw(self).view(SArr)
            v._sd = self._sd
            v._part = 1
            return v
        if self._part is None:
            return mk(np.full(self.shape, 0.0 if LINEAR else symt.ZERO, dtype=object), self._sd)
        raise Unsupported("imag of part")

    @imag.setter
    def imag(self, v):
        if self.dtype.kind != "c":
            raise TypeError("array does not have imaginary part to set")
        self.imag[...] = v

    # -- element access ----------------------------------------------------
    def __getitem__(self, key):
        key = fix_key(key)
        r = raw(self)[key]
        if isinstance(r, np.ndarray) and r.dtype == object:
            v = r.view(SArr)
            v._sd = self._sd
            v._part = self._part
            return v
        if self._part is not None and isinstance(r, C):
            return r.re if self._part == 0 else r.im
        return r

    def item(self, *a):
        return self.__getitem__(tuple(a) if a else (0,) * self.ndim) if self.size else None

    def __setitem__(self, key, value):
        mask = None
        if isinstance(key, SArr) and key.dtype.kind == "b":
            mask = values(key)
            if mask.shape != self.shape[: mask.ndim]:
                raise IndexError("boolean index did not match")
            if all(isinstance(m, T) and m.op == "c" or isinstance(m, bool) for m in mask.reshape(-1).tolist()):
                key = np.array([bool(m) for m in mask.reshape(-1).tolist()]).reshape(mask.shape)
                mask = None
            else:
                key = Ellipsis
        key = fix_key(key)
        base = raw(self)
        sd = self.dtype
        if isinstance(value, np.ndarray):
            if isinstance(value, SArr) and sd is not None and not np.can_cast(value.dtype, sd, "unsafe"):
                raise TypeError("cannot cast")
            v = values(value)
            if NARROW[0] and isinstance(value, SArr):
                v = narrowed(v, value.dtype, sd)
        elif isinstance(value, (list, tuple)):
            v = np.empty(np.shape(_shape_probe(value)), dtype=object)
            _fill_nested(v, value)
        else:
            v = np.empty((), dtype=object)
            v[()] = lift_elem(value)
        c = cast_array(v, sd)
        if mask is not None:
            if mask.ndim < self.ndim:
                mask = mask.reshape(mask.shape + (1,) * (self.ndim - mask.ndim))
            if c.ndim and c.size != 1:
                raise Unsupported("masked assignment of an array")
            old = values(self)
            x = c.reshape(-1)[0]
            c = np.frompyfunc(lambda m, o: symt.ite(symt.L(m), symt.L(x), symt.L(o)), 2, 1)(mask, old)
            if not isinstance(c, np.ndarray):
                c = _o0(c)
        if self._part is not None:
            old = base[key]
            if isinstance(old, np.ndarray):
                nv = _setpart(old, np.broadcast_to(c, old.shape), self._part)
                base[key] = nv
            else:
                cc = c.reshape(-1)[0]
                base[key] = C(cc, C.of(old).im) if self._part == 0 else C(C.of(old).re, cc)
            return
        if c.ndim == 0:
            base[key] = c[()]
        else:
            base[key] = c

    def fill(self, v):
        self[...] = v

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dt)
        if not copy and dt == self.dtype:
            return self
        return mk(np.array(cast_array(narrowed(values(self), self.dtype, dt), dt, force=True), dtype=object), dt)

    def copy(self, order="C"):
        return mk(np.array(values(self), dtype=object, order=order if order in "CF" else "K"), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if len(a) == 1 and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        dt = np.dtype(a[0] if a else k["dtype"])
        if dt == self.dtype:
            return np.ndarray.view(self)
        raise Unsupported("view of a symbolic array as another type")

    def tobytes(self, *a):
        raise Unsupported("bytes of a symbolic array")

    def tolist(self):
        return values(self).tolist()

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def clip(self, lo=None, hi=None, out=None):
        return np.clip(self, lo, hi, out=out)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = np.add.reduce(self, axis=axis, keepdims=keepdims)
        n = self.size if axis is None else int(
            np.prod([self.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))]))
        r = s / n
        if out is not None:
            out[...] = r
            return out
        return r

    def dot(self, b, out=None):
        return np.dot(self, b)

    def __matmul__(self, o):
        return _matmul(self, o)

    def __rmatmul__(self, o):
        return _matmul(o, self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(values(self).reshape(-1)[0])

    def __int__(self):
        return int(values(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(values(self)[()])

    # -- numpy protocols ----------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return dispatch_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        if LINEAR:
            from . import linear

            args = linear.numeric(tuple(args))
            kwargs = {k: linear.numeric(v) for k, v in kwargs.items()}
            if not any(isinstance(x, SArr) for x in _flat(args)) and \
                    not any(isinstance(x, SArr) for x in _flat(list(kwargs.values()))):
                return func(*args, **kwargs)
        args = _strip(args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        return _wrap(r)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def _strip(x):
    if isinstance(x, SArr):
        return values(x)
    if isinstance(x, tuple):
        return tuple(_strip(y) for y in x)
    if isinstance(x, list):
        return [_strip(y) for y in x]
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc" and not LINEAR:
        return lift_array(x)
    return x


def _wrap(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SArr) and r.dtype == object:
        return mk(r, None)
    if isinstance(r, tuple):
        return tuple(_wrap(x) for x in r)
    if isinstance(r, list):
        return [_wrap(x) for x in r]
    return r


def _shape_probe(v):
    if isinstance(v, (list, tuple)):
        return np.empty((len(v),) + np.shape(_shape_probe(v[0])) if len(v) else (0,), dtype=bool)
    if isinstance(v, np.ndarray):
        return np.empty(v.shape, dtype=bool)
    return np.empty((), dtype=bool)


def _fill_nested(arr, v):
    for i, x in enumerate(v):
        if isinstance(x, (list, tuple)):
            _fill_nested(arr[i], x)
        elif isinstance(x, np.ndarray):
            arr[i] = values(x)
        else:
            arr[i] = lift_elem(x)


def _setpart(old, new, part):
    out = np.empty(old.shape, dtype=object)
    of, nf, rf = old.reshape(-1).tolist(), new.reshape(-1).tolist(), out.reshape(-1)
    for i, (o, n) in enumerate(zip(of, nf)):
        o = C.of(o)
        rf[i] = C(n, o.im) if part == 0 else C(o.re, n)
    return out


def _o0(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def raw(a):
    """The underlying plain object ndarray (elements may be complex for part views)."""
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SArr) else a


def values(a):
    """Plain object ndarray of the elements a user of `a` sees."""
    if isinstance(a, SArr):
        r = raw(a)
        if a._part is not None:
            out = np.empty(r.shape, dtype=object)
            p = a._part
            fl = [C.of(x) for x in (r.reshape(-1).tolist())]
            vals = [x.re if p == 0 else x.im for x in fl]
            if out.ndim == 0:
                out[()] = vals[0]
            elif vals:
                out.reshape(-1)[:] = vals
            return out
        return r
    if isinstance(a, np.ndarray):
        return lift_array(a)
    return _o0(lift_elem(a))


def infer_sd(a):
    r = raw(a)
    if r.size == 0:
        return np.dtype(np.float64)
    kinds = set()
    for x in r.reshape(-1).tolist():
        if isinstance(x, C) or isinstance(x, complex):
            kinds.add("c")
        elif isinstance(x, T):
            kinds.add(x.sort)
        elif isinstance(x, bool):
            kinds.add("B")
        elif isinstance(x, int):
            kinds.add("I")
        else:
            kinds.add("R")
    if "c" in kinds:
        return np.dtype(np.complex128)
    if "R" in kinds:
        return np.dtype(np.float64)
    if "I" in kinds:
        return np.dtype(np.int64)
    return np.dtype(np.bool_)


def mk(obj, sd):
    """Wrap an object ndarray."""
    if not isinstance(obj, np.ndarray):
        obj = _o0(obj)
    v = np.ndarray.view(obj, SArr) if not isinstance(obj, SArr) else obj
    v._sd = np.dtype(sd) if sd is not None else None
    v._part = None
    return v


NARROW = [False]
_narrow_ok = set()


def narrowed(v, src, dst):
    """Make the rounding of wide values stored with fewer bits visible (only when NARROW is set)."""
    if not NARROW[0] or src is None or dst is None or dst.kind != "f" or src.kind != "f" or dst.itemsize >= src.itemsize:
        return v

    def one(x):
        if not isinstance(x, T) or x.op == "c" or x.uid in _narrow_ok:
            return x
        r = symt.uf("narrow%d" % (8 * dst.itemsize), x)
        _narrow_ok.add(r.uid)
        return r

    out = np.empty(v.shape, dtype=object)
    if out.ndim == 0:
        out[()] = one(v[()])
    elif v.size:
        out.reshape(-1)[:] = [one(x) for x in v.reshape(-1).tolist()]
    return out


def cast_array(v, sd, force=False):
    """Cast element values for storage into logical dtype sd."""
    if sd is None:
        return v
    k = sd.kind
    vals = v.reshape(-1).tolist() if v.ndim else [v[()]]
    need = False
    for x in vals:
        y = cast_elem(x, sd)
        if y is not x:
            need = True
            break
    if not need:
        return v
    out = np.empty(v.shape, dtype=object)
    nv = [cast_elem(x, sd) for x in vals]
    if out.ndim == 0:
        out[()] = nv[0]
    elif nv:
        out.reshape(-1)[:] = nv
    return out


def fix_key(key):
    if isinstance(key, tuple):
        return tuple(_fix1(k) for k in key)
    return _fix1(key)


def _fix1(k):
    if isinstance(k, T):
        return operator.index(k)
    if isinstance(k, slice):
        def f(x):
            return operator.index(x) if isinstance(x, T) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, SArr):
        v = values(k)
        if k.dtype.kind == "b":
            return np.array([bool(x) for x in v.reshape(-1).tolist()], dtype=bool).reshape(v.shape)
        if k.ndim == 0:
            return operator.index(v[()])
        return np.array([operator.index(x) for x in v.reshape(-1).tolist()], dtype=np.intp).reshape(v.shape)
    if isinstance(k, list) and any(isinstance(x, T) for x in k):
        return [operator.index(x) if isinstance(x, T) else x for x in k]
    return k


# ---------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------
def _t1(f):
    return lambda a: f(symt.L(a))


def _t2(f):
    return lambda a, b: f(symt.L(a), symt.L(b))


def _bool_and(a, b):
    return symt.andT(symt.L(a), symt.L(b))


def _xor(a, b):
    a, b = symt._b(symt.L(a)), symt._b(symt.L(b))
    return symt.notT(symt.eq(a, b))


def _fmod(a, b):
    q = symt.toreal(symt.trunc(symt.div(a, b)))
    return symt.sub(a, symt.mul(b, q))


def _hyp(a, b):
    return symt.sqrtT(symt.add(symt.mul(a, a), symt.mul(b, b)))


def _csafe(f, cf):
    def g(*a):
        if any(isinstance(x, (C, complex)) for x in a):
            return cf(*a)
        return f(*a)
    return g


def _absC(x):
    if isinstance(x, C):
        return symt.sqrtT(symt.add(symt.mul(x.re, x.re), symt.mul(x.im, x.im)))
    return symt.absT(symt.L(x))


def _bnum(x):
    """numpy promotes booleans in arithmetic"""
    return x


UF = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
    "divide": operator.truediv, "true_divide": operator.truediv,
    "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod,
    "negative": operator.neg, "positive": lambda a: a,
    "absolute": _absC, "fabs": _absC, "abs": _absC,
    "conjugate": lambda a: a.conjugate() if isinstance(a, (C, complex)) else a,
    "square": lambda a: a * a,
    "reciprocal": _t1(lambda a: symt.div(symt.ONE, a)),
    "sqrt": _t1(symt.sqrtT), "sin": _t1(lambda a: symt.uf("sin", a)),
    "cos": _t1(lambda a: symt.uf("cos", a)), "tan": _t1(lambda a: a.tan()),
    "exp": _t1(lambda a: symt.uf("exp", a)), "log": _t1(lambda a: symt.uf("log", a)),
    "floor": _t1(lambda a: a.floor()), "ceil": _t1(lambda a: a.ceil()),
    "trunc": _t1(lambda a: a.trunc()), "rint": _t1(lambda a: a.rint()),
    "sign": _t1(lambda a: a.sign()),
    "power": lambda a, b: symt.powT(symt.L(a), b) if not isinstance(a, C) else _cpow(a, b),
    "float_power": lambda a, b: symt.powT(symt.L(a), b),
    "maximum": _t2(symt.maxT), "minimum": _t2(symt.minT),
    "fmax": _t2(symt.maxT), "fmin": _t2(symt.minT),
    "less": _t2(symt.lt), "less_equal": _t2(symt.le),
    "greater": _t2(lambda a, b: symt.lt(b, a)), "greater_equal": _t2(lambda a, b: symt.le(b, a)),
    "equal": _t2(symt.eq), "not_equal": _t2(lambda a, b: symt.notT(symt.eq(a, b))),
    "logical_and": _bool_and, "logical_or": _t2(symt.orT),
    "logical_not": _t1(lambda a: symt.notT(symt._b(a))), "logical_xor": _xor,
    "bitwise_and": _bool_and, "bitwise_or": _t2(symt.orT), "bitwise_xor": _xor,
    "invert": _t1(lambda a: symt.notT(a)),
    "heaviside": _t2(lambda a, b: symt.ite(symt.lt(a, symt.ZERO), symt.ZERO,
                                            symt.ite(symt.eq(a, symt.ZERO), b, symt.ONE))),
    "hypot": _t2(_hyp), "fmod": _t2(_fmod),
    "isfinite": lambda a: symt.TRUE, "isnan": lambda a: symt.FALSE, "isinf": lambda a: symt.FALSE,
    "deg2rad": _t1(lambda a: symt.div(symt.mul(a, symt.PI), symt.const(180))),
    "radians": _t1(lambda a: symt.div(symt.mul(a, symt.PI), symt.const(180))),
    "copysign": _t2(lambda a, b: symt.ite(symt.le(symt.ZERO, b), symt.absT(a), symt.mul(symt.const(-1), symt.absT(a)))),
}


def _cpow(a, b):
    n = int(b.args) if isinstance(b, T) else int(b)
    r = a
    for _ in range(n - 1):
        r = r * a
    return r


def _linpow(a, b):
    b = float(b.args) if isinstance(b, T) else b
    if b == 1:
        return a
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a ** b
    raise Unsupported("power in the linear domain")


LIN_UF = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
    "divide": operator.truediv, "true_divide": operator.truediv,
    "negative": operator.neg, "positive": lambda a: a,
    "conjugate": lambda a: a.conjugate() if isinstance(a, (C, complex)) else a,
    "square": lambda a: a * a,
    "power": _linpow,
}

BOOL_RES = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and",
            "logical_or", "logical_not", "logical_xor", "isfinite", "isnan", "isinf"}
# in the linear domain these leave it: their result can be compared and decided, not transformed
DECIDES = BOOL_RES | {"absolute", "fabs", "abs", "maximum", "minimum", "fmax", "fmin", "sign"}
REDUCE_ID = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}

_pyuf = {}


def _elem_fn(name):
    f = (LIN_UF if LINEAR else UF).get(name)
    if f is None and LINEAR:
        nf = getattr(np, name, None)
        if nf is not None:
            def f(*a, nf=nf, name=name):
                if any(not isinstance(x, (int, float, complex, bool)) for x in a):
                    if name in DECIDES and not any(isinstance(x, (C, complex)) for x in a):
                        return UF[name](*a)
                    raise Unsupported("nonlinear operation %s on symbolic data" % name)
                return nf(*a).item()
    return f


def _fn(name, nin):
    key = (name, nin, LINEAR)
    r = _pyuf.get(key)
    if r is None:
        f = _elem_fn(name)
        if f is None:
            raise Unsupported("numpy.%s on symbolic data" % name)
        r = np.frompyfunc(f, nin, 1)
        _pyuf[key] = r
    return r


def _tok(x):
    """Something np.result_type understands for the logical dtype of x."""
    if isinstance(x, SArr):
        if x.ndim == 0:
            return {"f": 1.0, "i": 1, "u": 1, "b": True, "c": 1j}[x.dtype.kind]
        return x.dtype
    if isinstance(x, T):
        return {"R": 1.0, "I": 1, "B": True}[x.sort]
    if isinstance(x, C):
        return 1j
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return infer_sd(x)
        return x
    if isinstance(x, (bool, int, float, complex, np.generic)):
        return x
    return 1.0


def _result_sd(name, inputs):
    if name in BOOL_RES:
        return np.dtype(np.bool_)
    toks = [_tok(x) for x in inputs]
    # arrays present: python scalars are weak
    arrs = [t for t, x in zip(toks, inputs) if isinstance(x, np.ndarray) and x.ndim]
    scal = [t for t, x in zip(toks, inputs) if not (isinstance(x, np.ndarray) and x.ndim)]
    if arrs:
        dts = [t if isinstance(t, np.dtype) else t.dtype for t in arrs]
        rt = np.result_type(*dts)
        order = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}
        for s in scal:
            k = np.dtype(type(s)).kind if not isinstance(s, np.generic) else s.dtype.kind
            if order[k] > order[rt.kind]:
                if k == "c":
                    rt = np.dtype(np.complex64) if rt == np.float32 else np.dtype(np.complex128)
                elif k == "f":
                    rt = np.dtype(np.float64)
                else:
                    rt = np.dtype(np.int64)
    else:
        rt = np.result_type(*toks)
    if name in ("divide", "true_divide", "sqrt", "sin", "cos", "tan", "exp", "log", "hypot", "reciprocal",
                "fabs", "deg2rad", "radians", "float_power") and rt.kind in "iub":
        rt = np.dtype(np.float64)
    if name in ("absolute", "fabs", "abs") and rt.kind == "c":
        rt = np.dtype(np.float32 if rt == np.complex64 else np.float64)
    if rt.kind == "b" and name in ("add", "multiply"):
        rt = np.dtype(np.bool_)
    elif rt.kind == "b" and name in ("subtract", "negative"):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return rt


def _in(x):
    if isinstance(x, np.ndarray):
        return values(x)
    if isinstance(x, (list, tuple)):
        v = np.empty(np.shape(_shape_probe(x)), dtype=object)
        _fill_nested(v, x)
        return v
    return _o0(lift_elem(x))


def dispatch_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    where = kw.pop("where", True)
    kw.pop("casting", None)
    dtk = kw.pop("dtype", None)
    kw.pop("subok", None)
    kw.pop("order", None)
    if method == "__call__":
        if name == "matmul":
            r = _matmul(*inputs)
            if out is not None:
                out[0][...] = r
                return out[0]
            return r
        if name == "divmod":
            return (dispatch_ufunc(np.floor_divide, method, inputs, None, {}),
                    dispatch_ufunc(np.remainder, method, inputs, None, {}))
        sd = _result_sd(name, inputs)
        if dtk is not None:
            sd = np.dtype(dtk)
        vin = [_in(x) for x in inputs]
        if sd.kind == "b" and name in ("add", "multiply"):
            res = _fn("logical_or" if name == "add" else "logical_and", 2)(*vin)
        else:
            res = _fn(name, len(vin))(*vin)
        if not isinstance(res, np.ndarray):
            res = _o0(res)
        if out is not None and out[0] is not None:
            o = out[0]
            if not np.can_cast(sd, o.dtype, "same_kind"):
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", sd, o.dtype, 0)
            if np.broadcast_shapes(res.shape, o.shape) != o.shape:
                raise ValueError("non-broadcastable output operand with shape %s" % (o.shape,))
            if where is not True:
                old = values(o)
                w = np.broadcast_to(values(where) if isinstance(where, np.ndarray) else _o0(lift_elem(where)), o.shape)
                res = np.frompyfunc(lambda m, a, b: symt.ite(symt.L(m), symt.L(a), symt.L(b)), 3, 1)(
                    w, np.broadcast_to(res, o.shape), old)
            o[...] = mk(res, sd) if res.ndim else res[()]
            return o
        if where is not True:
            raise Unsupported("where without out")
        if res.ndim == 0:
            return res[()]
        return mk(res, sd)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", None)
        if init is np._NoValue:
            init = None
        v = values(a)
        sd = _result_sd(name, (a,))
        if name in ("add", "multiply") and sd.kind == "b":
            sd = np.dtype(np.int64)
        r = _reduce(name, v, axis, keep, init)
        if out is not None and out[0] is not None:
            out[0][...] = mk(r, sd) if isinstance(r, np.ndarray) and r.ndim else r
            return out[0]
        if isinstance(r, np.ndarray):
            if r.ndim == 0:
                return r[()]
            return mk(r, sd)
        return r
    if method == "accumulate":
        a = values(inputs[0])
        axis = kw.get("axis", 0)
        f = _elem_fn(name)
        res = np.empty(a.shape, dtype=object)
        am, rm = np.moveaxis(a, axis, 0), np.moveaxis(res, axis, 0)
        uf = _fn(name, 2)
        acc = am[0]
        rm[0] = acc
        for i in range(1, am.shape[0]):
            acc = uf(acc, am[i])
            rm[i] = acc
        return mk(res, _result_sd(name, (inputs[0],)))
    if method == "outer":
        a, b = inputs
        va, vb = _in(a), _in(b)
        res = _fn(name, 2)(va.reshape(va.shape + (1,) * vb.ndim), vb)
        return mk(res, _result_sd(name, inputs))
    if method == "at":
        a, idx = inputs[0], inputs[1]
        b = values(inputs[2]) if len(inputs) > 2 and isinstance(inputs[2], np.ndarray) else (
            _o0(lift_elem(inputs[2])) if len(inputs) > 2 else None)
        f = _elem_fn(name)
        idx = fix_key(idx)
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = np.broadcast_arrays(*[np.asarray(i) for i in idx])
        bb = np.broadcast_to(b, idx[0].shape) if b is not None else None
        for k in np.ndindex(idx[0].shape):
            key = tuple(int(i[k]) for i in idx)
            a[key] = f(a[key], bb[k]) if bb is not None else f(a[key])
        return None
    raise Unsupported("ufunc method %s" % method)


def _reduce(name, v, axis, keep, init):
    if axis is None:
        axes = tuple(range(v.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(a % v.ndim for a in axis)
    else:
        axes = (axis % v.ndim,) if v.ndim else ()
    rest = [i for i in range(v.ndim) if i not in axes]
    w = np.transpose(v, list(axes) + rest).reshape((-1,) + tuple(v.shape[i] for i in rest))
    n = w.shape[0]
    uf = _fn(name, 2)
    if n == 0 or init is not None:
        if init is None:
            if name not in REDUCE_ID:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            init = REDUCE_ID[name]
        acc = np.empty(w.shape[1:], dtype=object)
        acc[...] = lift_elem(init)
        lo = 0
    else:
        acc = w[0]
        if name in ("logical_and", "logical_or"):
            f1 = lambda a: symt._b(symt.L(a))
            acc = np.frompyfunc(f1, 1, 1)(acc) if isinstance(acc, np.ndarray) else f1(acc)
        elif name in ("add", "multiply"):
            f1 = lambda a: symt._num(a) if isinstance(a, T) else a
            acc = np.frompyfunc(f1, 1, 1)(acc) if isinstance(acc, np.ndarray) else f1(acc)
        lo = 1
    if w.ndim == 1:
        f1 = _elem_fn(name)
        acc = acc[()] if isinstance(acc, np.ndarray) else acc
        for i in range(lo, n):
            acc = f1(acc, w[i])
    else:
        for i in range(lo, n):
            acc = uf(acc, w[i])
    if not isinstance(acc, np.ndarray):
        acc = _o0(acc)
    if keep:
        acc = acc.reshape(tuple(1 if i in axes else v.shape[i] for i in range(v.ndim)))
    return acc


def _sum_prod(a, b):
    """2-D matrix product of object arrays."""
    m, k = a.shape
    k2, n = b.shape
    if k != k2:
        raise ValueError("shapes not aligned")
    al, bl = a.tolist(), np.ascontiguousarray(b.T).tolist()
    out = np.empty((m, n), dtype=object)
    for i in range(m):
        ai = al[i]
        for j in range(n):
            bj = bl[j]
            s = None
            for x, y in zip(ai, bj):
                if isinstance(x, (int, float)) and x == 0:
                    continue
                if isinstance(y, (int, float)) and y == 0:
                    continue
                p = x * y
                s = p if s is None else s + p
            out[i, j] = (0.0 if LINEAR else symt.ZERO) if s is None else s
    return out


def _matmul(a, b):
    sd = _result_sd("multiply", (a, b))
    a, b = _in(a), _in(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum_prod(a.reshape(1, -1), b.reshape(-1, 1))[0, 0]
    if a.ndim == 1:
        r = _matmul(a.reshape(1, -1), b)
        return r[..., 0, :]
    if b.ndim == 1:
        r = _matmul(a, b.reshape(-1, 1))
        return r[..., 0]
    if a.ndim == 2 and b.ndim == 2:
        return mk(_sum_prod(a, b), sd)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, sh + a.shape[-2:])
    b = np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for k in np.ndindex(sh):
        out[k] = _sum_prod(a[k], b[k])
    return mk(out, sd)


def _dot(a, b, out=None):
    sd = _result_sd("multiply", (a, b))
    a, b = _in(a), _in(b)
    if a.ndim == 0 or b.ndim == 0:
        r = _fn("multiply", 2)(a, b)
    elif b.ndim == 1:
        r = _sum_prod(a.reshape(-1, a.shape[-1]), b.reshape(-1, 1)).reshape(a.shape[:-1])
    else:
        bm = np.moveaxis(b, -2, 0).reshape(b.shape[-2], -1)
        r = _sum_prod(a.reshape(-1, a.shape[-1]), bm).reshape(a.shape[:-1] + b.shape[:-2] + b.shape[-1:])
    if not isinstance(r, np.ndarray):
        return r
    r = mk(r, sd)
    if out is not None:
        out[...] = r
        return out
    return r[()] if r.ndim == 0 else r


def _tensordot(a, b, axes=2):
    sd = _result_sd("multiply", (a, b))
    a, b = _in(a), _in(b)
    if isinstance(axes, (int, np.integer)):
        aa = list(range(-axes, 0))
        ba = list(range(0, axes))
    else:
        aa, ba = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        ba = [ba] if isinstance(ba, (int, np.integer)) else list(ba)
    aa = [x % a.ndim for x in aa]
    ba = [x % b.ndim for x in ba]
    if [a.shape[i] for i in aa] != [b.shape[i] for i in ba]:
        raise ValueError("shape-mismatch for sum")
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in ba]
    n = int(np.prod([a.shape[i] for i in aa])) if aa else 1
    am = np.transpose(a, ra + aa).reshape(-1, n)
    bm = np.transpose(b, ba + rb).reshape(n, -1)
    return mk(_sum_prod(am, bm).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb]), sd)


def _einsum(spec, *ops, **kw):
    out = kw.pop("out", None)
    sd = _result_sd("multiply", ops)
    spec = spec.replace(" ", "")
    lhs, arrow, rhs = spec.partition("->")
    ins = lhs.split(",")
    vs = [_in(o) for o in ops]
    # ellipsis
    if "..." in spec:
        nell = max(v.ndim - len(s.replace("...", "")) for v, s in zip(vs, ins))
        letters = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec][:nell]
        ins = [s.replace("...", "".join(letters[nell - (v.ndim - len(s.replace("...", ""))):] if nell else ""))
               for v, s in zip(vs, ins)]
        rhs = rhs.replace("...", "".join(letters))
    if not arrow:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        rhs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, v in zip(ins, vs):
        for c, n in zip(s, v.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n not in (1, dims[c]):
                raise ValueError("einsum dims")
    summed = [c for c in dims if c not in rhs]
    res = np.empty([dims[c] for c in rhs], dtype=object)
    for ok in np.ndindex(*[dims[c] for c in rhs]) if rhs else [()]:
        env = dict(zip(rhs, ok))
        acc = None
        for sk in np.ndindex(*[dims[c] for c in summed]) if summed else [()]:
            env.update(zip(summed, sk))
            p = None
            for s, v in zip(ins, vs):
                x = v[tuple(env[c] if v.shape[i] != 1 else 0 for i, c in enumerate(s))]
                p = x if p is None else p * x
            acc = p if acc is None else acc + p
        res[ok] = acc
    if out is not None:
        out[...] = mk(res, sd)
        return out
    return res[()] if res.ndim == 0 else mk(res, sd)


def _where(c, *ab):
    if not ab:
        raise Unsupported("np.where with one argument")
    a, b = ab
    sd = _result_sd("add", (a, b))
    r = np.frompyfunc(lambda m, x, y: symt.ite(symt._b(symt.L(m)), symt.L(x), symt.L(y)), 3, 1)(_in(c), _in(a), _in(b))
    return mk(r, sd) if isinstance(r, np.ndarray) else r


def _clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _like(kind):
    def f(a, *args, **k):
        fill = None
        args = list(args)
        if kind == "full":
            fill = args.pop(0) if args else k.pop("fill_value")
        dt = k.get("dtype", args[0] if args else None)
        sh = k.get("shape", None)
        sh = a.shape if sh is None else sh
        dt = np.dtype(dt) if dt is not None else (a.dtype if isinstance(a, SArr) else np.dtype(np.float64))
        return new(sh, dt, kind, fill)
    return f


_uninit = [0]
UNINIT_HOOK = [None]


def new(shape, dt, kind, fill=None):
    dt = np.dtype(dt) if not isinstance(dt, np.dtype) else dt
    if isinstance(shape, (int, np.integer, T)):
        shape = (operator.index(shape),)
    shape = tuple(operator.index(s) for s in shape)
    o = np.empty(shape, dtype=object)
    if kind == "empty":
        _uninit[0] += 1
        if LINEAR and UNINIT_HOOK[0]:
            UNINIT_HOOK[0](o, dt, _uninit[0])
            return mk(o, dt)
        n = o.size
        nm = "uninit%d" % _uninit[0]
        sort = {"f": "R", "i": "I", "u": "I", "b": "B", "c": "R"}[dt.kind]
        if LINEAR:
            vals = [complex(np.nan, np.nan) if dt.kind == "c" else float("nan")] * n
        elif dt.kind == "c":
            vals = [C(symt.var("%s_%dr" % (nm, i)), symt.var("%s_%di" % (nm, i))) for i in range(n)]
        else:
            vals = [symt.var("%s_%d" % (nm, i), sort) for i in range(n)]
        if o.ndim == 0:
            o[()] = vals[0]
        elif n:
            o.reshape(-1)[:] = vals
        return mk(o, dt)
    v = {"zeros": 0, "ones": 1, "full": fill}[kind]
    if kind == "full" and isinstance(fill, np.ndarray):
        r = mk(o, dt)
        r[...] = fill
        return r
    v = lift_elem(v if dt.kind != "f" or not isinstance(v, int) or isinstance(v, bool) else float(v))
    v = cast_elem(v, dt)
    if dt.kind == "c" and LINEAR:
        v = C.of(v)
    o.fill(v)
    return mk(o, dt)


def _array(x, dtype=None, **k):
    """np.array / asarray for symbolic content."""
    if isinstance(x, np.ndarray):
        v = np.array(values(x), dtype=object)
        sd = x.dtype
    elif isinstance(x, (list, tuple)):
        v = np.empty(np.shape(_shape_probe(x)), dtype=object)
        _fill_nested(v, x)
        sd = None
    else:
        v = _o0(lift_elem(x))
        sd = None
    r = mk(v, sd)
    if sd is None:
        r._sd = infer_sd(r)
    if dtype is not None:
        return r.astype(dtype)
    return r


def _noop_same(a, *args, **k):
    return a


def _ascontig(a, dtype=None, **k):
    r = raw(a)
    if a._part is None and r.flags.c_contiguous and (dtype is None or np.dtype(dtype) == a.dtype):
        return a
    out = mk(np.array(values(a), dtype=object, order="C"), a.dtype)
    return out.astype(dtype) if dtype is not None and np.dtype(dtype) != a.dtype else out


def _reshapelike(fn):
    """functions that only rearrange elements of one array"""
    def f(a, *args, **k):
        if isinstance(a, SArr):
            r = fn(raw(a), *args, **k)
            if isinstance(r, np.ndarray):
                p = a._part
                r = mk(r, a._sd)
                r._part = p
            elif isinstance(r, list):
                r = [mk(x, a._sd) for x in r]
            return r
        return fn(a, *args, **k)
    return f


def _joiner(fn):
    def f(arrays, *args, **k):
        arrays = list(arrays)
        sd = np.result_type(*[x.dtype for x in arrays if isinstance(x, np.ndarray)])
        out = k.pop("out", None)
        r = fn([values(x) for x in arrays], *args, **k)
        r = mk(r, sd)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.less_equal(np.absolute(_as(a) - _as(b)), atol + rtol * np.absolute(_as(b)))


def _as(x):
    return x if isinstance(x, (SArr, T)) else mk(_in(x), None) if np.ndim(x) else lift_elem(x)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    v = _in(r)
    t = symt.conj([symt.L(x) for x in v.reshape(-1).tolist()])
    return bool(t)


def _array_equal(a, b, **k):
    a, b = _as(a), _as(b)
    if np.shape(a) != np.shape(b):
        return False
    v = _in(np.equal(a, b))
    return bool(symt.conj([symt.L(x) for x in v.reshape(-1).tolist()]))


def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, np.broadcast_to(values(src) if isinstance(src, np.ndarray) else _in(src), dst.shape), dst)


def _red(method):
    def f(a, *args, **k):
        k = {x: y for x, y in k.items() if y is not np._NoValue}
        return getattr(_as(a), method)(*args, **k)
    return f


def _setter(a, *args, **k):
    raise Unsupported("np.put-like on symbolic data")


def _apply1(a, fn, *args):
    return fn(a, *args)


def _shape(a):
    return tuple(a.shape)


FUNCS = {
    "where": _where, "dot": _dot, "tensordot": _tensordot, "einsum": _einsum, "clip": _clip,
    "matmul": _matmul,
    "zeros_like": _like("zeros"), "ones_like": _like("ones"), "empty_like": _like("empty"),
    "full_like": _like("full"),
    "ascontiguousarray": _ascontig, "asarray": _noop_same,
    "reshape": _reshapelike(np.reshape), "transpose": _reshapelike(np.transpose),
    "moveaxis": _reshapelike(np.moveaxis), "swapaxes": _reshapelike(np.swapaxes),
    "rollaxis": _reshapelike(np.rollaxis),
    "expand_dims": _reshapelike(np.expand_dims), "squeeze": _reshapelike(np.squeeze),
    "ravel": _reshapelike(np.ravel), "broadcast_to": _reshapelike(np.broadcast_to),
    "tile": _reshapelike(np.tile), "repeat": _reshapelike(np.repeat), "roll": _reshapelike(np.roll),
    "flip": _reshapelike(np.flip), "rot90": _reshapelike(np.rot90), "copy": lambda a, *r, **k: a.copy(),
    "fliplr": _reshapelike(np.fliplr), "flipud": _reshapelike(np.flipud),
    "atleast_1d": _reshapelike(np.atleast_1d), "atleast_2d": _reshapelike(np.atleast_2d),
    "split": _reshapelike(np.split), "take": lambda a, i, axis=None, **k: _reshapelike(np.take)(a, fix_key(i), axis=axis),
    "concatenate": _joiner(np.concatenate), "stack": _joiner(np.stack), "vstack": _joiner(np.vstack),
    "hstack": _joiner(np.hstack), "column_stack": _joiner(np.column_stack), "dstack": _joiner(np.dstack),
    "diff": _reshapelike(np.diff),
    "isclose": _isclose, "allclose": _allclose, "array_equal": _array_equal, "copyto": _copyto,
    "sum": _red("sum"), "prod": _red("prod"), "amax": _red("max"), "amin": _red("min"), "max": _red("max"),
    "min": _red("min"), "any": _red("any"), "all": _red("all"), "mean": _red("mean"),
    "shape": _shape, "ndim": lambda a: a.ndim, "size": lambda a, axis=None: a.size if axis is None else a.shape[axis],
    "real": lambda a: a.real, "imag": lambda a: a.imag,
    "may_share_memory": lambda a, b, **k: np.may_share_memory(raw(a), raw(b)),
    "shares_memory": lambda a, b, **k: np.shares_memory(raw(a), raw(b)),
    "result_type": lambda *a: np.result_type(*[x.dtype if isinstance(x, SArr) else x for x in a]),
    "can_cast": lambda a, t, casting="safe": np.can_cast(a.dtype if isinstance(a, SArr) else a, t, casting),
    "iscomplexobj": lambda a: a.dtype.kind == "c", "isrealobj": lambda a: a.dtype.kind != "c",
}
for _k in ("ones_like", "zeros_like", "empty_like"):
    pass


def _array2string(a, *args, **k):
    k = dict(k)
    sep = k.get("separator", " ")
    def fmt(x):
        if isinstance(x, list):
            return "[" + sep.join(fmt(y) for y in x) + "]"
        return str(x)
    return fmt(values(a).tolist())


def _insert(a, i, v, axis=None):
    if not isinstance(a, SArr):
        return mk(np.insert(np.asarray(a).astype(object), i, _in(v), axis=axis), np.result_type(a.dtype, _as(v).dtype if isinstance(v, SArr) else float))
    v2 = _in(v).reshape(-1) if np.ndim(v) or isinstance(v, SArr) else lift_elem(v)
    return mk(np.insert(raw(a), i, v2 if isinstance(v2, np.ndarray) else [v2], axis=axis), a.dtype)


def _append(a, v, axis=None):
    a = a if isinstance(a, SArr) else mk(_in(a), None)
    v2 = _in(v)
    if axis is None:
        return mk(np.concatenate([raw(a).reshape(-1), v2.reshape(-1)]), a.dtype)
    return mk(np.concatenate([raw(a), v2], axis=axis), a.dtype)


FUNCS["insert"] = _insert
FUNCS["append"] = _append
FUNCS["delete"] = _reshapelike(np.delete)
FUNCS["array2string"] = _array2string
FUNCS["array_str"] = lambda a, *r, **k: _array2string(a)
FUNCS["array_repr"] = lambda a, *r, **k: "array(" + _array2string(a, separator=", ") + ")"


def t_array_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    return dispatch_ufunc(ufunc, method, inputs, out, kw)


T.__array_ufunc__ = t_array_ufunc


# ---------------------------------------------------------------------------
def sym_field(name, shape, dt, sort=None):
    dt = np.dtype(dt)
    o = np.empty(shape, dtype=object)
    sort = sort or {"f": "R", "i": "I", "b": "B"}[dt.kind]
    fl = o.reshape(-1)
    for i, k in enumerate(np.ndindex(*shape)):
        fl[i] = symt.var("%s[%s]" % (name, ",".join(map(str, k))), sort)
    return mk(o, dt)
