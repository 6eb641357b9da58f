"""Environment stubs.

numba:  not installed here; njit is the identity (the decorated Python source is the
        semantics numba promises).
numpy creation functions called from sopht code: give symbolic arrays (symbolic runs), or
        poisoned memory for np.empty (replays: its content is undefined by contract).
"""
import sys
import types

import numpy as np


def install_numba():
    try:
        import numba  # noqa: F401
        real = True
    except Exception:
        real = False
    m = types.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    m.njit = njit
    m.jit = njit
    m.vectorize = njit
    m.prange = range
    m.__version__ = "0.0-stub"
    m.get_num_threads = lambda: 1
    m.set_num_threads = lambda n: None

    class _Any:
        def __getattr__(self, n):
            return _Any()

        def __call__(self, *a, **k):
            return _Any()

        def __getitem__(self, i):
            return _Any()

    for n in ("float32", "float64", "int32", "int64", "types", "typed", "config", "boolean", "void"):
        setattr(m, n, _Any())
    sys.modules["numba"] = m
    return real


_orig = {}


def _from_sopht(depth=2):
    f = sys._getframe(depth)
    return f.f_globals.get("__name__", "").startswith("sopht")


def _has_sym(x):
    from .symt import T

    if isinstance(x, T):
        return True
    if hasattr(x, "term") and not isinstance(x, np.ndarray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def install_numpy_sym():
    """Make numpy creation functions called from sopht produce symbolic arrays."""
    from . import sarr, symt
    from .symt import T

    def creator(kind):
        o = _orig[kind] = getattr(np, kind)

        def f(shape, *a, **k):
            if not _from_sopht():
                return o(shape, *a, **k)
            fill = None
            a = list(a)
            if kind == "full":
                fill = a.pop(0) if a else k.pop("fill_value")
            dt = a[0] if a else k.get("dtype", None)
            if dt is None:
                dt = np.dtype(np.float64) if kind != "full" else (
                    sarr.infer_sd(sarr.mk(sarr._in(fill), None)) if not isinstance(fill, np.ndarray) else fill.dtype)
            return sarr.new(shape, dt, kind, fill)

        setattr(np, kind, f)

    for kind in ("zeros", "ones", "empty", "full"):
        creator(kind)

    def like(kind):
        name = kind + "_like"
        o = _orig[name] = getattr(np, name)

        def f(a, *args, **k):
            if not _from_sopht() or isinstance(a, sarr.SArr):
                return o(a, *args, **k)
            arr = np.asarray(a)
            args = list(args)
            fill = None
            if kind == "full":
                fill = args.pop(0) if args else k.pop("fill_value")
            dt = k.get("dtype", args[0] if args else None)
            return sarr.new(k.get("shape") or arr.shape, dt if dt is not None else arr.dtype, kind, fill)

        setattr(np, name, f)

    for kind in ("zeros", "ones", "empty", "full"):
        like(kind)

    def arr_like(name):
        o = _orig[name] = getattr(np, name)

        def f(x, *a, **k):
            if hasattr(x, "_h5data"):
                x = x._h5data
            if isinstance(x, sarr.SArr):
                if name in ("array",) and k.get("copy", True):
                    r = x.copy()
                else:
                    r = x if name != "ascontiguousarray" else sarr._ascontig(x)
                dt = a[0] if a else k.get("dtype")
                return r.astype(dt) if dt is not None and np.dtype(dt) != r.dtype else r
            if _from_sopht() and _has_sym(x):
                return sarr._array(x, a[0] if a else k.get("dtype"))
            return o(x, *a, **k)

        setattr(np, name, f)

    for n in ("array", "asarray", "ascontiguousarray", "asanyarray", "copy"):
        arr_like(n)

    o_lin = _orig["linspace"] = np.linspace

    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if isinstance(start, T) or isinstance(stop, T):
            num = int(num)
            d = num - 1 if endpoint else num
            start, stop = symt.L(start), symt.L(stop)
            vals = [start + (stop - start) * i / d if d else start for i in range(num)]
            v = np.ndarray((num,), dtype=object)
            v[:] = vals
            r = sarr.mk(v, dtype or np.float64)
            return (r, (stop - start) / d) if retstep else r
        return o_lin(start, stop, num, endpoint, retstep, dtype, axis)

    np.linspace = linspace
    o_ar = _orig["arange"] = np.arange

    def arange(*a, **k):
        if any(isinstance(x, T) for x in a):
            step = a[2] if len(a) > 2 else 1
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            n = symt.L(hi - lo) / step
            n = int(np.ceil(n) if isinstance(n, T) and n.sort == "R" else n)
            v = np.ndarray((n,), dtype=object)
            v[:] = [symt.L(lo + step * i) for i in range(n)]
            r = sarr.mk(v, None)
            r._sd = sarr.infer_sd(r)
            return r.astype(k["dtype"]) if k.get("dtype") is not None else r
        return o_ar(*a, **k)

    np.arange = arange
    for scal in ("isscalar",):
        o_is = _orig[scal] = np.isscalar
        np.isscalar = lambda x: True if isinstance(x, T) else o_is(x)


def install_numpy_poison():
    """Replays: np.empty has undefined content; make it recognisable."""
    o = np.empty
    ol = np.empty_like

    def poison(a):
        if a.dtype.kind == "f":
            a.fill(np.nan)
        elif a.dtype.kind == "c":
            a.fill(complex(np.nan, np.nan))
        elif a.dtype.kind == "i" and a.dtype.itemsize >= 4:
            a.fill(-123456)
        return a

    def empty(*a, **k):
        r = o(*a, **k)
        return poison(r) if _from_sopht() else r

    def empty_like(*a, **k):
        r = ol(*a, **k)
        return poison(r) if _from_sopht() else r

    np.empty = empty
    np.empty_like = empty_like
    try:
        import pyfftw
    except ImportError:
        return
    oa = pyfftw.empty_aligned
    pyfftw.empty_aligned = lambda *a, **k: poison(oa(*a, **k))


class _RealMeta(type):
    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(cls.base)

    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls.base)

    def __call__(cls, x=0.0):
        from .symt import T
        from . import symt, sarr

        if isinstance(x, T):
            r = symt.toreal(symt._num(x))
            if sarr.NARROW[0] and np.dtype(cls.base) == np.float32:
                r = sarr.narrowed(np.array(r, dtype=object), np.dtype(np.float64), np.dtype(np.float32))[()]
            return r
        if isinstance(x, sarr.SArr):
            return x.astype(cls.base)
        if isinstance(x, (int, float, np.generic)):
            return cls.base(x)
        return cls.base(x)


def sym_real(base):
    """A stand-in for np.float32/np.float64 that passes symbolic values through."""
    return _RealMeta(base.__name__, (), {"base": base, "dtype": np.dtype(base), "__name__": base.__name__})


def install_float():
    """float() in the modules of the code under test passes symbolic values through."""
    f = sym_real(float)
    for name, m in list(sys.modules.items()):
        if (name == "sopht" or name.startswith("sopht.")) and m is not None:
            m.__dict__.setdefault("float", f)
