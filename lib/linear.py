"""Linear domain: array elements are Python floats or affine forms over the inputs.

The transforms and linear solvers are linear maps whose constants (twiddle factors,
eigenvectors, Green function) are computed by the code in floating point.  Running the
code on affine forms c0 + sum c_j x_j gives, for every output cell, its exact dependence
on every input cell.  Obligations are |form - specification| <= tol for every
x in [-1,1]^n (and every content of uninitialised memory), decided by the solver in
linear real arithmetic.

The DFT libraries are replaced by their documented contracts (pyFFTW: MEASURE planning
destroys both arrays, inputs are copied or adopted according to dtype, strides and
alignment, multi-dimensional c2r destroys its input, backward transforms are normalised).
"""
import sys
import types
from fractions import Fraction

import numpy as np

from . import sarr, symt
from .symt import Unsupported

VARS = []       # T variables; coefficient k+1 belongs to VARS[k]
BOUND = []      # bound on the absolute value of each variable
BOUNDED = set() # variables whose bounds are among the assumptions of the path
BIG = 10 ** 6   # content of uninitialised memory
ALIGNED = [True]  # do arrays that pyfftw did not allocate satisfy the plan alignment?


def new_var(name, bound=1):
    VARS.append(symt.var(name))
    BOUND.append(bound)
    v = np.zeros(len(VARS) + 1)
    v[-1] = 1.0
    return LinForm(v)


def _isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, LinForm)


def _addv(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = a.copy()
    r[: len(b)] += b
    return r


class LinForm:
    __slots__ = ("v",)
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        if isinstance(o, LinForm):
            return LinForm(_addv(self.v, o.v))
        if _isnum(o):
            r = self.v.copy()
            r[0] += o
            return LinForm(r)
        return self._mixed(symt.add, o)

    __radd__ = __add__

    def __neg__(self):
        return LinForm(-self.v)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, LinForm):
            return LinForm(_addv(self.v, -o.v))
        if _isnum(o):
            return self + (-o)
        return self._mixed(symt.sub, o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, LinForm):
            if not self.v[1:].any():
                return o * float(self.v[0])
            if not o.v[1:].any():
                return self * float(o.v[0])
            raise Unsupported("product of two input-dependent values in the linear domain")
        if _isnum(o):
            return LinForm(self.v * float(o))
        return self._mixed(symt.mul, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _isnum(o):
            return LinForm(self.v / float(o))
        raise Unsupported("division by an input-dependent value")

    def __rtruediv__(self, o):
        raise Unsupported("division by an input-dependent value")

    def __float__(self):
        raise Unsupported("input-dependent value used as a plain number")

    __int__ = __index__ = __float__

    def _mixed(self, f, o):
        return f(self.as_term(), o) if isinstance(o, symt.T) else NotImplemented

    # decisions on input-dependent values fork the path
    def as_term(self):
        from . import paths

        for k in np.flatnonzero(self.v[1:]):
            if k not in BOUNDED:
                BOUNDED.add(k)
                for a in _bounds(k):
                    paths.assume(a)
        return _term(self.v)

    def __bool__(self):
        return bool(self.as_term())

    def __abs__(self):
        return symt.absT(self.as_term())

    def __lt__(self, o):
        return symt.lt(self.as_term(), symt.L(o))

    def __le__(self, o):
        return symt.le(self.as_term(), symt.L(o))

    def __gt__(self, o):
        return symt.lt(symt.L(o), self.as_term())

    def __ge__(self, o):
        return symt.le(symt.L(o), self.as_term())

    def __eq__(self, o):
        return symt.eq(self.as_term(), symt.L(o))

    def __ne__(self, o):
        return symt.notT(symt.eq(self.as_term(), symt.L(o)))

    __hash__ = object.__hash__

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "LinForm(%d)" % len(self.v)


# -- obligations ---------------------------------------------------------------
def _vec(x):
    if isinstance(x, LinForm):
        return x.v
    if isinstance(x, symt.T):
        if x.op == "c":
            return np.array([float(x.args)])
        raise Unsupported("value outside the linear domain")
    return np.array([float(x)])


def _bounds(k):
    s = symt
    bk = s.const(BOUND[k])
    return [s.le(VARS[k], bk), s.le(s.mul(s.const(-1), bk), VARS[k])]


def _term(v):
    s = symt
    t = [s.const(Fraction(float(v[0])), "R")] if v[0] else []
    for k in np.flatnonzero(v[1:]):
        t.append(s.mul(s.const(Fraction(float(v[k + 1])), "R"), VARS[k]))
    r = s.ZERO
    for x in t:
        r = s.add(r, x)
    return r


def oblige(env, label, a, b, tol):
    from . import paths

    if isinstance(a, (sarr.C, complex)) or isinstance(b, (sarr.C, complex)):
        a, b = sarr.C.of(a), sarr.C.of(b)
        oblige(env, label + ".re", a.re, b.re, tol)
        oblige(env, label + ".im", a.im, b.im, tol)
        return
    va, vb = _vec(a), _vec(b)
    s = symt
    if not (np.isfinite(va).all() and np.isfinite(vb).all()):
        env.nobl += 1
        env.cands.append((label + ": not finite", {}, "raise"))
        return
    if tol is None:
        tol = 3e-3 if env.base_t == np.float32 else 1e-7
    d = _addv(va, -vb)
    env.nobl += 1
    env.labels[label] = env.labels.get(label, 0) + 1
    pc = paths.ctx().pc
    key = tuple(d.tolist()) + (tol,) + tuple(t.uid for t in pc)
    if key in env.seen:
        return
    env.nclass += 1
    # the difference is formed by the solver from both sides' exact coefficients
    diff = s.sub(_term(va), _term(vb))
    t = s.const(Fraction(tol), "R")
    neg = s.orT(s.lt(t, diff), s.lt(t, s.mul(s.const(-1), diff)))
    asm = []
    used = sorted(set(np.flatnonzero(va[1:]).tolist()) | set(np.flatnonzero(vb[1:]).tolist()))
    for k in used:
        asm += _bounds(k)
    asm += paths.known() if pc else []
    r, m = env.solver.refute(neg, asm, timeout=env.case.timeout, deep=0)
    if len(env.samples) < 6 and env.nclass in (1, 2, 5, 11, 23, 47):
        env.samples.append({"case": env.case.name, "obligation": label, "verdict": r,
                            "inputs_in_form": len(used), "tolerance": tol})
    env.seen[key] = "ok" if r == "unsat" else r
    if r == "unsat":
        return
    if r == "unknown":
        env.incon.append("%s: solver gave no answer" % label)
        env.cands.append((label, {}, "unknown"))
        return
    if len(env.cands) >= 12:
        from .harness import Enough

        raise Enough()
    if pc:
        # the solver drops assumptions which share no variable with the goal
        r, rest = env.solver.satisfiable(paths.known())
        env.cands.append((label, dict(rest or {}, **(m or {})), "model"))
    else:
        # the vertex of the box where the difference is largest
        worst = {}
        for k in np.flatnonzero(d[1:]):
            worst[VARS[k].args] = Fraction(1 if d[k + 1] > 0 else -1)
        env.cands.append((label, worst, "margin"))
        if m is not None:
            env.cands.append((label, m, "model"))


# -- symbolic arrays -----------------------------------------------------------
def field(name, shape, dt):
    o = np.empty(shape, dtype=object)
    fl = o.reshape(-1)
    for i, k in enumerate(np.ndindex(*shape)):
        fl[i] = new_var("%s[%s]" % (name, ",".join(map(str, k))))
    return sarr.mk(o, np.dtype(dt))


_fresh = [0]


def garbage(o, dt, tag):
    """Fill the object array with unconstrained content. Large arrays get an arbitrary
    combination of eight fixed patterns (a variable per element would be too many)."""
    _fresh[0] += 1
    fl = o.reshape(-1)
    nm = "uninit_%s_%d_" % (tag, _fresh[0])
    cplx = dt.kind == "c"
    if o.size > 400:
        import random
        rnd = random.Random(o.size)
        vs = [new_var(nm + str(i), BIG) for i in range(8)]
        for i in range(o.size):
            w = [vs[(i + j) % 8] * rnd.uniform(0.2, 1.0) for j in range(1 + cplx)]
            fl[i] = sarr.C(*w) if cplx else w[0]
        return
    for i in range(o.size):
        if cplx:
            fl[i] = sarr.C(new_var(nm + "%dr" % i, BIG), new_var(nm + "%di" % i, BIG))
        else:
            fl[i] = new_var(nm + str(i), BIG)


# -- transforms ----------------------------------------------------------------
def stack(a):
    """array -> coefficient array with one leading axis (constant first)"""
    v = sarr.values(a) if isinstance(a, np.ndarray) else np.asarray(a, dtype=object)
    cplx = a.dtype.kind == "c"
    n = len(VARS) + 1
    out = np.zeros((n,) + v.shape, dtype=complex if cplx else float)
    fl = out.reshape(n, -1)
    for i, x in enumerate(v.reshape(-1).tolist()):
        if isinstance(x, (sarr.C, complex)):
            x = sarr.C.of(x)
            r, im = _vec(x.re), _vec(x.im)
            fl[: len(r), i] += r
            fl[: len(im), i] += 1j * im
        else:
            r = _vec(x)
            fl[: len(r), i] = r
    return out


def unstack(c, dt):
    dt = np.dtype(dt)
    n = c.shape[0]
    fl = c.reshape(n, -1)
    o = np.empty(c.shape[1:], dtype=object)
    of = o.reshape(-1)
    for i in range(fl.shape[1]):
        col = fl[:, i]
        if dt.kind == "c":
            of[i] = sarr.C(_small(col.real), _small(col.imag))
        else:
            of[i] = _small(col.real)
    return sarr.mk(o, dt)


def _small(col):
    nz = np.flatnonzero(col)
    if len(nz) == 0:
        return 0.0
    k = nz[-1]
    if k == 0:
        return float(col[0])
    return LinForm(np.array(col[: k + 1]))


def _cdt(dt):
    return np.dtype(np.complex64) if dt in (np.dtype(np.float32), np.dtype(np.complex64)) else np.dtype(np.complex128)


def _rdt(dt):
    return np.dtype(np.float32) if dt in (np.dtype(np.float32), np.dtype(np.complex64)) else np.dtype(np.float64)


def dft(kind, a, s=None, axes=None, norm=None):
    """kind: fftn ifftn rfftn irfftn (numpy conventions)"""
    from numpy import fft as nf

    nd = a.ndim
    if axes is None:
        axes = tuple(range(nd)) if s is None else tuple(range(nd - len(s), nd))
    axes = tuple(x % nd for x in axes)
    c = stack(a)
    if kind == "rfftn" and c.dtype.kind == "c":
        raise TypeError("x must be a real sequence")
    if kind != "rfftn":
        c = c.astype(complex)
    f = _np_fft[kind]
    r = f(c, s=s, axes=tuple(x + 1 for x in axes), norm=norm)
    return unstack(r, _rdt(a.dtype) if kind == "irfftn" else _cdt(a.dtype))


_np_fft = {k: getattr(np.fft, k) for k in ("fftn", "ifftn", "rfftn", "irfftn")}


def _lib_fn(name):
    base = {"2": "n"}.get(name[-1], "n")
    kind = name.rstrip("n2") + base
    two = name.endswith("2")
    one = name[-1] not in "n2"

    def f(x, s=None, axes=None, norm=None, overwrite_x=False, workers=None, **k):
        if one:
            n = s if s is not None else k.get("n")
            ax = k.get("axis", axes if axes is not None else -1)
            return dft(kind, x, s=None if n is None else (n,), axes=(ax,), norm=norm)
        if two and axes is None:
            axes = (-2, -1)
        return dft(kind, x, s=s, axes=axes, norm=norm)
    return f


_NAMES = ["fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "rfft2", "irfft2", "fftn", "ifftn", "rfftn", "irfftn"]
LIBFN = {n: _lib_fn(n) for n in _NAMES}


# -- pyfftw --------------------------------------------------------------------
def make_pyfftw():
    m = types.ModuleType("pyfftw")
    aligned_ids = {}

    def empty_aligned(shape, dtype="float64", order="C", n=None):
        shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        o = np.empty(tuple(int(x) for x in shape), dtype=object, order=order)
        dt = np.dtype(dtype)
        garbage(o, dt, "fftw")
        a = sarr.mk(o, dt)
        aligned_ids[sarr.raw(a).ctypes.data] = o
        return a

    def fixed(v):
        def f(shape, dtype="float64", order="C", n=None):
            a = empty_aligned(shape, dtype, order)
            a[...] = v
            return a
        return f

    def is_aligned(a):
        d = sarr.raw(a).ctypes.data
        return d in aligned_ids or ALIGNED[0]

    class FFTW:
        def __init__(self, input_array, output_array, axes=(-1,), direction="FFTW_FORWARD",
                     flags=("FFTW_MEASURE",), threads=1, planning_timelimit=None, normalise_idft=True, ortho=False):
            for x in (input_array, output_array):
                if not isinstance(x, np.ndarray):
                    raise ValueError("Invalid array")
            if isinstance(flags, str):
                raise TypeError("flags")
            for fl in flags:
                if fl not in ("FFTW_ESTIMATE", "FFTW_MEASURE", "FFTW_PATIENT", "FFTW_EXHAUSTIVE", "FFTW_UNALIGNED",
                              "FFTW_DESTROY_INPUT", "FFTW_WISDOM_ONLY"):
                    raise ValueError("Invalid flag: %s" % fl)
            if direction not in ("FFTW_FORWARD", "FFTW_BACKWARD"):
                raise Unsupported("direction %s" % direction)
            i, o = input_array.dtype, output_array.dtype
            fwd = direction == "FFTW_FORWARD"
            if i.kind == "c" and o.kind == "c" and i == o:
                kind = "c2c"
            elif i.kind == "f" and o.kind == "c" and _cdt(i) == o and fwd:
                kind = "r2c"
            elif i.kind == "c" and o.kind == "f" and _cdt(o) == i and not fwd:
                kind = "c2r"
            else:
                raise ValueError("Invalid scheme: The output array and input array dtypes do not correspond")
            if not isinstance(threads, (int, np.integer)) or threads < 1:
                raise Unsupported("threads")
            nd = input_array.ndim
            axes = tuple(x % nd for x in axes)
            if len(set(axes)) != len(axes):
                # pyfftw transforms a repeated axis repeatedly
                raise Unsupported("repeated axes")
            full = input_array.shape if kind != "c2r" else output_array.shape
            half = list(full)
            if kind != "c2c":
                half[axes[-1]] = full[axes[-1]] // 2 + 1
            want_i = tuple(half) if kind == "c2r" else tuple(full)
            want_o = tuple(half) if kind == "r2c" else tuple(full)
            if tuple(input_array.shape) != want_i or tuple(output_array.shape) != want_o:
                raise ValueError("Invalid shapes: The output array should be the same shape as the input array for the given array dtypes.")
            self.kind, self.axes, self.fwd = kind, axes, fwd
            self.full = tuple(full)
            self._i, self._o = input_array, output_array
            self._idt, self._odt = i, o
            self._ish, self._osh = input_array.shape, output_array.shape
            self._ist, self._ost = input_array.strides, output_array.strides
            self.flags = tuple(flags)
            self.normalise_idft, self.ortho = normalise_idft, ortho
            if ortho and normalise_idft:
                raise ValueError("Invalid options: ortho and normalise_idft cannot both be True at the same time.")
            self.destroys = (kind == "c2r" and len(axes) > 1) or "FFTW_DESTROY_INPUT" in flags
            self.unaligned = "FFTW_UNALIGNED" in flags
            if "FFTW_ESTIMATE" not in flags:
                garbage(sarr.raw(self._i), i, "plan")
                garbage(sarr.raw(self._o), o, "plan")

        input_array = property(lambda s: s._i)
        output_array = property(lambda s: s._o)
        input_shape = property(lambda s: s._ish)
        output_shape = property(lambda s: s._osh)
        input_dtype = property(lambda s: s._idt)
        output_dtype = property(lambda s: s._odt)
        N = property(lambda s: int(np.prod([s.full[x] for x in s.axes])))

        def update_arrays(self, a, b):
            for x, dt, sh, st, w in ((a, self._idt, self._ish, self._ist, "input"),
                                     (b, self._odt, self._osh, self._ost, "output")):
                if not isinstance(x, np.ndarray):
                    raise ValueError("Invalid %s array" % w)
                if not self.unaligned and not is_aligned(x) and w == "input":
                    raise ValueError("Invalid %s alignment" % w)
                if x.dtype != dt:
                    raise ValueError("Invalid %s dtype" % w)
                if tuple(x.shape) != tuple(sh):
                    raise ValueError("Invalid %s shape" % w)
                if tuple(x.strides) != tuple(st):
                    raise ValueError("Invalid %s striding" % w)
            self._i, self._o = a, b

        def execute(self):
            s = [self.full[x] for x in self.axes]
            a = self._i
            if self.kind == "r2c":
                r = dft("rfftn", a, axes=self.axes)
            elif self.kind == "c2r":
                r = dft("irfftn", a, s=s, axes=self.axes)
                r = r * float(self.N)
            elif self.fwd:
                r = dft("fftn", a, axes=self.axes)
            else:
                r = dft("ifftn", a, axes=self.axes) * float(self.N)
            if self.destroys:
                if isinstance(a, sarr.SArr):
                    garbage(_writable(a), a.dtype, "destroyed")
                else:
                    a[...] = np.nan
            if not isinstance(self._o, sarr.SArr):
                raise Unsupported("transform into a plain array")
            self._o[...] = r

        def __call__(self, input_array=None, output_array=None, normalise_idft=None, ortho=None):
            normalise_idft = self.normalise_idft if normalise_idft is None else normalise_idft
            if ortho or (ortho is None and self.ortho):
                raise Unsupported("orthogonal normalisation")
            if input_array is not None or output_array is not None:
                if input_array is None:
                    input_array = self._i
                if output_array is None:
                    output_array = self._o
                a = input_array
                if not isinstance(a, np.ndarray):
                    a = np.asarray(a)
                    copy = True
                elif a.dtype != self._idt or tuple(a.strides) != tuple(self._ist):
                    copy = True
                else:
                    copy = not self.unaligned and not is_aligned(a)
                if copy:
                    if tuple(a.shape) != tuple(self._ish):
                        raise ValueError("Invalid input shape: The new input array should be the same shape as the input array used to instantiate the object.")
                    self._i[...] = a
                    self.update_arrays(self._i, output_array)
                else:
                    self.update_arrays(a, output_array)
            self.execute()
            if not self.fwd and normalise_idft:
                self._o[...] = self._o * (1.0 / self.N)
            return self._o

    def _writable(a):
        r = sarr.raw(a)
        if not r.flags.c_contiguous:
            raise Unsupported("destroying a strided input")
        return r

    def builder(kind):
        def f(a, s=None, axes=None, overwrite_input=False, planner_effort=None, threads=None, auto_align_input=True,
              auto_contiguous=True, avoid_copy=False, norm=None, **k):
            # keeps the content of `a`; the object transforms a private copy
            nd = a.ndim
            if kind.endswith("2"):
                axes = axes or (-2, -1)

            class Obj:
                def __call__(self, input_array=None, output_array=None, normalise_idft=True, **kk):
                    x = a if input_array is None else input_array
                    r = LIBFN[kind](x, s=s, axes=axes, norm=norm)
                    if output_array is not None:
                        output_array[...] = r
                        return output_array
                    return r
            return Obj()
        return f

    b = types.ModuleType("pyfftw.builders")
    for n in _NAMES:
        setattr(b, n, builder(n))
    itf = types.ModuleType("pyfftw.interfaces")
    for sub in ("numpy_fft", "scipy_fft", "scipy_fftpack"):
        sm = types.ModuleType("pyfftw.interfaces." + sub)
        for n in _NAMES:
            setattr(sm, n, LIBFN[n])
        setattr(itf, sub, sm)
        sys.modules["pyfftw.interfaces." + sub] = sm
    itf.cache = types.SimpleNamespace(enable=lambda: None, disable=lambda: None, set_keepalive_time=lambda t: None)
    cfg = types.SimpleNamespace(NUM_THREADS=1, PLANNER_EFFORT="FFTW_MEASURE")
    m.empty_aligned = empty_aligned
    m.zeros_aligned = fixed(0.0)
    m.ones_aligned = fixed(1.0)
    m.FFTW = FFTW
    m.builders = b
    m.interfaces = itf
    m.config = cfg
    m.simd_alignment = 32
    m.is_byte_aligned = lambda a, n=None: is_aligned(a)
    m.byte_align = lambda a, n=None, dtype=None: a
    m.forget_wisdom = m.cleanup = lambda: None
    m.export_wisdom = lambda: (b"", b"", b"")
    m.import_wisdom = lambda w: (True, True, True)
    m.__version__ = "0.13.stub"
    sys.modules["pyfftw"] = m
    sys.modules["pyfftw.builders"] = b
    sys.modules["pyfftw.interfaces"] = itf
    return m


# -- numpy.linalg on linear data ---------------------------------------------------
def multi_dot(arrays, *, out=None):
    arrays = list(arrays)
    if len(arrays) < 2:
        raise ValueError("Expecting at least two arrays.")
    for x in arrays[1:-1]:
        if x.ndim != 2:
            raise ValueError("%d-dimensional array given. Array must be two-dimensional" % x.ndim)
    r = arrays[0]
    for x in arrays[1:]:
        r = sarr._dot(r, x)
    if out is not None:
        if out.dtype != np.result_type(*[x.dtype for x in arrays]) or tuple(out.shape) != tuple(r.shape) or \
                not sarr.raw(out).flags.c_contiguous:
            raise ValueError("output array is not acceptable (must have the right datatype, number of dimensions, and be a C-Array)")
        out[...] = r
        return out
    return r


_installed = []


def reset():
    """Called in the child process before a linear case."""
    del VARS[:], BOUND[:]
    BOUNDED.clear()
    _fresh[0] = 0
    ALIGNED[0] = True
    sarr.UNINIT_HOOK[0] = lambda o, dt, n: garbage(o, dt, "np")
    if _installed:
        return
    _installed.append(1)
    m = make_pyfftw()
    import scipy.fft as sf

    for n in _NAMES:
        def wrap(n=n, orig=getattr(sf, n)):
            def f(x, *a, **k):
                if isinstance(x, sarr.SArr):
                    return LIBFN[n](x, *a, **k)
                return orig(x, *a, **k)
            return f
        setattr(sf, n, wrap())
        sarr.FUNCS[n] = LIBFN[n]
    sarr.FUNCS["multi_dot"] = multi_dot
    sarr.FUNCS["meshgrid"] = _generic("meshgrid")
    for mod in list(sys.modules.values()):
        nm = getattr(mod, "__name__", "") or ""
        if nm.startswith("sopht"):
            for k, v in list(vars(mod).items()):
                if isinstance(v, types.ModuleType) and v.__name__ == "pyfftw":
                    setattr(mod, k, m)
                elif callable(v) and getattr(v, "__module__", "").startswith("scipy.fft") and k in _NAMES:
                    setattr(mod, k, getattr(sf, k))


def _generic(name):
    f = getattr(np, name)

    def g(*a, **k):
        return f(*[numeric(x) for x in a], **k)
    return g


def numeric(x):
    """All-number symbolic array -> numeric array (other values pass through)."""
    if isinstance(x, sarr.SArr):
        v = sarr.values(x)
        vals = v.reshape(-1).tolist()
        out = []
        for e in vals:
            if isinstance(e, sarr.C):
                if _isnum(e.re) and _isnum(e.im):
                    out.append(complex(e.re, e.im))
                    continue
                return x
            if isinstance(e, LinForm):
                return x
            out.append(e)
        return np.array(out, dtype=x.dtype).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(numeric(y) for y in x)
    return x
