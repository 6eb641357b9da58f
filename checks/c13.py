"""C13 independence of threads, size specialisation and precision; race freedom."""
import numpy as np

from .common import Case, SMALL2, SMALL3, cells, gen_kw
from .ops import ALL, Op
from .c11 import grid

FUNCTIONS = ["every pystencils kernel generator of the package (2D and 3D), utils/pyst_kernel_config.py"]
BOUNDS = ("grids 2D 6..11 per axis, 3D 5..7 per axis for equality of {float32,float64} x {num_threads False,1,2,4,7} x {generic, fixed "
          "size}; race queries on the same calls and on 2D 70x134 and 3D 24x41x34, with integer loop counters, for every "
          "pair (store, access) of every OpenMP loop; all values symbolic reals; aliasing as in the package's own calls")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts; races inside the OpenMP runtime or compiler"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST and OpenMP runs each iteration of an 'omp for' exactly once, "
               "in any order (checked on the compiled kernels for sampled values)"]


class Pen(Op):
    def __init__(self, dim, ft):
        super().__init__("pen" + ft[0], dim, "", "", "field:S" if ft == "scalar" else "vector_field:V",
                         "field" if ft == "scalar" else "vector_field")
        self.ft = ft

    def generate(self, env, threads, fixed, shape, real_t=None, **more):
        rt = np.dtype(real_t or env.base_t)
        xs = [x.astype(rt) for x in grid(env, self.dim, shape, 0.25, 0.25)]
        kw = gen_kw(env, threads, fixed, shape, width=2, dx=0.25)
        kw["real_t"] = real_t or env.real_t
        kw.update(dict(zip(("x_grid_field", "y_grid_field", "z_grid_field"), xs)))
        if self.dim == 2:
            from sopht.numeric.eulerian_grid_ops.stencil_ops_2d import penalise_field_boundary_2d as m
            return m.gen_penalise_field_boundary_pyst_kernel_2d(**kw)
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import penalise_field_boundary_3d as m
        return m.gen_penalise_field_boundary_pyst_kernel_3d(field_type=self.ft, **kw)


class Filt(Op):
    def __init__(self, kind, ft, order):
        super().__init__("filter-%s-%s%d" % (kind[:4], ft[0], order), 3, "", "", "scalar_field:S" if ft == "scalar" else "vector_field:V",
                         "scalar_field" if ft == "scalar" else "vector_field")
        self.ft, self.kind_, self.order = ft, kind, order

    def generate(self, env, threads, fixed, shape, real_t=None, **more):
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d.laplacian_filter_3d import gen_laplacian_filter_kernel_3d as g
        rt = np.dtype(real_t or env.base_t)
        kw = gen_kw(env, threads, fixed, shape)
        kw["real_t"] = real_t or env.real_t
        return g(filter_order=self.order, filter_flux_buffer=env.field("buf1", shape).astype(rt),
                 field_buffer=env.field("buf2", shape).astype(rt), field_type=self.ft, filter_type=self.kind_, **kw)


class Rk3(Op):
    def __init__(self):
        super().__init__("ssprk3", 3, "", "", "vorticity_field:V velocity_field:V vorticity_stretching_flux_field:V dt_by_2_dx:s",
                         "vorticity_field vorticity_stretching_flux_field")

    def generate(self, env, threads, fixed, shape, real_t=None, **more):
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d.vorticity_stretching_timestep_3d import (
            gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d as g)
        rt = np.dtype(real_t or env.base_t)
        kw = gen_kw(env, threads, fixed, shape)
        kw["real_t"] = real_t or env.real_t
        return g(midstep_buffer_vector_field=env.field("mid", (3,) + tuple(shape)).astype(rt), **kw)


OPS = ALL + [Pen(2, "scalar"), Pen(3, "scalar"), Pen(3, "vector"), Filt("multiplicative", "scalar", 1), Filt("convolution", "scalar", 2),
             Filt("convolution", "vector", 1), Rk3()]
CONF = [("float64", 2, False), ("float64", False, True), ("float64", 2, True), ("float32", False, False), ("float32", 2, False),
        ("float32", False, True), ("float32", 2, True)]
MORE = [("float64", 1, False), ("float64", 7, True), ("float32", 4, False), ("float64", 4, True)]


def _cast(env, inp, op, real_t):
    out = {}
    for a, k in op.args:
        v = inp[a]
        if k == "C":
            out[a] = v.astype("complex64" if real_t == "float32" else "complex128")
        elif k in "SV":
            out[a] = v.astype(np.dtype(real_t))
            if out[a] is v:
                out[a] = v.copy()
        else:
            out[a] = v
    return out


def c_equal(env, op, dim, shape, confs):
    inp = op.inputs(env, shape)
    base = _cast(env, inp, op, "float64")
    op.generate(env, False, False, shape, real_t=np.float64)(**base)
    want = {a: env.snap(base[a]) for a, _ in op.fields()}
    for real_t, th, fixed in confs:
        got = _cast(env, inp, op, real_t)
        op.generate(env, th, fixed, shape, real_t=getattr(np, real_t))(**got)
        lab = "same result for %s, %s threads, %s size" % (real_t, th, "fixed" if fixed else "generic")
        for a, k in op.fields():
            s = env.snap(got[a])
            for x, y in zip(s.flat, want[a].flat):
                env.eq(lab, x, y, **({"tol": 2e-3} if real_t == "float32" and env.concrete else {}))


def c_race(env, op, dim, shape, threads, fixed, real_t):
    if env.concrete:
        # a conflict shows as a difference between the threaded and the serial kernel
        big = shape if min(shape) > 20 else (96, 130) if dim == 2 else (40, 41, 34)
        inp = op.inputs(env, big)
        base = _cast(env, inp, op, "float64")
        op.generate(env, False, fixed, big, real_t=np.float64)(**base)
        want = {a: env.snap(base[a]) for a, _ in op.fields()}
        k = op.generate(env, max(threads, 4), fixed, big, real_t=np.float64)
        for _ in range(6):
            got = _cast(env, inp, op, "float64")
            k(**got)
            for a, _k in op.fields():
                w = np.asarray(want[a].flat).reshape(want[a].shape)
                env.true("threaded result equals the serial one", bool(np.allclose(got[a], w, rtol=1e-9, atol=1e-12)))
        return
    from lib import pystback, races
    pystback.LOG_CALLS[0] = True
    inp = op.inputs(env, shape)
    k = op.generate(env, threads, fixed, shape, real_t=getattr(np, real_t))
    del pystback.CALLS[:]
    env.pyst_run = k(**_cast(env, inp, op, real_t))
    seen = set()
    n = 0
    for kern, B in list(pystback.CALLS):
        key = (id(kern), str(sorted((x, y) for x, y in B.items() if not isinstance(y, env.symt.T))))
        if key in seen:
            continue
        seen.add(key)
        obs, par = races.obligations(kern, B)
        for lab, goal in obs:
            n += 1
            env.true("no two iterations conflict", goal)
    env.true("calls recorded", len(seen) > 0)


def cases(tier, seed):
    out = []
    for m, op in enumerate(OPS):
        small = SMALL2 if op.dim == 2 else SMALL3
        sh = small[(seed + m) % 4]
        confs = [c for c in CONF + MORE if not (op.nofix and c[2])]
        half = len(confs) // 2
        if op.name == "ssprk3":
            sh = (5, 7, 6)
        for n, cs in enumerate((confs[:half], confs[half:])):
            out.append(Case("equal%dd-%s-%d" % (op.dim, op.name, n), c_equal, dict(op=op, dim=op.dim, shape=sh, confs=cs),
                            validate=n == m % 2, weight=20 * (op.dim - 1)))
        for th, fx, rt in ((2, False, "float64"),) + (((4, True, "float32"),) if not op.nofix else ()):
            out.append(Case("race%dd-%s-t%d-%s" % (op.dim, op.name, th, "fix" if fx else "gen"), c_race,
                            dict(op=op, dim=op.dim, shape=sh, threads=th, fixed=fx, real_t=rt), validate=False, weight=10))
        if op.name in ("advflux", "curl", "sum-s", "ts-adv", "diff") or tier == "thorough":
            big = (70, 134) if op.dim == 2 else (24, 41, 34)
            if op.name == "ssprk3":
                big = (9, 17, 12)
            out.append(Case("race%dd-%s-big" % (op.dim, op.name), c_race,
                            dict(op=op, dim=op.dim, shape=big, threads=2, fixed=False, real_t="float64"), validate=True, weight=200))
    return out
