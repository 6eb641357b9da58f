"""C24 invalid configurations are refused at construction, valid ones accepted."""
import importlib

import numpy as np

from .common import Case
from .iolib import refused

FUNCTIONS = ["every gen_*_pyst_kernel_2d/3d, gen_laplacian_filter_kernel_3d, generate_*_kernel_2d/3d, EulerianLagrangianGridCommunicator2D/3D, "
             "VirtualBoundaryForcing, BrinkmannBoundaryForcing, UnboundedPoissonSolverPYFFTW2D/3D and IO constructors", "get_real_t, get_test_tol, get_pyst_dtype"]
BOUNDS = ("every string as field type, filter type, kernel type and precision name (symbolic string: equality decided over all strings, other operations over "
          "the named and 14 near-miss candidates; plain strings: the names, 14 near misses and 14 parts of names); every integer and every non-integer real as zone width, filter order, interpolation width, number of "
          "components and dimension (symbolic; once past the guards, sizes derived from them are enumerated within -4..6); 12 types as precision (symbolic choice)")
OUTSIDE = ("booleans and numpy integers as width or order; whole floating-point numbers other than 1 and 2; strings other than '2' and containers other than [2] as a number; python -O; the Python type `float` "
           "as a precision of the FFT, FastDiag, communicator and IO classes, which take any type; interpolation widths of the support and "
           "interpolation kernels on their own")
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source"]

BASE = ("scalar", "vector", "multiplicative", "convolution", "cosine", "peskin", "single", "double")
NEAR = ("", "Scalar", "SCALAR", "Vector", "scalars", "vectors", "scalar ", "tensor", "vec", "Cosine", "Convolution", "half", "float32", "Double")


def text(env, name):
    from lib import symcfg

    if env.concrete:
        if name in env.values:
            return symcfg.decode(env.values[name])
        return env.rnd.choice(BASE + NEAR)
    symcfg.install()
    return symcfg.SStr(env.integer(name, 0), BASE + NEAR)


def is_(env, s, const):
    from lib import symcfg

    if env.concrete:
        return s == const
    return env.eq_(s._t, symcfg.encode(const))


def number(env, name, real=False):
    """any integer, or any real that is not one"""
    if not env.concrete:
        from lib import symcfg

        symcfg.install()
    if not real:
        return env.integer(name, -4, 6)
    x = env.scalar(name, -4, 6)
    env.assume(env.not_(env.eq_(env.floor(x), x)))
    return x


TYPES = (np.float32, np.float64, np.float16, np.longdouble, np.int32, np.int64, np.complex64, np.complex128, "single", "float32", None, np.bool_)


def real_type(env):
    k = int(env.integer("precision", 0, len(TYPES) - 1))
    return TYPES[k], k < 2


def mod(path):
    m = importlib.import_module("sopht.numeric." + path)
    if not env_sym():
        return m
    from lib import symcfg

    symcfg.install()
    return m


def env_sym():
    import sys

    return "lib.symcfg" in sys.modules


def gens(dim):
    """{generator: (module, keyword arguments besides real_t)}, parameters that are checked are filled in by name"""
    b = "eulerian_grid_ops.stencil_ops_%dd." % dim
    d = "_%dd" % dim
    ft = {"field_type": "scalar"}
    g = {}

    def add(module, name, **kw):
        g[name + d] = (b + module + d, kw)

    E = "elementwise_ops"
    add(E, "gen_elementwise_sum_pyst_kernel", **ft)
    add(E, "gen_set_fixed_val_pyst_kernel", **ft)
    add(E, "gen_elementwise_copy_pyst_kernel")
    add(E, "gen_elementwise_complex_product_pyst_kernel")
    add(E, "gen_set_fixed_val_at_boundaries_pyst_kernel", width=2, **ft)
    add(E, "gen_add_fixed_val_pyst_kernel", **ft)
    add(E, "gen_elementwise_saxpby_pyst_kernel", **ft)
    add("char_func_from_level_set", "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel", blend_width=0.2)
    U = "update_vorticity_from_velocity_forcing"
    add(U, "gen_update_vorticity_from_velocity_forcing_pyst_kernel")
    add(U, "gen_update_vorticity_from_penalised_velocity_pyst_kernel")
    add("brinkmann_penalise", "gen_brinkmann_penalise_pyst_kernel", **ft)
    add("penalise_field_boundary", "gen_penalise_field_boundary_pyst_kernel", width=2, dx=0.125, **(ft if dim == 3 else {}))
    if dim == 2:
        add("advection_flux", "gen_advection_flux_conservative_eno3_pyst_kernel")
        add("advection_timestep", "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel")
        add("brinkmann_penalise", "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel", **ft)
        add("diffusion_flux", "gen_diffusion_flux_pyst_kernel")
        add("diffusion_timestep", "gen_diffusion_timestep_euler_forward_pyst_kernel")
        add("inplane_field_curl", "gen_inplane_field_curl_pyst_kernel")
        add("outplane_field_curl", "gen_outplane_field_curl_pyst_kernel")
    else:
        add(E, "gen_elementwise_cross_product_pyst_kernel")
        add("advection_flux", "gen_advection_flux_conservative_eno3_pyst_kernel")
        add("advection_timestep", "gen_advection_timestep_euler_forward_conservative_eno3_pyst_kernel", **ft)
        add("curl", "gen_curl_pyst_kernel")
        add("diffusion_flux", "gen_diffusion_flux_pyst_kernel", **ft)
        add("diffusion_timestep", "gen_diffusion_timestep_euler_forward_pyst_kernel", **ft)
        add("divergence", "gen_divergence_pyst_kernel")
        g["gen_laplacian_filter_kernel_3d"] = (b + "laplacian_filter_3d", dict(filter_order=1, filter_type="multiplicative", **ft))
        add("vorticity_stretching_flux", "gen_vorticity_stretching_flux_pyst_kernel")
        add("vorticity_stretching_timestep", "gen_vorticity_stretching_timestep_euler_forward_pyst_kernel")
        add("vorticity_stretching_timestep", "gen_vorticity_stretching_timestep_ssprk3_pyst_kernel", midstep_buffer_vector_field=None)
    return g


def build(env, dim, name, real_t=None, **over):
    module, kw = gens(dim)[name]
    kw = dict(kw, **over)
    n = 8
    if "penalise_field_boundary" in name:
        x = np.linspace(0.0625, 0.9375, n)
        for i, a in enumerate("xyz"[:dim]):
            sh = [1] * dim
            sh[dim - 1 - i] = n
            kw[a + "_grid_field"] = np.broadcast_to(x.reshape(sh), (n,) * dim).astype(env.base_t)
    if "laplacian" in name:
        kw["filter_flux_buffer"], kw["field_buffer"] = np.zeros((n,) * dim, env.base_t), np.zeros((n,) * dim, env.base_t)
    f = getattr(mod(module), name)
    return f(real_t=env.base_t if real_t is None else real_t[0], **kw)


def outcome(env, label, fn, valid):
    """fn is refused exactly when the configuration is not valid"""
    got = []
    no = refused(env, lambda: got.append(fn()))
    env.true("%s: an invalid value is refused" % label, env.or_(no, valid))
    env.true("%s: a valid value is accepted" % label, env.or_(not no, env.not_(valid)))
    if not no:
        env.true("%s: what is accepted gives a kernel" % label, got[0] is not None)
    return no


def c_ftype(env, dim, name):
    s = text(env, "field_type")
    outcome(env, "field type", lambda: build(env, dim, name, field_type=s), env.or_(is_(env, s, "scalar"), is_(env, s, "vector")))


def c_odd(env, dim, name, par, odd):
    """values of another kind than a string or a number"""
    v = odd[int(env.integer("which", 0, len(odd) - 1))]
    outcome(env, par + " of another kind", lambda: build(env, dim, name, **{par: v}), False)


def c_precision(env, dim, name, width):
    t, ok = real_type(env)
    over = {"width": width} if width is not None else {}
    outcome(env, "precision", lambda: build(env, dim, name, real_t=(t,), **over), ok)


def c_number(env, dim, name, par, low, real):
    x = number(env, par, real)
    over = {par: x}
    if "field_type" in gens(dim)[name][1] and env.boolean("vector"):
        over["field_type"] = "vector"
    outcome(env, par, lambda: build(env, dim, name, **over), False if real else env.le_(low, x))


def c_filter(env):
    s = text(env, "filter_type")
    vec = "vector" if env.boolean("vector") else "scalar"
    outcome(env, "filter type", lambda: build(env, 3, "gen_laplacian_filter_kernel_3d", filter_type=s, field_type=vec),
            env.or_(is_(env, s, "multiplicative"), is_(env, s, "convolution")))


def c_all_filter(env):
    """all parameters of the filter at once"""
    o = number(env, "filter_order")
    s, f = text(env, "filter_type"), text(env, "field_type")
    outcome(env, "filter", lambda: build(env, 3, "gen_laplacian_filter_kernel_3d", filter_type=s, field_type=f, filter_order=o),
            env.and_(env.le_(0, o), env.or_(is_(env, s, "multiplicative"), is_(env, s, "convolution")),
                     env.or_(is_(env, f, "scalar"), is_(env, f, "vector"))))


def ibmod(dim, com=True):
    return mod("immersed_boundary_ops.EulerianLagrangianGridCommunicator%dD" % dim)


def c_weights(env, dim, kind, real):
    w = number(env, "interp_kernel_width", real)
    f = getattr(ibmod(dim), "generate_%s_interpolation_weights_kernel_%dd" % (kind, dim))
    outcome(env, "interpolation width", lambda: f(dx=0.125, interp_kernel_width=w, real_t=env.base_t), env.eq_(w, 2) if not real else False)


def c_components(env, dim, which, real):
    n = number(env, "n_components", real)
    kw = dict(num_lag_nodes=3, interp_kernel_width=2, n_components=n)
    if which == "eulerian_to_lagrangian":
        kw["dx"] = 0.125
    f = getattr(ibmod(dim), "generate_%s_grid_interpolation_kernel_%dd" % (which, dim))
    outcome(env, "number of components", lambda: f(**kw), False if real else env.or_(env.eq_(n, 1), env.eq_(n, dim)))


def c_com(env, dim):
    com = getattr(ibmod(dim), "EulerianLagrangianGridCommunicator%dD" % dim)
    w, n, s = number(env, "interp_kernel_width"), number(env, "n_components"), text(env, "interp_kernel_type")
    outcome(env, "communicator", lambda: com(dx=0.125, eul_grid_coord_shift=0.0625, num_lag_nodes=3, interp_kernel_width=w, real_t=env.base_t,
                                             n_components=n, interp_kernel_type=s),
            env.and_(env.eq_(w, 2), env.or_(env.eq_(n, 1), env.eq_(n, dim)), env.or_(is_(env, s, "cosine"), is_(env, s, "peskin"))))


def c_forcing(env, cls, reset, real):
    m = mod("immersed_boundary_ops." + ("VirtualBoundaryForcing" if cls == "V" else "experimental.BrinkmannBoundaryForcing"))
    d = number(env, "grid_dim", real)
    w = 2 if env.boolean("default width") else number(env, "interp_kernel_width")
    if cls == "V":
        fn = lambda: m.VirtualBoundaryForcing(virtual_boundary_stiffness_coeff=1.0, virtual_boundary_damping_coeff=1.0, grid_dim=d, dx=0.125,  # noqa: E731
                                              num_lag_nodes=3, real_t=env.base_t, interp_kernel_width=w, enable_eul_grid_forcing_reset=reset)
    else:
        fn = lambda: m.BrinkmannBoundaryForcing(brinkmann_coeff=1.0, grid_dim=d, dx=0.125, eul_grid_coord_shift=0.0625, num_lag_nodes=3,  # noqa: E731
                                                interp_kernel_width=w, real_t=env.base_t, enable_eul_grid_flux_reset=reset)
    outcome(env, "forcing", fn, False if real else env.and_(env.or_(env.eq_(d, 2), env.eq_(d, 3)), env.eq_(w, 2)))


def c_forcing_precision(env, cls):
    m = mod("immersed_boundary_ops." + ("VirtualBoundaryForcing" if cls == "V" else "experimental.BrinkmannBoundaryForcing"))
    t, ok = real_type(env)
    d = 3 if env.boolean("3D") else 2
    if cls == "V":
        fn = lambda: m.VirtualBoundaryForcing(1.0, 1.0, d, 0.125, 3, t)  # noqa: E731
    else:
        fn = lambda: m.BrinkmannBoundaryForcing(1.0, d, 0.125, 0.0625, 3, 2, t)  # noqa: E731
    outcome(env, "precision of the forcing", fn, ok)


def c_io(env, real):
    from sopht.utils.IO import IO

    d = number(env, "dim", real)
    outcome(env, "dimension", lambda: IO(dim=d, real_dtype=env.base_t), False if real else env.or_(env.eq_(d, 2), env.eq_(d, 3)))


def c_solver(env, dim):
    t, ok = real_type(env)
    m = mod("eulerian_grid_ops.poisson_solver_%dd" % dim)
    if dim == 2:
        fn = lambda: m.UnboundedPoissonSolverPYFFTW2D(grid_size_y=4, grid_size_x=4, real_t=t)  # noqa: E731
    else:
        fn = lambda: m.UnboundedPoissonSolverPYFFTW3D(grid_size_z=4, grid_size_y=4, grid_size_x=4, real_t=t)  # noqa: E731
    outcome(env, "precision of the solver", fn, ok)


def c_real_t(env):
    from sopht.utils.precision import get_real_t, get_test_tol

    s = text(env, "precision_name")
    r = []
    ok = env.or_(is_(env, s, "single"), is_(env, s, "double"))
    no = refused(env, lambda: r.append(get_real_t(s)))
    env.true("an unknown precision name is refused", env.or_(no, ok))
    env.true("the precision names are accepted", env.or_(not no, env.not_(ok)))
    if r:
        env.true("single means 32 bits", env.implies(is_(env, s, "single"), r[0] is np.float32))
        env.true("double means 64 bits", env.implies(is_(env, s, "double"), r[0] is np.float64))
    no = refused(env, lambda: r.append(get_test_tol(precision=s)))
    env.true("an unknown precision name has no tolerance", env.or_(no, ok))
    env.true("the precision names have a tolerance", env.or_(not no, env.not_(ok)))
    if not no:
        m = {t: float(get_test_tol(n)) / float(np.finfo(t).eps) for n, t in (("single", np.float32), ("double", np.float64))}
        env.true("the tolerance is the same multiple of the machine epsilon for both", abs(m[np.float32] - m[np.float64]) <= 1e-5 * m[np.float64] and m[np.float64] >= 1)
        env.true("the tolerance is of the named precision", r[-1].dtype == np.dtype(r[0]) and float(r[-1]) == float(get_test_tol("single" if r[0] is np.float32 else "double")))
    env.true("the default names agree", np.dtype(get_real_t()) == get_test_tol().dtype)


def c_dtype(env):
    from sopht.utils.pyst_kernel_config import get_pyst_dtype

    t, ok = real_type(env)
    r = []
    no = refused(env, lambda: r.append(get_pyst_dtype(t)))
    env.true("refused exactly when unsupported", no == (not ok))
    if r:
        env.true("the data type is that of the precision", np.dtype(r[0]) == np.dtype(t))


# plain strings as well: containment in another string looks past the symbolic ones
PARTS = ("scal", "vec", "conv", "mult", "multiplicative, convolution", "tion", "cos", "pes", "e", ",", "sing", "doub", "cosine ", "peskin, cosine")
ODD_TEXT = (None, 0, 1, True, 1.5, b"scalar", ("scalar",), ["vector"]) + NEAR + PARTS


def c_names(env, dim, what):
    """plain strings which are no names of anything"""
    from sopht.utils.precision import get_real_t, get_test_tol

    odd = tuple(x for x in NEAR + PARTS if isinstance(x, str)) + BASE
    v = odd[int(env.integer("which", 0, len(odd) - 1))]
    good = {"filter": ("multiplicative", "convolution"), "kernel": ("cosine", "peskin"), "real_t": ("single", "double"), "tol": ("single", "double")}[what]
    fn = {"filter": lambda: build(env, 3, "gen_laplacian_filter_kernel_3d", filter_type=v),
          "kernel": lambda: getattr(ibmod(dim), "EulerianLagrangianGridCommunicator%dD" % dim)(
              dx=0.125, eul_grid_coord_shift=0.0625, num_lag_nodes=3, interp_kernel_width=2, real_t=env.base_t, n_components=1, interp_kernel_type=v),
          "real_t": lambda: get_real_t(v), "tol": lambda: get_test_tol(precision=v)}[what]
    outcome(env, what, fn, v in good)


ODD_NUM = (None, "2", [2], 1 + 1j, 2.0, 1.0, np.float64(2.0), np.float32(1.0))


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    kw = dict(validate=True, weight=20, max_paths=400)
    for dim in (2, 3):
        for g, (m, a) in gens(dim).items():
            n = g[4:].replace("_pyst_kernel", "")
            if "field_type" in a:
                out.append(Case("ftype-" + n, c_ftype, dict(dim=dim, name=g), **kw))
                out.append(Case("oddtype-" + n, c_odd, dict(dim=dim, name=g, par="field_type", odd=ODD_TEXT), **kw))
            out.append(Case("precision-" + n, c_precision, dict(dim=dim, name=g, width=None), **kw))
            for par, low in (("width", 0 if "penalise" in g else 1), ("filter_order", 0)):
                if par in a:
                    for real in (False, True):
                        out.append(Case("%s-%s-%s" % (par, n, "real" if real else "int"), c_number, dict(dim=dim, name=g, par=par, low=low, real=real), **kw))
                    out.append(Case("odd%s-%s" % (par, n), c_odd, dict(dim=dim, name=g, par=par, odd=ODD_NUM), **kw))
        for real in (False, True):
            for k in ("cosine", "peskin"):
                out.append(Case("weights%dd-%s-%d" % (dim, k, real), c_weights, dict(dim=dim, kind=k, real=real), **kw))
            for w in ("eulerian_to_lagrangian", "lagrangian_to_eulerian"):
                out.append(Case("components%dd-%s-%d" % (dim, w, real), c_components, dict(dim=dim, which=w, real=real), **kw))
        out.append(Case("names%dd-kernel" % dim, c_names, dict(dim=dim, what="kernel"), **kw))
        out.append(Case("communicator%dd" % dim, c_com, dict(dim=dim), **kw))
        out.append(Case("solver%dd" % dim, c_solver, dict(dim=dim), linear=True, **kw))
    out.append(Case("filter-type", c_filter, {}, **kw))
    for w in ("filter", "real_t", "tol"):
        out.append(Case("names-" + w, c_names, dict(dim=3, what=w), **kw))
    out.append(Case("filter-all", c_all_filter, {}, **kw))
    for cls in "VB":
        for real in (False, True):
            for reset in (False, True):
                out.append(Case("forcing-%s-%d-%d" % (cls, reset, real), c_forcing, dict(cls=cls, reset=reset, real=real), **kw))
        out.append(Case("forcing-precision-%s" % cls, c_forcing_precision, dict(cls=cls), **kw))
    for real in (False, True):
        out.append(Case("io-%d" % real, c_io, dict(real=real), **kw))
    out.append(Case("real_t", c_real_t, {}, **kw))
    out.append(Case("pyst_dtype", c_dtype, {}, **kw))
    return out
