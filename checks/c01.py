"""C01 elementwise operations."""
import itertools

from .common import *  # noqa: F401,F403
from .common import again, Case, cells, configs, mkcase, gen_kw, vshape, fld

FUNCTIONS = ["stencil_ops_2d/elementwise_ops_2d.py: all 8 generators", "stencil_ops_3d/elementwise_ops_3d.py: all 9 generators"]
BOUNDS = ("grids 2D 6..11 per axis (non-square) and 70x134, 3D 5..7 per axis and 24x41x34; float32/float64 variants; "
          "num_threads False/2 (thorough: 1,4,7); generic and fixed size; scalar and vector; all cell values and "
          "factors symbolic reals; boundary widths 1..n//2 (all); all in-place aliasings of sum, saxpby and add value")
OUTSIDE = "floating-point rounding (cell values are reals); other grid sizes and thread counts; overlapping but unequal views"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]
EXPLANATION = ("Each generated kernel's resolved pystencils AST is executed symbolically inside the real Python wrapper; for "
               "every cell of every array the final term must equal the documented term; z3 decides each distinct obligation")


def _mod(dim):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_2d import elementwise_ops_2d as m
    else:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import elementwise_ops_3d as m
    return m


def _gen(env, name, dim, threads, fixed, shape, **kw):
    f = getattr(_mod(dim), "gen_%s_pyst_kernel_%dd" % (name, dim))
    return env.once((name, dim), lambda: f(**gen_kw(env, threads, fixed, shape, **kw)))


def _comp(s, ft, dim, i):
    return i


def c_sum(env, dim, threads, fixed, shape, strided, ft, alias):
    k = _gen(env, "elementwise_sum", dim, threads, fixed, shape, field_type=ft)
    vs = vshape(dim, ft, shape)
    a = fld(env, "a", vs, strided)
    b = a if alias == "all" else fld(env, "b", vs, strided)
    out = {"": None, "1": a, "2": b, "all": a, "same": None}[alias]
    if alias == "same":
        b = a
    if out is None:
        out = fld(env, "o", vs, strided)
    sa, sb = env.snap(a), env.snap(b)
    k(sum_field=out, field_1=a, field_2=b)
    so = env.snap(out)
    for i in cells(vs):
        env.eq("sum", so[i], sa[i] + sb[i])
    if a is not out:
        env.unchanged("field_1 unchanged", a, sa)
    if b is not out:
        env.unchanged("field_2 unchanged", b, sb)


def c_saxpby(env, dim, threads, fixed, shape, strided, ft, alias):
    k = _gen(env, "elementwise_saxpby", dim, threads, fixed, shape, field_type=ft)
    vs = vshape(dim, ft, shape)
    a = fld(env, "a", vs, strided)
    b = a if alias in ("all", "same") else fld(env, "b", vs, strided)
    out = {"": None, "1": a, "2": b, "all": a, "same": None}[alias]
    if out is None:
        out = fld(env, "o", vs, strided)
    p, q = env.scalar("p"), env.scalar("q")
    sa, sb = env.snap(a), env.snap(b)
    k(sum_field=out, field_1=a, field_2=b, field_1_prefac=p, field_2_prefac=q)
    so = env.snap(out)
    for i in cells(vs):
        env.eq("saxpby", so[i], p * sa[i] + q * sb[i])
    if a is not out:
        env.unchanged("field_1 unchanged", a, sa)
    if b is not out:
        env.unchanged("field_2 unchanged", b, sb)


def c_set(env, dim, threads, fixed, shape, strided, ft):
    k = _gen(env, "set_fixed_val", dim, threads, fixed, shape, field_type=ft)
    vs = vshape(dim, ft, shape)
    a = fld(env, "a", vs, strided)
    if ft == "scalar":
        v = env.scalar("v")
        k(field=a, fixed_val=v)
    else:
        v = [env.scalar("v%d" % j) for j in range(dim)]
        k(vector_field=a, fixed_vals=v)
    s = env.snap(a)
    for i in cells(vs):
        env.eq("set", s[i], v if ft == "scalar" else v[i[0]])


def c_copy(env, dim, threads, fixed, shape, strided):
    k = _gen(env, "elementwise_copy", dim, threads, fixed, shape)
    a, b = fld(env, "a", shape, strided), fld(env, "b", shape, strided)
    sb = env.snap(b)
    k(field=a, rhs_field=b)
    env.all_eq("copy", a, sb)
    env.unchanged("rhs_field unchanged", b, sb)


def c_add(env, dim, threads, fixed, shape, strided, ft, alias):
    k = _gen(env, "add_fixed_val", dim, threads, fixed, shape, field_type=ft)
    vs = vshape(dim, ft, shape)
    a = fld(env, "a", vs, strided)
    out = a if alias else fld(env, "o", vs, strided)
    sa = env.snap(a)
    if ft == "scalar":
        v = env.scalar("v")
        k(sum_field=out, field=a, fixed_val=v)
    else:
        v = [env.scalar("v%d" % j) for j in range(dim)]
        k(sum_field=out, vector_field=a, fixed_vals=v)
    s = env.snap(out)
    for i in cells(vs):
        env.eq("add", s[i], sa[i] + (v if ft == "scalar" else v[i[0]]))
    if not alias:
        env.unchanged("field unchanged", a, sa)


def c_cplx(env, dim, threads, fixed, shape, strided):
    k = _gen(env, "elementwise_complex_product", dim, threads, fixed, shape)
    cd = "complex64" if env.case.real_t == "float32" else "complex128"
    a, b, o = (env.cfield(n, shape, cd) for n in "abo")
    sa, sb = env.snap(a), env.snap(b)
    k(product_field=o, field_1=a, field_2=b)
    so = env.snap(o)
    for i in cells(shape):
        x, y, z = sa[i], sb[i], so[i]
        env.eq("real part", z.real, x.real * y.real - x.imag * y.imag)
        env.eq("imaginary part", z.imag, x.real * y.imag + x.imag * y.real)
    for n, f, s in (("field_1", a, sa), ("field_2", b, sb)):
        t = env.snap(f)
        for i in cells(shape):
            env.eq(n + " unchanged", t[i].real, s[i].real)
            env.eq(n + " unchanged", t[i].imag, s[i].imag)


def c_cross(env, dim, threads, fixed, shape, strided, alias=""):
    k = _gen(env, "elementwise_cross_product", dim, threads, fixed, shape)
    vs = (3,) + tuple(shape)
    a = fld(env, "a", vs, strided)
    b = a if alias == "same" else fld(env, "b", vs, strided)
    o = fld(env, "o", vs, strided)
    sa, sb = env.snap(a), env.snap(b)
    k(result_field=o, field_1=a, field_2=b)
    so = env.snap(o)
    for c in range(3):
        d, e = (c + 1) % 3, (c + 2) % 3
        for i in cells(shape):
            env.eq("cross", so[(c,) + i], sa[(d,) + i] * sb[(e,) + i] - sa[(e,) + i] * sb[(d,) + i])
    env.unchanged("field_1 unchanged", a, sa)
    env.unchanged("field_2 unchanged", b, sb)


def c_bnd(env, dim, threads, shape, strided, ft, width, fixed=None):
    f = getattr(_mod(dim), "gen_set_fixed_val_at_boundaries_pyst_kernel_%dd" % dim)
    k = env.once(0, lambda: f(real_t=env.real_t, width=width, num_threads=threads, field_type=ft))
    vs = vshape(dim, ft, shape)
    a = fld(env, "a", vs, strided)
    sa = env.snap(a)
    if ft == "scalar":
        v = env.scalar("v")
        k(field=a, fixed_val=v)
    else:
        v = [env.scalar("v%d" % j) for j in range(dim)]
        k(vector_field=a, fixed_vals=v)
    s = env.snap(a)
    for i in cells(vs):
        j = i[-dim:]
        near = any(x < width or x >= n - width for x, n in zip(j, shape))
        want = (v if ft == "scalar" else v[i[0]]) if near else sa[i]
        env.eq("boundary set" if near else "interior kept", s[i], want)


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, seed=seed)):
            val = n in (1, 2, 5)
            for ft in ("scalar", "vector"):
                al = ("", "1", "2", "all", "same") if not c["strided"] and max(c["shape"]) < 20 else ("",)
                for a in al:
                    if a and n not in (0, 3, 4, 7):
                        continue
                    v = val and not a or (n == 3 and a == "1")
                    out.append(mkcase("sum", dim, c_sum, c, (ft, a), v, params=dict(ft=ft, alias=a)))
                    out.append(mkcase("saxpby", dim, c_saxpby, c, (ft, a), v, params=dict(ft=ft, alias=a)))
                    if a in ("", "1"):
                        out.append(mkcase("add", dim, c_add, c, (ft, a), v, params=dict(ft=ft, alias=a)))
                out.append(mkcase("set", dim, c_set, c, (ft,), val, params=dict(ft=ft)))
            out.append(mkcase("copy", dim, c_copy, c, (), val))
            if not c["strided"]:
                out.append(mkcase("complex", dim, c_cplx, c, (), val))
            if dim == 3:
                out.append(mkcase("cross", dim, c_cross, c, (), val))
                if n == 0:
                    out.append(mkcase("cross", dim, c_cross, c, ("same",), val, params=dict(alias="same")))
            # boundary setter: all widths of the small grid, one of the large
            if c["fixed"]:
                continue
            ws = range(1, min(c["shape"]) // 2 + 1) if max(c["shape"]) < 20 else (5, 17, 35) if dim == 2 else (5, 12)
            for ft in ("scalar", "vector"):
                for w in ws:
                    cc = mkcase("bnd", dim, c_bnd, c, (ft, "w%d" % w), n == 2 or w == 1 and n == 0, params=dict(ft=ft, width=w))
                    out.append(cc)
    return out + again(out)
