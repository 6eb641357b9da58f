"""C11 boundary penalisation."""
from fractions import Fraction

from .common import again, cells, configs, mkcase, gen_kw, vshape, fld

FUNCTIONS = ["gen_penalise_field_boundary_pyst_kernel_2d/3d"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34 (widths 1, 3, 11, 35 in 2D and 2, 12 in 3D, 12 for fixed sizes only in the quick tier); float32/float64; num_threads False/2 "
          "(thorough 1,4,7); generic and fixed size; every width 0..n//2 of the smallest axis; scalar and vector; field symbolic; "
          "grid origin per axis symbolic, spacing 1/8, 0.3 and a symbolic positive value")
OUTSIDE = "floating-point rounding; non-uniform grid coordinates; other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def _gen(env, dim, threads, fixed, shape, width, dx, xs, ft):
    kw = gen_kw(env, threads, fixed, shape, width=width, dx=dx)
    kw.update(dict(zip(("x_grid_field", "y_grid_field", "z_grid_field"), xs)))
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_2d import penalise_field_boundary_2d as m
        return m.gen_penalise_field_boundary_pyst_kernel_2d(**kw)
    from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import penalise_field_boundary_3d as m
    return m.gen_penalise_field_boundary_pyst_kernel_3d(field_type=ft, **kw)


def grid(env, dim, shape, dx, dxs):
    """coordinate fields, one per axis (x first)"""
    out = []
    for a in range(dim):
        o = env.scalar("xyz"[a] + "0")

        def build(sh, idx):
            if not sh:
                return o + idx[dim - 1 - a] * dxs
            return [build(sh[1:], idx + (j,)) for j in range(sh[0])]
        out.append(env.array(build(shape, ())))
    return out


def reference(env, f, shape, width):
    """f: dict index -> value of one scalar field"""
    dim = len(shape)
    f = dict(f)
    for a in range(dim):
        ax = dim - 1 - a
        n = shape[ax]
        new = {}
        for i in f:
            x = i[ax]
            v = f[i]
            # front then back layer; they only meet when 2*width == n, and do not overlap
            for lo in (True, False):
                d = x if lo else n - 1 - x
                if d < width:
                    src = i[:ax] + ((width - 1) if lo else n - width,) + i[ax + 1:]
                    v = f[src] * env.sin(env.pi * env.frac(d, 2 * width))
            new[i] = v
        f = new
    return f


def c_pen(env, dim, threads, fixed, shape, strided, width, ft, dx):
    if dx == "sym":
        d = dxs = env.scalar("dx", lo=0, strict=True, stable=True)
        if env.concrete:
            d = dxs = 0.05 + d
    else:
        d = dx
        dxs = dx if env.concrete else env.symt.L(dx)
    xs = env.once("grid", lambda: grid(env, dim, shape, d, dxs))
    x0 = [env.snap(x) for x in xs]
    k = env.once(0, lambda: _gen(env, dim, threads, fixed, shape, width, d, xs, ft))
    vs = vshape(dim, ft, shape)
    f = fld(env, "f", vs, strided)
    f0 = env.snap(f)
    if ft == "vector":
        k(vector_field=f)
    else:
        k(field=f)
    s = env.snap(f)
    for c in range(dim) if ft == "vector" else [None]:
        pre = () if c is None else (c,)
        ref = reference(env, {i: f0[pre + i] for i in cells(shape)}, shape, width) if width else {i: f0[i_] for i, i_ in
                                                                                                 ((i, pre + i) for i in cells(shape))}
        for i in cells(shape):
            inner = all(width <= x < n - width for x, n in zip(i, shape))
            if inner:
                env.eq("cell outside the layers unchanged", s[pre + i], f0[pre + i])
            else:
                # cells of the layers: a layer cell's own old value must not matter, only the ramp and innermost value
                env.eq("sine ramp of the innermost layer value", s[pre + i], ref[i])
            if width and any(x in (0, n - 1) for x, n in zip(i, shape)):
                env.eq("zero on the outermost cells", s[pre + i], 0)
    for x, q in zip(xs, x0):
        env.unchanged("coordinates unchanged", x, q)


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, seed=seed)):
            small = max(c["shape"]) < 20
            ws = range(0, min(c["shape"]) // 2 + 1) if small else (1, 3, 11, 35) if dim == 2 else (2, 12) if c["fixed"] or tier != "quick" else (2,)
            for w in ws:
                for ft in ("scalar", "vector") if dim == 3 else ("scalar",):
                    if not small and ft == "vector":
                        continue
                    dxl = (0.125, 0.3, "sym") if small and n in (0, 3) and ft == "scalar" else ("sym",) if small and n % 2 else (0.25,)
                    for dx in dxl:
                        out.append(mkcase("pen", dim, c_pen, c, (ft, "w%d" % w, "dx%s" % dx), n in (1, 3, 6) and w != 2 or not small,
                                          params=dict(width=w, ft=ft, dx=dx)))
    return out + again(out, shapes=False)
