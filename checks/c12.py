"""C12 Laplacian filter."""
from .common import cells, configs, mkcase, gen_kw, vshape, sh

FUNCTIONS = ["gen_laplacian_filter_kernel_3d and the kernels it composes"]
BOUNDS = ("3D grids 5..7 per axis (non-cubic) and 9x17x12; float32/float64; num_threads False/2 (thorough 1,4,7); generic and fixed size; "
          "filter orders 0..3 (thorough 0..5), and 4, 5, 6, 8 (thorough 4..10, 12) on 4x5x6 and 4x4x5; both filter types; scalar and vector; field and both scratch buffers symbolic; "
          "three successive calls sharing the buffers, with foreign content in them or as the previous call left them")
OUTSIDE = "floating-point rounding; other grid sizes, orders and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]
KID = "filter-order-zero-stale-buffer"


def hp(env, f, shape, a):
    """one-dimensional quarter second difference along axis a (0=x), zero on the outermost ring"""
    q = env.frac(1, 4)
    inner = set(cells(shape, 1))
    return {i: q * (2 * f[i] - f[sh(i, a, 1)] - f[sh(i, a, -1)]) if i in inner else 0 for i in cells(shape)}


def reference(env, f, shape, order, kind):
    if kind == "multiplicative":
        g = f
        for _ in range(order):
            for a in range(3):
                g = hp(env, g, shape, a)
        return {i: f[i] - g[i] for i in f}
    for a in range(3):
        g = f
        for _ in range(order):
            g = hp(env, g, shape, a)
        f = {i: f[i] - g[i] for i in f}
    return f


def _gen(env, threads, fixed, shape, order, kind, ft, b1, b2):
    from sopht.numeric.eulerian_grid_ops.stencil_ops_3d.laplacian_filter_3d import gen_laplacian_filter_kernel_3d as g
    return g(filter_order=order, filter_flux_buffer=b1, field_buffer=b2, field_type=ft, filter_type=kind,
             **gen_kw(env, threads, fixed, shape))


def _call(k, ft, f):
    if ft == "scalar":
        k(scalar_field=f)
    else:
        k(vector_field=f)


def c_filter(env, dim, threads, fixed, shape, strided, order, kind, ft, calls=1):
    b1, b2 = env.field("b1", shape), env.field("b2", shape)
    k = _gen(env, threads, fixed, shape, order, kind, ft, b1, b2)
    vs = vshape(3, ft, shape)
    for n in range(calls):
        f = env.field("fg"[n], vs)
        f0 = env.snap(f)
        # the buffers are scratch space: whatever they hold when the filter is called must not matter
        b1[...] = env.field("b1%d" % n, shape)
        b2[...] = env.field("b2%d" % n, shape)
        _call(k, ft, f)
        s = env.snap(f)
        if n == 1:
            # calls following each other find the buffers as the previous call left them
            f = env.field("h", vs)
            f0 = env.snap(f)
            _call(k, ft, f)
            s = env.snap(f)
        for c in range(3) if ft == "vector" else [None]:
            pre = () if c is None else (c,)
            ref = reference(env, {i: f0[pre + i] for i in cells(shape)}, shape, order, kind)
            inner = set(cells(shape, 1))
            for i in cells(shape):
                if i in inner:
                    env.eq("filtered value", s[pre + i], ref[i])
                else:
                    env.eq("outermost ring unchanged", s[pre + i], f0[pre + i])


def c_linear_field(env, dim, threads, fixed, shape, strided, order, kind, ft):
    """a field linear along the axes is preserved away from the ring"""
    b1, b2 = env.field("b1", shape), env.field("b2", shape)
    k = _gen(env, threads, fixed, shape, order, kind, ft, b1, b2)
    vs = vshape(3, ft, shape)
    co = [[env.scalar("c%d%d" % (c, a)) for a in range(4)] for c in range(3)]

    def val(i):
        c = i[0] if ft == "vector" else 0
        z, y, x = i[-3:]
        return co[c][0] + co[c][1] * x + co[c][2] * y + co[c][3] * z

    def build(sh_, i):
        return val(i) if not sh_ else [build(sh_[1:], i + (j,)) for j in range(sh_[0])]
    f = env.array(build(vs, ()))
    f0 = env.snap(f)
    _call(k, ft, f)
    s = env.snap(f)
    # where the iterated stencil never meets the ring
    dep = order
    for i in cells(shape, 1):
        pres = [()] if ft == "scalar" else [(c,) for c in range(3)]
        if all(dep <= x < n - dep for x, n in zip(i, shape)) or order == 1 and all(1 <= x < n - 1 for x, n in zip(i, shape)):
            for p in pres:
                env.eq("linear field preserved", s[p + i], f0[p + i])


def c_zero_order(env, dim, threads, fixed, shape, strided, kind, ft):
    vs = vshape(3, ft, shape)
    f = env.field("f", vs)
    g = f.copy()
    f0 = env.snap(f)
    ba, bb = env.field("ba", shape), env.field("bb", shape)
    a0, b0 = env.snap(ba), env.snap(bb)
    _call(_gen(env, threads, fixed, shape, 0, kind, ft, ba, env.field("b2", shape)), ft, f)
    _call(_gen(env, threads, fixed, shape, 0, kind, ft, bb, env.field("b3", shape)), ft, g)
    s, t = env.snap(f), env.snap(g)
    m = 1 if kind == "multiplicative" else 3
    inner = set(cells(shape, 1))
    for i in cells(vs):
        j = i[-3:]
        if j in inner:
            env.eq("independent of buffer content", s[i], t[i],
                   known=(KID, env.and_(env.close(s[i], f0[i] - m * a0[j]), env.close(t[i], f0[i] - m * b0[j]))))
        else:
            env.eq("outermost ring unchanged", s[i], f0[i])


def cases(tier, seed):
    out = []
    orders = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    for n, c in enumerate(configs(3, tier, strided=False, mid=False, seed=seed)):
        for kind in ("multiplicative", "convolution"):
            for ft in ("scalar", "vector"):
                x = (kind[:4], ft)
                for o in orders:
                    if o > 1 and ft == "vector" and n % 3:
                        continue
                    if o > 2 and n % 2:
                        continue
                    out.append(mkcase("filter", 3, c_filter, c, x + ("o%d" % o,), n in (1, 2, 5),
                                      params=dict(order=o, kind=kind, ft=ft, calls=2 if ft == "scalar" and o < 3 else 1), weight=40 * o))
                if n in (0, 3):
                    out.append(mkcase("linear", 3, c_linear_field, c, x, True, params=dict(order=1, kind=kind, ft=ft)))
                    out.append(mkcase("linear", 3, c_linear_field, dict(c, shape=(7, 8, 6)), x + ("o2",), True,
                                      params=dict(order=2, kind=kind, ft=ft)))
                if n in (1, 2):
                    out.append(mkcase("order0", 3, c_zero_order, c, x, True, params=dict(kind=kind, ft=ft)))
    # high orders on small grids
    for m, o in enumerate((4, 5, 6, 8) if tier == "quick" else (4, 5, 6, 7, 8, 9, 10, 12)):
        for k, kind in enumerate(("multiplicative", "convolution")):
            for ft in ("scalar", "vector"):
                c = dict(real_t=("float64", "float32")[(m + k) % 2], threads=1 + m % 2, fixed=bool(m % 2), strided=False, shape=(4, 5, 6) if ft == "scalar" else (4, 4, 5))
                out.append(mkcase("high", 3, c_filter, c, (kind[:4], ft, "o%d" % o), True, params=dict(order=o, kind=kind, ft=ft), weight=60))
    c = dict(real_t="float64", threads=2, fixed=False, strided=False, shape=(9, 17, 12))
    for kind in ("multiplicative", "convolution"):
        out.append(mkcase("filter", 3, c_filter, c, (kind[:4], "o1"), True, params=dict(order=1, kind=kind, ft="scalar"), weight=150))
    return out
