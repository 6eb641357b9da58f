"""C10 level-set characteristic function."""
from .common import again, cells, configs, mkcase, gen_kw, fld

FUNCTIONS = ["gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_2d/3d"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34; float32/float64; num_threads False/2 (thorough 1,4,7); "
          "generic and fixed size; level set symbolic reals; blend widths 0.3, 1, 2.5, 1/3 and a symbolic positive width")
OUTSIDE = "floating-point rounding (in particular of the blend width itself); other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)",
               "sin is an odd, 1-Lipschitz function with the usual values at multiples of pi/2 (used for range and monotonicity)"]


def _gen(env, dim, threads, fixed, shape, w):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_2d import char_func_from_level_set_2d as m
    else:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import char_func_from_level_set_3d as m
    f = getattr(m, "gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_%dd" % dim)
    return env.once(0, lambda: f(blend_width=w, **gen_kw(env, threads, fixed, shape)))


def c_char(env, dim, threads, fixed, shape, strided, width, prop=False):
    if width == "sym":
        w = env.scalar("w", lo=0, strict=True, stable=True)
    elif width == "third":
        w = 1 / 3 if env.concrete else env.frac(1, 3)
    else:
        w = width
    k = _gen(env, dim, threads, fixed, shape, 1 / 3 if width == "third" else w)
    phi, o = fld(env, "phi", shape, strided), fld(env, "o", shape, strided)
    p0 = env.snap(phi)
    k(char_func_field=o, level_set_field=phi)
    s = env.snap(o)
    half = env.frac(1, 2)

    def blend(x):
        return half * (1 + x / w + env.sin(env.pi * x / w) / env.pi)

    def sn(x):
        return env.sin(env.pi * x / w)

    def lip(x):
        """sin is 1-Lipschitz and zero at +-pi"""
        if env.concrete:
            return ()
        return tuple(env.le_(env.abs(sn(x)), env.abs(env.pi * x / w - env.pi * y / w)) for y in (w, -w))

    for i in cells(shape):
        x = p0[i]
        want = env.ite(env.le_(w, x), 1, env.ite(env.le_(x, -w), 0, blend(x)))
        env.eq("sine-smoothed Heaviside", s[i], want, assume=lip(x))
    env.unchanged("level set unchanged", phi, p0)
    if not prop:
        return
    # range, monotonicity and symmetry on pairs of cells
    idx = cells(shape)[:10]

    for a in idx:
        env.le("not below 0", 0, s[a], assume=lip(p0[a]))
        env.le("not above 1", s[a], 1, assume=lip(p0[a]))
    for a, b in zip(idx[::2], idx[1::2]):
        x, y = p0[a], p0[b]
        f = lip(x) + lip(y)
        if not env.concrete:
            f += (env.le_(env.abs(sn(x) - sn(y)), env.abs(env.pi * x / w - env.pi * y / w)),)
        env.le("non-decreasing", s[a], s[b], assume=f + (env.le_(x, y),))
        f = (env.eq_(x, -y),)
        if not env.concrete:
            f += (env.eq_(sn(x), -sn(y)),)      # sin is odd
        env.eq("H(x) + H(-x) = 1", s[a] + s[b], 1, assume=f)


def c_points(env, dim, threads, fixed, shape, strided, width):
    """exact values at zero and at both ends of the blend zone"""
    w = env.scalar("w", lo=0, strict=True, stable=True) if width == "sym" else width
    k = _gen(env, dim, threads, fixed, shape, w)
    n = 0
    rows = []
    vals = (0, w, -w, 2 * w, -3 * w, w / 2, -w / 2)

    def build(sh):
        nonlocal n
        if not sh:
            n += 1
            return vals[n % 7] + 0 * w
        return [build(sh[1:]) for _ in range(sh[0])]

    phi = env.array(build(shape))
    o = fld(env, "o", shape)
    k(char_func_field=o, level_set_field=phi)
    s = env.snap(o)
    want = (env.frac(1, 2), 1, 0, 1, 0, None, None)
    n = 0
    for i in cells(shape):
        n += 1
        if want[n % 7] is not None:
            env.eq("value at 0, +-w and beyond", s[i], want[n % 7])


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, seed=seed)):
            small = max(c["shape"]) < 20
            ws = (0.3, 1, 2.5, "third", "sym") if small else (0.75,)
            for w in ws:
                out.append(mkcase("char", dim, c_char, c, ("w%s" % w,), n in (1, 2, 5) and w in (0.3, 2.5) or n == 0 and w in (1, "sym"),
                                  params=dict(width=w, prop=small)))
                if small and n in (0, 3, 6):
                    if w != "third":
                        out.append(mkcase("points", dim, c_points, c, ("w%s" % w,), n == 3, params=dict(width=w)))
    return out + again(out)
