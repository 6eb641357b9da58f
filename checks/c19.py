"""C19 nearest index and support distances."""
from .common import Case, cells
from .ib import communicator, gen

FUNCTIONS = ["generate_local_eulerian_grid_support_of_lagrangian_grid_kernel_2d/3d and the kernels they return",
             "EulerianLagrangianGridCommunicator2D/3D wiring"]
BOUNDS = ("every position written as shift + (k + theta) dx with k any integer from -1 on and theta any real in [0,1) (theta = 0, a node exactly on a grid "
          "point, included), every dx > 0 and every real shift; widths 1..3 (2 through the communicator), 1..3, 17 (and 5, 37, 40 in 2D) nodes, 2D and 3D, both declared precisions")
OUTSIDE = "floating-point rounding of positions within an ulp of a grid point; numba compilation (not installed, the decorated source is executed)"
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source"]


def c_support(env, dim, n, width, com):
    dx = env.scalar("dx", 0, 2, strict=True, free="hi")
    if env.concrete:
        env.assume(dx > 1e-2)
    shift = env.scalar("shift", -2, 2, free="both")
    if com:
        kern = communicator(env, dim, dx, shift, n, dim).local_eulerian_grid_support_of_lagrangian_grid_kernel
    else:
        kern = gen(dim, "local_eulerian_grid_support_of_lagrangian_grid")(
            dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n, interp_kernel_width=width)
    k = [[env.integer("k[%d,%d]" % (a, i), -1, 40, free="hi") for i in range(n)] for a in range(dim)]
    th = [[env.scalar("th[%d,%d]" % (a, i), 0, 1) for i in range(n)] for a in range(dim)]
    for row in th:
        for t in row:
            env.assume(env.lt(t, env.frac(1)))
            if env.concrete:
                env.assume(1e-3 < t < 1 - 1e-3)
    pos = env.array([[shift + (k[a][i] + th[a][i]) * dx for i in range(n)] for a in range(dim)])
    p0 = env.snap(pos)
    near = env.array([[env.integer("old[%d,%d]" % (a, i), -5, 5) for i in range(n)] for a in range(dim)], dtype=int)
    sup = env.field("sup", (dim,) + (2 * width,) * dim + (n,))
    kern(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
    nn, s = env.snap(near), env.snap(sup)
    for a in range(dim):
        for i in range(n):
            env.eq("nearest index is the cell at or just below the position", nn[a, i], k[a][i])
            for m in cells((2 * width,) * dim):
                off = m[dim - 1 - a] - width + 1
                env.eq("support entry is the signed distance to the grid point", s[(a,) + m + (i,)],
                       (k[a][i] + off) * dx + shift - p0[a, i])
    env.unchanged("positions unchanged", pos, p0)


def c_ongrid(env, dim, n):
    """nodes exactly on grid points (representable spacing, so that the real arithmetic is exact too)"""
    dx = env.frac(1, 8) if not env.concrete else 0.125
    shift = dx / 2
    kern = communicator(env, dim, dx, shift, n, 1).local_eulerian_grid_support_of_lagrangian_grid_kernel
    k = [[env.integer("k[%d,%d]" % (a, i), -1, 40, free="hi") for i in range(n)] for a in range(dim)]
    pos = env.array([[shift + k[a][i] * dx for i in range(n)] for a in range(dim)])
    near = env.zeros((dim, n), dtype=int)
    sup = env.field("sup", (dim,) + (4,) * dim + (n,))
    kern(local_eul_grid_support_of_lag_grid=sup, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
    nn, s = env.snap(near), env.snap(sup)
    for a in range(dim):
        for i in range(n):
            env.eq("a node on a grid point has that point as nearest", nn[a, i], k[a][i])
            for m in cells((4,) * dim):
                env.eq("distances of a node on a grid point", s[(a,) + m + (i,)], (m[dim - 1 - a] - 1) * dx)


def c_twice(env, dim):
    """two kernels of different set-ups used alternately with changing positions"""
    dx = [env.scalar("dx%d" % j, 0, 2, strict=True, free="hi") for j in range(2)]
    shift = [env.scalar("shift%d" % j, -2, 2, free="both") for j in range(2)]
    if env.concrete:
        env.assume(dx[0] > 1e-2 and dx[1] > 1e-2)
    n = [1, 2]
    kern = [communicator(env, dim, dx[j], shift[j], n[j], dim).local_eulerian_grid_support_of_lagrangian_grid_kernel for j in range(2)]
    near = [env.zeros((dim, n[j]), dtype=int) for j in range(2)]
    sup = [env.field("sup%d" % j, (dim,) + (4,) * dim + (n[j],)) for j in range(2)]
    want = [None, None]
    for step, j in enumerate((0, 1, 0, 1)):
        k = [[env.integer("k%d[%d,%d]" % (step, a, i), -1, 40, free="hi") for i in range(n[j])] for a in range(dim)]
        th = [[env.scalar("th%d[%d,%d]" % (step, a, i), 0, 1) for i in range(n[j])] for a in range(dim)]
        for row in th:
            for t in row:
                env.assume(env.lt(t, env.frac(1)))
                if env.concrete:
                    env.assume(1e-3 < t < 1 - 1e-3)
        pos = env.array([[shift[j] + (k[a][i] + th[a][i]) * dx[j] for i in range(n[j])] for a in range(dim)])
        kern[j](local_eul_grid_support_of_lag_grid=sup[j], nearest_eul_grid_index_to_lag_grid=near[j], lag_positions=pos)
        want[j] = k, env.snap(pos)
        for q in range(2):
            if want[q] is None:
                continue
            kk, pp = want[q]
            nn, s = env.snap(near[q]), env.snap(sup[q])
            for a in range(dim):
                for i in range(n[q]):
                    env.eq("nearest index after repeated use", nn[a, i], kk[a][i])
                    for m in cells((4,) * dim):
                        env.eq("support after repeated use", s[(a,) + m + (i,)], (kk[a][i] + m[dim - 1 - a] - 1) * dx[q] + shift[q] - pp[a, i])


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        out.append(Case("twice%dd" % dim, c_twice, dict(dim=dim), sym_real=True, validate=True, weight=100))
    T = tier == "thorough"
    for dim in (2, 3):
        for width in (1, 2, 3):
            for n in (1, 2, 3, 17) if dim == 3 or width != 2 else (1, 2, 3, 5, 37, 40):
                if (n > 3 and dim == 3 and width > 1) or dim == 3 and width == 3 and n > (2 if T else 1):
                    continue
                for com in ((True, False) if width == 2 else (False,)):
                    for rt in ("float64", "float32") if n == 2 or T else ("float64",):
                        out.append(Case("support%dd-w%d-N%d%s-%s" % (dim, width, n, "-com" if com else "", rt), c_support,
                                        dict(dim=dim, n=n, width=width, com=com), real_t=rt, sym_real=True, validate=True,
                                        weight=(2 * width) ** dim * n))
        for n in (1, 3):
            out.append(Case("ongrid%dd-N%d" % (dim, n), c_ongrid, dict(dim=dim, n=n), sym_real=True, validate=True))
    return out
