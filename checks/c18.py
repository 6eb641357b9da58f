"""C18 interpolation and spreading."""
import random

from .common import Case, cells, repeated
from .ib import communicator, gen

FUNCTIONS = ["(vector_field_)eulerian_to_lagrangian_grid_interpolation_kernel_2d/3d",
             "(vector_field_)lagrangian_to_eulerian_grid_interpolation_kernel_2d/3d", "EulerianLagrangianGridCommunicator2D/3D wiring"]
BOUNDS = ("non-square grids 2D 5x6 and 6x5, 3D 4x5x4, 5x4x4, 4x4x6 and 5x5x6; 1..3 nodes, every combination of nearest indices whose support lies "
          "inside the grid (one path each, coincident nodes included); every weight, Eulerian and Lagrangian value real; every dx > 0; "
          "widths 1, 2 and 3; scalar and vector; float64 and float32 declarations; 8..40 nodes at fixed positions on grids 40x37, 12x11, 9x70, 9x8x12, 7x7x6; repeated use of one communicator")
OUTSIDE = "floating-point rounding; numba compilation (not installed, the decorated Python source is executed); larger grids"
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source"]


MANY = 4


def setup(env, dim, grid, n, ncomp, width=2):
    dx = env.scalar("dx", 0, 2, strict=True, free="hi", stable=True)
    if env.concrete:
        env.assume(dx > 1e-2)
    interp, spread = env.once(0, lambda: kernels(env, dim, dx, n, ncomp, width))
    if n < MANY:
        near = [[env.integer("near[%d,%d]" % (a, i), width - 1, grid[dim - 1 - a] - width - 1) for i in range(n)] for a in range(dim)]
    else:
        # many nodes: fixed, partly coincident positions, the extreme ones included
        rnd = random.Random("%s%s%s" % (grid, n, env.tag))
        near = []
        for a in range(dim):
            lo, hi = width - 1, grid[dim - 1 - a] - width - 1
            near.append([lo if i == 1 else hi if i == 2 else rnd.randint(lo, hi) for i in range(n)])
    nearest = env.array(near, dtype=int)
    w = env.field("w", (2 * width,) * dim + (n,))
    eul = env.field("eul", grid if ncomp == 1 else (ncomp,) + grid)
    lag = env.field("lag", (n,) if ncomp == 1 else (ncomp, n))
    return dx, interp, spread, near, nearest, w, eul, lag


def kernels(env, dim, dx, n, ncomp, width):
    if width == 2:
        com = communicator(env, dim, dx, dx / 2, n, ncomp)
        interp = com.eulerian_to_lagrangian_grid_interpolation_kernel
        spread = com.lagrangian_to_eulerian_grid_interpolation_kernel
    else:
        interp = gen(dim, "eulerian_to_lagrangian_grid_interpolation")(
            dx=dx, num_lag_nodes=n, interp_kernel_width=width, n_components=ncomp)
        spread = gen(dim, "lagrangian_to_eulerian_grid_interpolation")(
            num_lag_nodes=n, interp_kernel_width=width, n_components=ncomp)
    return interp, spread


def supports(dim, near, n, width=2):
    """per node: list of (cell, weight index)"""
    pt = []
    for i in range(n):
        k = [int(near[a][i]) for a in range(dim)]
        pt.append([(tuple(k[dim - 1 - ax] - width + 1 + m[ax] for ax in range(dim)), m + (i,)) for m in cells((2 * width,) * dim)])
    return pt


def idx(ncomp, c, k):
    return k if ncomp == 1 else (c,) + k


def power(dx, dim):
    v = dx
    for _ in range(dim - 1):
        v = v * dx
    return v


def c_interp(env, dim, grid, n, ncomp, width=2):
    dx, interp, spread, near, nearest, w, eul, lag = setup(env, dim, grid, n, ncomp, width)
    e0, w0, n0 = env.snap(eul), env.snap(w), env.snap(nearest)
    interp(lag_grid_field=lag, eul_grid_field=eul, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    got = env.snap(lag)
    pt = supports(dim, near, n, width)
    for i in range(n):
        for c in range(ncomp):
            tot = 0
            for cell, m in pt[i]:
                tot = tot + e0[idx(ncomp, c, cell)] * w0[m]
            env.eq("interpolated value is the weighted sum over the node's own support", got[idx(ncomp, c, (i,))], tot * power(dx, dim))
    env.unchanged("Eulerian field unchanged by interpolation", eul, e0)
    env.unchanged("weights unchanged", w, w0)
    env.unchanged("indices unchanged", nearest, n0)


def c_spread(env, dim, grid, n, ncomp, width=2):
    dx, interp, spread, near, nearest, w, eul, lag = setup(env, dim, grid, n, ncomp, width)
    e0, w0, l0, n0 = env.snap(eul), env.snap(w), env.snap(lag), env.snap(nearest)
    spread(eul_grid_field=eul, lag_grid_field=lag, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    got = env.snap(eul)
    pt = supports(dim, near, n, width)
    add = {}
    for i in range(n):
        for c in range(ncomp):
            for cell, m in pt[i]:
                k = idx(ncomp, c, cell)
                add[k] = add.get(k, 0) + l0[idx(ncomp, c, (i,))] * w0[m]
    for k in cells(e0.shape):
        if k in add:
            env.eq("spread value adds every covering node's share", got[k], e0[k] + add[k])
        else:
            env.eq("cell outside every support unchanged", got[k], e0[k])
    env.unchanged("Lagrangian field unchanged by spreading", lag, l0)
    env.unchanged("weights unchanged", w, w0)
    env.unchanged("indices unchanged", nearest, n0)


def c_adjoint(env, dim, grid, n, ncomp):
    dx, interp, spread, near, nearest, w, eul, lag = setup(env, dim, grid, n, ncomp)
    l0, e0 = env.snap(lag), env.snap(eul)
    out = env.field("out", l0.shape)
    interp(lag_grid_field=out, eul_grid_field=eul, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    zero = env.zeros(e0.shape)
    spread(eul_grid_field=zero, lag_grid_field=lag, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    s, o = env.snap(zero), env.snap(out)
    lhs, rhs = 0, 0
    for k in cells(l0.shape):
        lhs = lhs + o[k] * l0[k]
    for k in cells(e0.shape):
        rhs = rhs + e0[k] * s[k]
    env.eq("spreading is the adjoint of interpolation", lhs, rhs * power(dx, dim))


def c_conserve(env, dim, grid, n, ncomp):
    """weights which sum to the inverse cell volume (proved in C17): constants are reproduced, total force is conserved"""
    dx, interp, spread, near, nearest, w, eul, lag = setup(env, dim, grid, n, ncomp)
    w0 = env.snap(w)
    last = (3,) * dim
    for i in range(n):
        tot = 0
        for m in cells((4,) * dim):
            if m != last:
                tot = tot + w0[m + (i,)]
        w[last + (i,)] = 1 / power(dx, dim) - tot
    l0 = env.snap(lag)
    vals = [env.scalar("const%d" % c) for c in range(ncomp)]
    const = env.field("cst", grid if ncomp == 1 else (ncomp,) + grid)
    for c in range(ncomp):
        if ncomp == 1:
            const[...] = vals[0]
        else:
            const[c] = vals[c]
    out = env.field("out", l0.shape)
    interp(lag_grid_field=out, eul_grid_field=const, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    o = env.snap(out)
    for i in range(n):
        for c in range(ncomp):
            env.eq("constant field reproduced", o[idx(ncomp, c, (i,))], vals[c])
    e0 = env.snap(eul)
    spread(eul_grid_field=eul, lag_grid_field=lag, interp_weights=w, nearest_eul_grid_index_to_lag_grid=nearest)
    s = env.snap(eul)
    for c in range(ncomp):
        tot = 0
        for k in cells(grid):
            tot = tot + s[idx(ncomp, c, k)] - e0[idx(ncomp, c, k)]
        want = 0
        for i in range(n):
            want = want + l0[idx(ncomp, c, (i,))]
        env.eq("total spread force times cell volume equals the total Lagrangian force", tot * power(dx, dim), want)


def cases(tier, seed):
    out = []
    T = tier == "thorough"
    plan = [(2, (5, 6), 2), (2, (6, 5), 1), (2, (5, 5), 3), (3, (4, 5, 4), 2), (3, (5, 4, 4), 2), (3, (4, 4, 6), 1)]
    if T:
        plan += [(2, (6, 7), 2), (2, (4, 7), 3), (3, (5, 6, 7), 1), (3, (5, 5, 5), 2), (3, (4, 5, 4), 3)]
    for dim, grid, n in plan:
        for ncomp in (1, dim):
            for rt in ("float64", "float32") if n == 1 else ("float64",):
                for nm, fn in (("interp", c_interp), ("spread", c_spread), ("adjoint", c_adjoint), ("conserve", c_conserve)):
                    out.append(Case("%s%dd-%s-N%d-c%d-%s" % (nm, dim, "x".join(map(str, grid)), n, ncomp, rt), fn,
                                    dict(dim=dim, grid=grid, n=n, ncomp=ncomp), real_t=rt, sym_real=True, max_paths=2000,
                                    validate=True, weight=n * ncomp * (6 if dim == 3 else 2)))
    for dim, grid, n in ((2, (40, 37), 40), (2, (12, 11), 32), (2, (9, 70), 17), (3, (9, 8, 12), 20), (3, (7, 7, 6), 8)) + (((3, (34, 9, 10), 33), (2, (66, 130), 130)) if T else ()):
        for ncomp in (1, dim):
            for nm, fn in (("interp", c_interp), ("spread", c_spread)):
                out.append(Case("%s%dd-%s-N%d-c%d" % (nm, dim, "x".join(map(str, grid)), n, ncomp), fn,
                                dict(dim=dim, grid=grid, n=n, ncomp=ncomp), sym_real=True, validate=True, weight=n * ncomp))
    for dim, grid, n in ((2, (8, 9), 4), (3, (5, 6, 5), 4)):
        for ncomp in (1, dim):
            for nm, fn in (("interp", c_interp), ("spread", c_spread)):
                out.append(repeated(Case("%s%dd-%s-N%d-c%d" % (nm, dim, "x".join(map(str, grid)), n, ncomp), fn,
                                         dict(dim=dim, grid=grid, n=n, ncomp=ncomp), sym_real=True, validate=True, weight=n * ncomp)))
    for dim, grid, width, n in ((2, (3, 4), 1, 2), (2, (6, 7), 3, 1), (3, (2, 3, 3), 1, 2)):
        for ncomp in (1, dim):
            out.append(Case("interp%dd-w%d-c%d" % (dim, width, ncomp), c_interp, dict(dim=dim, grid=grid, n=n, ncomp=ncomp, width=width),
                            sym_real=True, max_paths=2000, validate=True))
            out.append(Case("spread%dd-w%d-c%d" % (dim, width, ncomp), c_spread, dict(dim=dim, grid=grid, n=n, ncomp=ncomp, width=width),
                            sym_real=True, max_paths=2000, validate=True))
    return out
