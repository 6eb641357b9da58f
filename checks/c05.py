"""C05 advection conservation."""
import random

from .common import again, cells, configs, mkcase, sh, Case
from .ops import ADV, TS

FUNCTIONS = ["gen_advection_flux_conservative_eno3_2d/3d", "gen_advection_timestep_euler_forward_conservative_eno3_2d/3d (scalar, vector)"]
BOUNDS = ("per-cell: for every cell j of the core (4 cells from the boundary) of grids 13x11, 10x14 / 9x10x9, 10x9x11, field "
          "nonzero only at j (symbolic), velocities everywhere symbolic of any sign including zero and opposite: the flux sums "
          "to zero; whole-field: every core cell symbolic on 13x11, 22x27 / 9x10x9, 12x11x13; both precisions, threads False/2, generic and "
          "fixed size")
OUTSIDE = "floating-point rounding of the sum; other grid sizes"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)",
               "per-cell conservation gives conservation of any field because the flux is linear in the field for given "
               "velocities (C05 whole-field cases and C06 establish that form)"]
G = {2: [(13, 11), (10, 14), (10, 10)], 3: [(9, 10, 9), (10, 9, 11), (11, 10, 9)]}


def _field_only(env, shape, js, name="f"):
    f = env.zeros(shape)
    for j in js:
        f[j] = env.scalar("%s[%s]" % (name, ",".join(map(str, j))))
    return f


def _near(shape, js, r):
    return [i for i in cells(shape) if any(all(abs(a - b) <= r for a, b in zip(i, j)) for j in js)]


def _vel(env, dim, shape):
    return env.field("v", (dim,) + tuple(shape))


def c_cell(env, dim, threads, fixed, shape, strided):
    op = ADV[dim - 2]
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    v = _vel(env, dim, shape)
    p = env.scalar("p")
    for j in cells(shape, 4):
        f = _field_only(env, shape, [j])
        o = env.zeros(shape)
        k(advection_flux=o, field=f, velocity=v, inv_dx=p)
        s = env.snap(o)
        tot = 0
        for x in s.flat:
            tot = tot + x
        env.eq("flux of one cell's content sums to zero", tot, 0)


def c_pairs(env, dim, threads, fixed, shape, strided, n):
    """every pair / block of adjacent core cells all symbolic"""
    op = ADV[dim - 2]
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    v = _vel(env, dim, shape)
    p = env.scalar("p")
    core = set(cells(shape, 4))
    for j in sorted(core):
        for a in range(dim):
            js = [sh(j, a, d) for d in range(n)]
            if not all(x in core for x in js):
                continue
            f = _field_only(env, shape, js)
            o = env.zeros(shape)
            k(advection_flux=o, field=f, velocity=v, inv_dx=p)
            tot = 0
            for x in env.snap(o).flat:
                tot = tot + x
            env.eq("flux of adjacent cells' content sums to zero", tot, 0)


def c_ts(env, dim, threads, fixed, shape, strided, ft):
    op = [o for o in TS if o.dim == dim and o.name.startswith("ts-adv") and (dim == 2 or o.name.endswith(ft[0]))][0]
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    v = _vel(env, dim, shape)
    p = env.scalar("p")
    core = cells(shape, 4)
    for j in core:
        if ft == "scalar":
            f = _field_only(env, shape, [j])
        else:
            f = env.zeros((dim,) + shape)
            for c in range(dim):
                f[(c,) + j] = env.scalar("f%d" % c)
        buf = env.field("stale", shape)
        s0 = env.snap(f)
        k(**{op.args[0][0]: f, "advection_flux": buf, "velocity": v, "dt_by_dx": p})
        s1 = env.snap(f)
        # the stale buffer's ring may not leak: sum over everything
        for c in ([()] if ft == "scalar" else [(c,) for c in range(dim)]):
            a = b = 0
            for i in cells(shape):
                a = a + s1[c + i]
                b = b + s0[c + i]
            env.eq("time step keeps the sum", a, b)


def c_whole(env, dim, threads, fixed, shape, strided, block):
    """a block of core cells, everything symbolic"""
    op = ADV[dim - 2]
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    v = _vel(env, dim, shape)
    p = env.scalar("p")
    js = [i for i in cells(shape, 4) if all(x < 4 + b for x, b in zip(i, block))]
    f = _field_only(env, shape, js)
    o = env.zeros(shape)
    k(advection_flux=o, field=f, velocity=v, inv_dx=p)
    tot = 0
    for x in env.snap(o).flat:
        tot = tot + x
    env.eq("flux of a block sums to zero", tot, 0)


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, strided=False, mid=False, seed=seed)):
            c = dict(c, shape=G[dim][n % 3])
            val = n in (1, 2, 5)
            out.append(mkcase("cell", dim, c_cell, c, (), val, weight=30))
            if n < 4 or tier == "thorough":
                out.append(mkcase("pairs", dim, c_pairs, c, ("2",), val, params=dict(n=2), weight=30))
            for ft in ("scalar",) if dim == 2 else ("scalar", "vector"):
                out.append(mkcase("ts", dim, c_ts, c, (ft,), val, params=dict(ft=ft), weight=40))
            if n in (0, 3):
                b = (9, 9, 9)[:dim]
                out.append(mkcase("whole", dim, c_whole, c, (), val, params=dict(block=b), weight=60))
    c = dict(real_t="float64", threads=2, fixed=False, strided=False)
    out.append(mkcase("cell", 2, c_cell, dict(c, shape=(9, 70)), (), True, weight=100))
    out.append(mkcase("cell", 3, c_cell, dict(c, shape=(9, 9, 34)), (), True, weight=100))
    out.append(mkcase("whole", 2, c_whole, dict(c, shape=(22, 27)), (), True, params=dict(block=(99, 99)), weight=100))
    out.append(mkcase("whole", 3, c_whole, dict(c, shape=(12, 11, 13)), (), True, params=dict(block=(9, 9, 9)), weight=100))
    if tier == "thorough":
        out.append(mkcase("cell", 2, c_cell, dict(c, shape=(65, 24)), (), True, weight=100))
        out.append(mkcase("cell", 3, c_cell, dict(c, shape=(24, 9, 16)), (), True, weight=100))
        out.append(mkcase("whole", 2, c_whole, dict(c, shape=(66, 40)), (), True, params=dict(block=(99, 99)), weight=100))
    return out + again(out, shapes=False)
