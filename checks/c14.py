"""C14 unbounded Poisson solver."""
import math

from .common import Case, cells

FUNCTIONS = ["UnboundedPoissonSolverPYFFTW2D (__init__, solve)", "UnboundedPoissonSolverPYFFTW3D (__init__, solve, vector_field_solve)",
             "FFTPyFFTW2D/3D plans", "set_fixed_val / elementwise_copy / elementwise_complex_product kernels (interpreted)"]
BOUNDS = ("2D grids up to 9 per axis and 3D grids up to 5 per axis with different sizes per axis, ranges 0.7..2.5; "
          "float32/float64; num_threads 1 and 2; grids 2x35, 37x2, 2x2x18, and 34x66, 65x20, 9x17x10 with three point sources of any strength; up to three successive solves, on new arrays or on the same arrays refilled; every right-hand side and every "
          "content of solution arrays and uninitialised buffers (linear arithmetic, agreement within 1e-7 / 1e-3)")
OUTSIDE = ("other grid sizes and ranges; rounding inside FFTW; plans called directly by the user between solves")
ASSUMPTIONS = ["pyFFTW honours its documented contract (replaced by a model of it in the symbolic runs, the real library in the concrete ones)",
               "pystencils' generated C implements its typed AST"]
EXPLANATION = ("the solver classes run on affine forms over every input cell; z3 decides in linear real arithmetic that each "
               "solution cell equals the Green-function sum for every right-hand side")


def green(dim, dx, off):
    r = dx * math.sqrt(sum(o * o for o in off))
    if dim == 2:
        if r == 0:
            return -(2 * math.log(dx / math.sqrt(math.pi)) - 1) / (4 * math.pi)
        return -math.log(r) / (2 * math.pi)
    return 1 / (4 * math.pi * (r if r else dx))


def make(env, dim, shape, xr, threads):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import UnboundedPoissonSolverPYFFTW2D as S
        return S(grid_size_y=shape[0], grid_size_x=shape[1], x_range=xr, num_threads=threads, real_t=env.real_t)
    from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import UnboundedPoissonSolverPYFFTW3D as S
    return S(grid_size_z=shape[0], grid_size_y=shape[1], grid_size_x=shape[2], x_range=xr, num_threads=threads,
             real_t=env.real_t)


def expect(env, label, sol, rhs, shape, dim, dx):
    tab = {}
    cs = cells(shape)
    for i in cs:
        acc = 0.0
        for j in cs:
            off = tuple(abs(a - b) for a, b in zip(i, j))
            if off not in tab:
                tab[off] = green(dim, dx, off)
            acc = acc + rhs[j] * tab[off]
        env.eq(label, sol[i] * (1.0 / dx ** dim), acc)


def strided(env, name, shape):
    big = env.field(name, tuple(s + 2 for s in shape))
    return big, env.snap(big), big[tuple(slice(1, 1 + s) for s in shape)]


def c_solve(env, dim, shape, xr, threads, solves, align, view):
    env.alignment(align)
    s = make(env, dim, shape, xr, threads)
    dx = xr / shape[-1]
    inner = set(tuple(x + 1 for x in i) for i in cells(shape))
    for n in range(solves):
        if view:
            bs, bs0, sol = strided(env, "sol%d" % n, shape)
            br, br0, rhs = strided(env, "rhs%d" % n, shape)
        else:
            sol, rhs = env.field("sol%d" % n, shape), env.field("rhs%d" % n, shape)
        r0 = env.snap(rhs)
        s.solve(solution_field=sol, rhs_field=rhs)
        expect(env, "solve %d is the Green-function sum" % n, env.snap(sol), r0, shape, dim, dx)
        env.unchanged("right-hand side of solve %d unchanged" % n, rhs, r0)
        if view:
            env.unchanged("memory around the right-hand side", br, br0)
            b = env.snap(bs)
            for i in cells(b.shape):
                if i not in inner:
                    env.eq("memory around the solution", b[i], bs0[i])


def c_vector(env, dim, shape, xr, threads, align):
    env.alignment(align)
    s = make(env, dim, shape, xr, threads)
    sol, rhs = env.field("sol", (3,) + tuple(shape)), env.field("rhs", (3,) + tuple(shape))
    r0 = env.snap(rhs)
    s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)
    o = env.snap(sol)
    for c in range(3):
        expect(env, "vector solve, component %s" % "xyz"[c], o[c], r0[c], shape, dim, xr / shape[-1])
    env.unchanged("right-hand side unchanged", rhs, r0)


def c_two_solvers(env, dim, shape, shape2, xr, align):
    """two solver objects do not disturb each other"""
    env.alignment(align)
    a = make(env, dim, shape, xr, 1)
    b = make(env, dim, shape2, 2 * xr, 1)
    f, g = env.field("f", shape), env.field("g", shape2)
    f0, g0 = env.snap(f), env.snap(g)
    sf, sg = env.field("sf", shape), env.field("sg", shape2)
    b.solve(solution_field=sg, rhs_field=g)
    a.solve(solution_field=sf, rhs_field=f)
    expect(env, "first solver", env.snap(sf), f0, shape, dim, xr / shape[-1])
    expect(env, "second solver", env.snap(sg), g0, shape2, dim, 2 * xr / shape2[-1])


def c_same(env, dim, shape, xr, threads, align, vector):
    """a simulation keeps its arrays: the same two arrays with new contents in every solve"""
    env.alignment(align)
    s = make(env, dim, shape, xr, threads)
    vs = ((3,) if vector else ()) + tuple(shape)
    sol, rhs = env.field("sol", vs), env.field("rhs", vs)
    for n in range(3):
        if n:
            rhs[...] = env.field("rhs%d" % n, vs)
        if n == 2 and vector:
            # a scalar solve in between
            s.solve(solution_field=env.field("so", shape), rhs_field=env.field("ro", shape))
        r0 = env.snap(rhs)
        if vector:
            s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)
        else:
            s.solve(solution_field=sol, rhs_field=rhs)
        o = env.snap(sol)
        for c in range(3) if vector else (None,):
            expect(env, "solve %d on the same arrays" % n, o if c is None else o[c], r0 if c is None else r0[c], shape, dim, xr / shape[-1])
        env.unchanged("right-hand side unchanged", rhs, r0)


def c_sources(env, dim, shape, xr, threads, count):
    """large grid: right-hand side non-zero in a few cells of arbitrary strength"""
    import random
    env.alignment(True)
    s = make(env, dim, shape, xr, threads)
    rnd = random.Random(str(shape))
    at = [tuple(n - 1 for n in shape), tuple(0 for n in shape)]
    at = (at + [tuple(rnd.randrange(n) for n in shape) for _ in range(count)])[:max(2, count)]
    q = env.field("q", (len(at),))
    q0 = env.snap(q)
    rhs, sol = env.zeros(shape), env.zeros(shape)
    for k, i in enumerate(at):
        rhs[i] = q[k]
    r0 = env.snap(rhs)
    s.solve(solution_field=sol, rhs_field=rhs)
    o = env.snap(sol)
    dx = xr / shape[-1]
    for i in cells(shape):
        acc = 0.0
        for k, j in enumerate(at):
            acc = acc + q0[k] * green(dim, dx, tuple(a - b for a, b in zip(i, j)))
        env.eq("point sources", o[i] * (1.0 / dx ** dim), acc)
    env.unchanged("right-hand side unchanged", rhs, r0)


def cases(tier, seed):
    out = []
    thorough = tier == "thorough"

    def add(name, fn, rt, validate=False, **p):
        out.append(Case(name, fn, p, linear=True, real_t=rt, validate=validate, weight=len(cells(p["shape"])) ** 2))

    s2 = [(4, 6), (5, 3), (6, 6), (3, 8), (7, 5)] + ([(9, 7), (8, 12), (11, 4), (1, 5), (5, 1), (2, 2), (13, 13)] if thorough else [])
    for n, sh in enumerate(s2):
        for rt in ("float64", "float32"):
            if rt == "float32" and n > 1 and not thorough:
                continue
            add("2d-%s-%s" % (rt, "x".join(map(str, sh))), c_solve, rt, validate=n < 2, dim=2, shape=sh, xr=(1.0, 2.5, 0.7)[n % 3],
                threads=1 + n % 2, solves=2, align=n % 2 == 0, view=False)
    add("2d-view", c_solve, "float64", True, dim=2, shape=(4, 5), xr=1.5, threads=1, solves=2, align=True, view=True)
    add("2d-three-solves", c_solve, "float64", True, dim=2, shape=(3, 5), xr=0.9, threads=1, solves=3, align=False, view=False)
    s3 = [(2, 3, 4), (4, 2, 3), (3, 4, 2), (3, 3, 3)] + ([(4, 5, 6), (6, 4, 5), (1, 4, 3), (5, 5, 5)] if thorough else [])
    for n, sh in enumerate(s3):
        for rt in ("float64", "float32"):
            if rt == "float32" and n > 0 and not thorough:
                continue
            add("3d-%s-%s" % (rt, "x".join(map(str, sh))), c_solve, rt, validate=n < 2, dim=3, shape=sh, xr=(1.0, 2.5, 0.7)[n % 3],
                threads=1 + n % 2, solves=2, align=n % 2 == 0, view=False)
    add("3d-view", c_solve, "float64", False, dim=3, shape=(3, 2, 4), xr=1.5, threads=1, solves=1, align=False, view=True)
    add("3d-vector", c_vector, "float64", True, dim=3, shape=(3, 2, 4), xr=1.3, threads=1, align=True)
    add("3d-vector-f32", c_vector, "float32", True, dim=3, shape=(2, 3, 3), xr=0.8, threads=2, align=False)
    for dim, sh, sh2 in ((2, (3, 4), (5, 4)), (3, (2, 3, 2), (2, 2, 3))):
        add("%dd-two-solvers" % dim, c_two_solvers, "float64", True, dim=dim, shape=sh, shape2=sh2, xr=1.1, align=True)
    add("2d-same-arrays", c_same, "float64", True, dim=2, shape=(5, 4), xr=1.2, threads=1, align=True, vector=False)
    add("2d-same-arrays-f32", c_same, "float32", True, dim=2, shape=(4, 5), xr=0.8, threads=2, align=False, vector=False)
    add("3d-same-arrays", c_same, "float64", True, dim=3, shape=(2, 4, 3), xr=1.2, threads=2, align=True, vector=False)
    add("3d-same-arrays-vector", c_same, "float64", True, dim=3, shape=(3, 2, 2), xr=1.1, threads=1, align=True, vector=True)
    add("2d-long", c_solve, "float64", True, dim=2, shape=(2, 35), xr=1.5, threads=1, solves=1, align=True, view=False)
    add("2d-tall", c_solve, "float64", True, dim=2, shape=(37, 2), xr=0.5, threads=1, solves=1, align=True, view=False)
    add("3d-long", c_solve, "float64", True, dim=3, shape=(2, 2, 18), xr=1.5, threads=1, solves=1, align=True, view=False)
    for dim, sh in ((2, (34, 66)), (2, (65, 20)), (3, (9, 17, 10))) + (((2, (130, 40)), (3, (34, 8, 18)), (3, (10, 12, 33))) if thorough else ()):
        add("%dd-sources-%s" % (dim, "x".join(map(str, sh))), c_sources, "float64", True, dim=dim, shape=sh, xr=1.7, threads=2, count=3)
    return out
