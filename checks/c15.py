"""C15 fast-diagonalisation Poisson solver (homogeneous Neumann)."""
from .common import Case, cells

FUNCTIONS = ["FastDiagPoissonSolver2D (__init__, solve)", "FastDiagPoissonSolver3D (__init__, solve, vector_field_solve)"]
BOUNDS = ("2D grids up to 9 per axis and 3D grids up to 6 per axis, different sizes per axis (2 included); spacings 0.05..2; "
          "float32/float64; grids 2x35, 37x2, 2x2x18, and 34x66, 65x20, 9x17x10 with four point sources of any strength; up to three successive solves, on new arrays or on the same arrays refilled; every right-hand side and previous content of the solution "
          "array (linear arithmetic, residual times dx^2 within 1e-7 / 1e-3)")
OUTSIDE = "other grid sizes and spacings; other boundary-condition strings"
ASSUMPTIONS = ["numpy.linalg.eig/inv run for real on the constant matrices; products with the input are formed in double precision"]
EXPLANATION = ("the solver classes run on affine forms over every input cell; z3 decides in linear real arithmetic that the "
               "discrete Neumann Laplacian of the solution is the right-hand side minus its mean")


def make(env, dim, shape, dx):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import FastDiagPoissonSolver2D as S
        return S(grid_size_y=shape[0], grid_size_x=shape[1], dx=dx, real_t=env.real_t)
    from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import FastDiagPoissonSolver3D as S
    return S(grid_size_z=shape[0], grid_size_y=shape[1], grid_size_x=shape[2], dx=dx, real_t=env.real_t)


def expect(env, label, sol, rhs, shape, dx):
    """-Laplacian(sol) * dx^2 = (rhs - mean) * dx^2; mean(sol) = 0 (scaled by the grid's condition number)"""
    cs = cells(shape)
    mean = 0.0
    smean = 0.0
    for i in cs:
        mean = mean + rhs[i]
        smean = smean + sol[i]
    mean = mean * (1.0 / len(cs))
    u = 1.0 / dx ** 2
    for i in cs:
        acc = 0.0
        for a, n in enumerate(shape):
            for d in (-1, 1):
                if 0 <= i[a] + d < n:
                    j = i[:a] + (i[a] + d,) + i[a + 1:]
                    acc = acc + (sol[i] - sol[j]) * u
        env.eq(label + ": Laplacian of the solution", acc, rhs[i] - mean)
    env.eq(label + ": zero mean", smean * (u / len(cs)), 0.0)


def c_solve(env, dim, shape, dx, solves):
    s = make(env, dim, shape, dx)
    for n in range(solves):
        sol, rhs = env.field("sol%d" % n, shape), env.field("rhs%d" % n, shape)
        r0 = env.snap(rhs)
        s.solve(solution_field=sol, rhs_field=rhs)
        expect(env, "solve %d" % n, env.snap(sol), r0, shape, dx)
        env.unchanged("right-hand side of solve %d unchanged" % n, rhs, r0)


def c_vector(env, dim, shape, dx):
    s = make(env, dim, shape, dx)
    sol, rhs = env.field("sol", (3,) + tuple(shape)), env.field("rhs", (3,) + tuple(shape))
    r0 = env.snap(rhs)
    s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)
    o = env.snap(sol)
    for c in range(3):
        expect(env, "vector solve, component %s" % "xyz"[c], o[c], r0[c], shape, dx)
    env.unchanged("right-hand side unchanged", rhs, r0)


def c_two_solvers(env, dim, shape, shape2, dx):
    a, b = make(env, dim, shape, dx), make(env, dim, shape2, 2 * dx)
    f, g = env.field("f", shape), env.field("g", shape2)
    sf, sg = env.field("sf", shape), env.field("sg", shape2)
    f0, g0 = env.snap(f), env.snap(g)
    b.solve(solution_field=sg, rhs_field=g)
    a.solve(solution_field=sf, rhs_field=f)
    expect(env, "first solver", env.snap(sf), f0, shape, dx)
    expect(env, "second solver", env.snap(sg), g0, shape2, 2 * dx)


def c_same(env, dim, shape, dx, vector):
    """a simulation keeps its arrays: the same two arrays with new contents in every solve"""
    s = make(env, dim, shape, dx)
    vs = ((3,) if vector else ()) + tuple(shape)
    sol, rhs = env.field("sol", vs), env.field("rhs", vs)
    for n in range(3):
        if n:
            rhs[...] = env.field("rhs%d" % n, vs)
        if n == 2 and vector:
            # a scalar solve in between
            s.solve(solution_field=env.field("so", shape), rhs_field=env.field("ro", shape))
        r0 = env.snap(rhs)
        if vector:
            s.vector_field_solve(solution_vector_field=sol, rhs_vector_field=rhs)
        else:
            s.solve(solution_field=sol, rhs_field=rhs)
        o = env.snap(sol)
        for c in range(3) if vector else (None,):
            expect(env, "solve %d on the same arrays" % n, o if c is None else o[c], r0 if c is None else r0[c], shape, dx)
        env.unchanged("right-hand side unchanged", rhs, r0)


def c_sources(env, dim, shape, dx, count):
    """large grid: right-hand side non-zero in a few cells of arbitrary strength"""
    import random
    s = make(env, dim, shape, dx)
    rnd = random.Random(str(shape))
    at = [tuple(n - 1 for n in shape), tuple(0 for n in shape)] + [tuple(rnd.randrange(n) for n in shape) for _ in range(count - 2)]
    q = env.field("q", (len(at),))
    rhs, sol = env.zeros(shape), env.zeros(shape)
    for k, i in enumerate(at):
        rhs[i] = q[k]
    r0 = env.snap(rhs)
    s.solve(solution_field=sol, rhs_field=rhs)
    expect(env, "point sources", env.snap(sol), r0, shape, dx)
    env.unchanged("right-hand side unchanged", rhs, r0)


def cases(tier, seed):
    out = []
    thorough = tier == "thorough"

    def add(name, fn, rt, validate=False, **p):
        out.append(Case(name, fn, p, linear=True, real_t=rt, validate=validate, weight=len(cells(p["shape"])) ** 2))

    s2 = [(4, 6), (5, 3), (6, 6), (2, 7), (9, 4)] + ([(2, 2), (12, 9), (10, 13), (3, 16), (16, 16)] if thorough else [])
    for n, sh in enumerate(s2):
        for rt in ("float64", "float32"):
            if rt == "float32" and n > 1 and not thorough:
                continue
            add("2d-%s-%s" % (rt, "x".join(map(str, sh))), c_solve, rt, validate=n < 2, dim=2, shape=sh,
                dx=(0.25, 0.05, 2.0)[n % 3], solves=2)
    add("2d-three-solves", c_solve, "float64", True, dim=2, shape=(3, 5), dx=0.1, solves=3)
    s3 = [(2, 3, 4), (4, 2, 3), (3, 4, 2), (3, 3, 3), (4, 5, 3)] + ([(4, 5, 6), (6, 4, 5), (2, 2, 2), (6, 6, 6)] if thorough else [])
    for n, sh in enumerate(s3):
        for rt in ("float64", "float32"):
            if rt == "float32" and n > 0 and not thorough:
                continue
            add("3d-%s-%s" % (rt, "x".join(map(str, sh))), c_solve, rt, validate=n < 2, dim=3, shape=sh,
                dx=(0.25, 0.05, 2.0)[n % 3], solves=2)
    add("3d-vector", c_vector, "float64", True, dim=3, shape=(3, 2, 4), dx=0.3)
    add("3d-vector-f32", c_vector, "float32", True, dim=3, shape=(2, 3, 3), dx=0.7)
    for dim, sh, sh2 in ((2, (3, 4), (5, 4)), (3, (2, 3, 2), (2, 2, 3))):
        add("%dd-two-solvers" % dim, c_two_solvers, "float64", True, dim=dim, shape=sh, shape2=sh2, dx=0.2)
    add("2d-same-arrays", c_same, "float64", True, dim=2, shape=(5, 4), dx=0.2, vector=False)
    add("2d-same-arrays-f32", c_same, "float32", True, dim=2, shape=(4, 5), dx=0.4, vector=False)
    add("3d-same-arrays", c_same, "float64", True, dim=3, shape=(2, 4, 3), dx=0.2, vector=False)
    add("3d-same-arrays-vector", c_same, "float64", True, dim=3, shape=(3, 2, 2), dx=0.3, vector=True)
    add("2d-long", c_solve, "float64", True, dim=2, shape=(2, 35), dx=0.1, solves=1)
    add("2d-tall", c_solve, "float64", True, dim=2, shape=(37, 2), dx=0.1, solves=1)
    add("3d-long", c_solve, "float64", True, dim=3, shape=(2, 2, 18), dx=0.1, solves=1)
    for dim, sh in ((2, (34, 66)), (2, (65, 20)), (3, (9, 17, 10))) + (((2, (130, 40)), (3, (34, 8, 18)), (3, (10, 12, 33))) if thorough else ()):
        add("%dd-sources-%s" % (dim, "x".join(map(str, sh))), c_sources, "float64", True, dim=dim, shape=sh, dx=0.2, count=4)
    return out
