"""C17 interpolation weights."""
from .common import Case, cells, repeated
from .ib import communicator, gen, phi

FUNCTIONS = ["generate_cosine_interpolation_weights_kernel_2d/3d", "generate_peskin_interpolation_weights_kernel_2d/3d",
             "EulerianLagrangianGridCommunicator2D/3D kernel selection", "local_eulerian_grid_support kernels (chained cases)"]
BOUNDS = ("every support distance in [-2dx, 2dx] per axis and every dx > 0 (tensor form, signs, symmetry); every node position in a cell for "
          "the chained partition-of-unity and first-moment obligations; 1..3, 5, 37 and 40 (3D 9 and 17) nodes; repeated use of one communicator; float32/float64 declarations; kernel width 2")
OUTSIDE = "floating-point rounding; numba compilation (numba is not installed, the decorated Python source is executed)"
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source"]


def local(env, dim, n, dx):
    shp = (4,) * dim + (n,)
    r = {}
    vals = []
    for a in range(dim):
        f = env.field("r%d" % a, shp, lo=-2, hi=2)
        r[a] = env.snap(f)
        vals.append(f * dx if env.concrete else None)
    if env.concrete:
        import numpy as np
        return env.array(np.stack(vals)), r
    arr = env.zeros((dim,) + shp)
    for a in range(dim):
        for k in cells(shp):
            arr[(a,) + k] = r[a][k] * dx
    return arr, r


def c_tensor(env, dim, kernel, n):
    dx = env.scalar("dx", 0, 2, strict=True, free="hi", stable=True)
    if env.concrete:
        env.assume(dx > 1e-3)
    k = env.once(0, lambda: communicator(env, dim, dx, dx / 2, n, kernel=kernel)).interpolation_weights_kernel
    loc, r = local(env, dim, n, dx)
    shp = (4,) * dim + (n,)
    w = env.field("w", shp)
    k(interp_weights=w, local_eul_grid_support_of_lag_grid=loc)
    s = env.snap(w)
    vol = 1
    for _ in range(dim):
        vol = vol * dx
    for i in cells(shp):
        want = phi(env, kernel, r[0][i])
        for a in range(1, dim):
            want = want * phi(env, kernel, r[a][i])
        env.eq("weight is the tensor product of 1-D deltas", s[i] * vol, want)


def c_delta(env, dim, kernel):
    """sign, reflection and exchange symmetry of the weight of one support point"""
    dx = env.scalar("dx", 0, 2, strict=True, free="hi")
    if env.concrete:
        env.assume(dx > 1e-3)
    k = communicator(env, dim, dx, dx / 2, 1, kernel=kernel).interpolation_weights_kernel
    r = [env.scalar("r%d" % a, -2, 2) for a in range(dim)]

    def weight(v):
        import numpy as np
        loc = env.array(np.array([v[a] * dx for a in range(dim)], dtype=object if not env.concrete else float).reshape((dim,) + (1,) * (dim + 1)))
        w = env.field("w", (1,) * (dim + 1))
        k(interp_weights=w, local_eul_grid_support_of_lag_grid=loc)
        return env.snap(w)[(0,) * (dim + 1)]

    w0 = weight(r)
    if dim == 2:
        env.le("weight is non-negative", 0, w0)
    for a in range(dim):
        v = list(r)
        v[a] = -v[a]
        env.eq("reflection along axis %d" % a, weight(v), w0)
    v = list(r)
    v[0], v[1] = v[1], v[0]
    env.eq("exchange of axes", weight(v), w0)
    if dim == 3:
        env.eq("rotation of axes", weight([r[1], r[2], r[0]]), w0)


def c_phi(env, kernel):
    """non-negativity, partition of unity and first moment of the 1-D function the weights are proved to be made of"""
    r = env.scalar("r", -2, 2)
    env.le("1-D delta is non-negative", 0, phi(env, kernel, r))
    t = env.scalar("t", 0, 1)
    env.assume(env.lt(t, env.frac(1)))
    tot, mom = 0, 0
    for m in range(-1, 3):
        p = phi(env, kernel, m - t)
        tot = tot + p
        mom = mom + p * (m - t)
    env.eq("1-D delta sums to one", tot, 1)
    if kernel == "peskin":
        env.eq("1-D delta has zero first moment", mom, 0)


def c_chain(env, dim, kernel, n):
    """the weights of a node anywhere in its cell, as the communicator computes them"""
    dx = env.scalar("dx", 0, 2, strict=True, free="hi", stable=True)
    if env.concrete:
        env.assume(dx > 1e-3)
    shift = env.scalar("shift", 0, 2, stable=True, free="both")
    com = env.once(0, lambda: communicator(env, dim, dx, shift, n, kernel=kernel))
    th = [[env.scalar("th[%d,%d]" % (a, i), 0, 1) for i in range(n)] for a in range(dim)]
    for row in th:
        for t in row:
            env.assume(env.lt(t, env.frac(1)))
            if env.concrete:
                env.assume(1e-6 < t < 1 - 1e-6)
    pos = env.array([[shift + (2 + a + i + th[a][i]) * dx for i in range(n)] for a in range(dim)])
    near = env.zeros((dim, n), dtype=int)
    loc = env.field("loc", (dim,) + (4,) * dim + (n,))
    w = env.field("w", (4,) * dim + (n,))
    com.local_eulerian_grid_support_of_lagrangian_grid_kernel(
        local_eul_grid_support_of_lag_grid=loc, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
    com.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=loc)
    s = env.snap(w)
    vol = 1
    for _ in range(dim):
        vol = vol * dx
    one = {}
    for i in range(n):
        for a in range(dim):
            for m in range(4):
                one[a, m, i] = phi(env, kernel, m - 1 - th[a][i])
    for k in cells((4,) * dim + (n,)):
        want = 1
        for a in range(dim):
            want = want * one[a, k[dim - 1 - a], k[dim]]
        env.eq("weight at a support point of a node", s[k] * vol, want)
    if kernel == "cosine":
        for i in range(n):
            tot = 0
            for k in cells((4,) * dim):
                tot = tot + s[k + (i,)]
            env.eq("weights sum to the inverse cell volume", tot * vol, 1)
    elif env.concrete:
        for i in range(n):
            tot, mom = 0, [0] * dim
            for k in cells((4,) * dim):
                x = s[k + (i,)] * vol
                tot = tot + x
                for a in range(dim):
                    mom[a] = mom[a] + x * (k[dim - 1 - a] - 1 - th[a][i])
            env.eq("weights sum to the inverse cell volume", tot, 1)
            for a in range(dim):
                env.eq("first moment along axis %d" % a, mom[a], 0)


def cases(tier, seed):
    out = []
    for kernel in ("cosine", "peskin"):
        out.append(Case("phi-%s" % kernel, c_phi, dict(kernel=kernel), validate=True, sym_real=True))
        for dim in (2, 3):
            for rt in ("float64", "float32"):
                out.append(Case("tensor%dd-%s-%s" % (dim, kernel, rt), c_tensor, dict(dim=dim, kernel=kernel, n=2 if rt == "float64" else 1),
                                real_t=rt, sym_real=True, validate=True, weight=10))
                out.append(Case("chain%dd-%s-%s" % (dim, kernel, rt), c_chain, dict(dim=dim, kernel=kernel, n=2 if rt == "float64" else 1),
                                real_t=rt, sym_real=True, validate=True, weight=20))
                if rt == "float64":
                    both = (out[-2],) if (dim, kernel, tier) == (3, "peskin", "quick") else out[-2:]
                    out += [repeated(c) for c in both]
            for n in (5, 37, 40) if dim == 2 else (9, 17):
                out.append(Case("tensor%dd-%s-N%d" % (dim, kernel, n), c_tensor, dict(dim=dim, kernel=kernel, n=n), sym_real=True,
                                validate=True, weight=n * 8))
            out.append(Case("delta%dd-%s" % (dim, kernel), c_delta, dict(dim=dim, kernel=kernel), sym_real=True, validate=True, weight=5))
            if tier == "thorough":
                out.append(Case("chain%dd-%s-n3" % (dim, kernel), c_chain, dict(dim=dim, kernel=kernel, n=3), sym_real=True, weight=40))
    return out
