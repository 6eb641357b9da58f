"""C06 advection: upwind bias, consistency, symmetry."""
import itertools

from .common import again, cells, configs, mkcase, sh
from .ops import ADV

FUNCTIONS = ["gen_advection_flux_conservative_eno3_pyst_kernel_2d", "gen_advection_flux_conservative_eno3_pyst_kernel_3d"]
BOUNDS = ("grids 2D 6..11 per axis (non-square) and 70x134, 3D 5..7 per axis and 24x41x34; both precisions, threads "
          "False/2 (thorough 1,4,7), generic and fixed size; all field values, velocities (any sign) and the factor symbolic; "
          "all axis permutations and single-axis reflections")
OUTSIDE = ("floating-point rounding; faces whose velocity sum is exactly zero are left to C05 (there either side is a valid "
           "choice and mirror symmetry is not claimed); other grid sizes")
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def _gen(env, dim, threads, fixed, shape, key=0):
    op = ADV[dim - 2]
    return env.once(key, lambda: op.generate(env, threads, fixed, shape))


def face(env, f, v, i, a):
    """documented flux through the face between i and its +a neighbour"""
    j, k, h = sh(i, a, 1), sh(i, a, 2), sh(i, a, -1)
    t = lambda n: f[n] * v[(a,) + n]
    up = t(j) / 3 + 5 * t(i) / 6 - t(h) / 6
    down = t(i) / 3 + 5 * t(j) / 6 - t(k) / 6
    return env.ite(env.lt(0, v[(a,) + i] + v[(a,) + j]), up, down)


def c_upwind(env, dim, threads, fixed, shape, strided, only=None):
    k = _gen(env, dim, threads, fixed, shape)
    f, v, o = env.field("f", shape), env.field("v", (dim,) + shape), env.zeros(shape)
    p = env.scalar("p")
    fs, vs = env.snap(f), env.snap(v)
    k(advection_flux=o, field=f, velocity=v, inv_dx=p)
    s = env.snap(o)
    for i in cells(shape, 2):
        want = 0
        asm = []
        for a in range(dim):
            b = sh(i, a, -1)
            want = want + face(env, fs, vs, i, a) - face(env, fs, vs, b, a)
            for x in (i, b):
                asm.append(env.not_(env.eq_(vs[(a,) + x] + vs[(a,) + sh(x, a, 1)], 0)))
        env.eq("flux is the documented upwind-biased face difference", s[i], p * want, assume=asm)


def c_single(env, dim, threads, fixed, shape, strided, axis):
    """only one velocity component is non-zero: the contribution of that axis alone (ties included on the others)"""
    k = _gen(env, dim, threads, fixed, shape)
    f, o = env.field("f", shape), env.zeros(shape)
    v = env.zeros((dim,) + shape)
    w = env.field("w", shape)
    v[axis] = w
    p = env.scalar("p")
    fs, vs = env.snap(f), env.snap(v)
    k(advection_flux=o, field=f, velocity=v, inv_dx=p)
    s = env.snap(o)
    for i in cells(shape, 2):
        b = sh(i, axis, -1)
        asm = [env.not_(env.eq_(vs[(axis,) + x] + vs[(axis,) + sh(x, axis, 1)], 0)) for x in (i, b)]
        env.eq("one axis alone", s[i], p * (face(env, fs, vs, i, axis) - face(env, fs, vs, b, axis)), assume=asm)


def c_quad(env, dim, threads, fixed, shape, strided, axis, sign):
    """velocity of one sign along `axis`, field*velocity quadratic along it: exact derivative"""
    k = _gen(env, dim, threads, fixed, shape)
    o = env.zeros(shape)
    p = env.scalar("p")
    a, b, c = env.scalar("a"), env.scalar("b"), env.scalar("c")
    # velocity of one sign, field*velocity quadratic along the axis; constant and varying velocity
    n = shape[dim - 1 - axis]
    u = [sign * env.scalar("u%d" % x, lo=env_lo(env), hi=3) for x in range(n)]
    v = env.zeros((dim,) + shape)
    f = env.zeros(shape)
    for i in cells(shape):
        x = i[dim - 1 - axis]
        v[(axis,) + i] = u[x]
        f[i] = (a + b * x + c * x * x) / u[x]
    k(advection_flux=o, field=f, velocity=v, inv_dx=p)
    s = env.snap(o)
    seen = set()
    for i in cells(shape, 2):
        x = i[dim - 1 - axis]
        if x in seen and max(shape) < 20 and sum(i) % 2:
            pass
        seen.add(x)
        env.eq("exact for quadratics", s[i], p * (b + 2 * c * x))


def env_lo(env):
    return env.frac(1, 2)


def c_perm(env, dim, threads, fixed, shape, strided, perm):
    """perm: new axis order (xyz): axis a of the permuted problem is axis perm[a] of the original"""
    kf = _gen(env, dim, threads, fixed, shape, "a")
    # spatial array axes: position dim-1-a holds axis a
    tr = tuple(dim - 1 - perm[dim - 1 - q] for q in range(dim))
    shape2 = tuple(shape[q] for q in tr)
    kg = _gen(env, dim, threads, fixed, shape2, "b")
    f, v = env.field("f", shape), env.field("v", (dim,) + shape)
    p = env.scalar("p")
    o, o2 = env.zeros(shape), env.zeros(shape2)
    fs, vs = env.snap(f), env.snap(v)
    f2, v2 = env.zeros(shape2), env.zeros((dim,) + shape2)

    def back(i2):
        i = [0] * dim
        for q in range(dim):
            i[tr[q]] = i2[q]
        return tuple(i)
    for i2 in cells(shape2):
        i = back(i2)
        f2[i2] = fs[i]
        for a in range(dim):
            v2[(a,) + i2] = vs[(perm[a],) + i]
    kf(advection_flux=o, field=f, velocity=v, inv_dx=p)
    kg(advection_flux=o2, field=f2, velocity=v2, inv_dx=p)
    s, s2 = env.snap(o), env.snap(o2)
    for i2 in cells(shape2, 2):
        env.eq("axis permutation", s2[i2], s[back(i2)])


def c_mirror(env, dim, threads, fixed, shape, strided, axis):
    kf = _gen(env, dim, threads, fixed, shape)
    f, v = env.field("f", shape), env.field("v", (dim,) + shape)
    p = env.scalar("p")
    o, o2 = env.zeros(shape), env.zeros(shape)
    fs, vs = env.snap(f), env.snap(v)
    f2, v2 = env.zeros(shape), env.zeros((dim,) + shape)
    q = dim - 1 - axis

    def ref(i):
        return i[:q] + (shape[q] - 1 - i[q],) + i[q + 1:]
    for i in cells(shape):
        f2[i] = fs[ref(i)]
        for a in range(dim):
            v2[(a,) + i] = vs[(a,) + ref(i)] * (-1 if a == axis else 1)
    kf(advection_flux=o, field=f, velocity=v, inv_dx=p)
    kf(advection_flux=o2, field=f2, velocity=v2, inv_dx=p)
    s, s2 = env.snap(o), env.snap(o2)
    for i in cells(shape, 2):
        asm = []
        for x in (i, sh(i, axis, -1)):
            asm.append(env.not_(env.eq_(vs[(axis,) + x] + vs[(axis,) + sh(x, axis, 1)], 0)))
        # reflecting the axis turns the derivative's sign; velocity's sign turns it back
        env.eq("mirror symmetry", s2[ref(i)], s[i], assume=asm)


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, strided=False, seed=seed)):
            val = n in (1, 2, 5)
            big = max(c["shape"]) > 20
            out.append(mkcase("upwind", dim, c_upwind, c, (), val))
            if big and tier == "quick":
                continue
            for a in range(dim):
                if n in (0, 3, 4, 7) or tier == "thorough":
                    out.append(mkcase("single", dim, c_single, c, ("xyz"[a],), val, params=dict(axis=a)))
                    for sg in (1, -1):
                        out.append(mkcase("quadratic", dim, c_quad, c, ("xyz"[a], "pos" if sg > 0 else "neg"), val,
                                          params=dict(axis=a, sign=sg)))
                    out.append(mkcase("mirror", dim, c_mirror, c, ("xyz"[a],), val, params=dict(axis=a)))
            if n in (0, 3) or tier == "thorough":
                for perm in itertools.permutations(range(dim)):
                    if perm != tuple(range(dim)):
                        out.append(mkcase("perm", dim, c_perm, c, ("".join("xyz"[a] for a in perm),), val,
                                          params=dict(perm=perm)))
    return out + again(out)
