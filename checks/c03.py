"""C03 ghost zones, write footprint, no reads outside."""
from .common import again, cells, configs, mkcase, parent_unchanged
from .ops import FLUX, ADV, UPD

FUNCTIONS = ["all difference/flux generators (curl, divergence, diffusion, stretching, advection, vorticity update) 2D/3D"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34; both precisions, threads False/2 (thorough "
          "1,4,7), generic and fixed size, strided inputs, with and without reset; all cell values, including the prior "
          "content of the outputs, symbolic; every load and store address of every loop iteration is checked against the array")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts; arrays smaller than the stencil"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def c_op(env, op, dim, threads, fixed, shape, strided):
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    inp = op.inputs(env, shape, strided)
    snaps = {a: env.snap(inp[a]) for a, _ in op.fields()}
    k(**inp)
    for a, _ in op.fields():
        parent_unchanged(env, a)
        if a not in op.out:
            env.unchanged("input %s unchanged" % a, inp[a], snaps[a])
    o = op.out[0]
    got, old = env.snap(inp[o]), snaps[o]
    r = op.ring
    pre = [()] if len(got.shape) == dim else [(c,) for c in range(dim)]
    inner = set(cells(shape, r))
    for p in pre:
        g, h = (got[p], old[p]) if p else (got, old)
        for i in cells(shape):
            if i in inner:
                continue
            if op.reset:
                env.eq("ring is zero", g[i], 0)
            else:
                env.eq("ring kept", g[i], h[i])


def c_twice(env, op, dim, threads, fixed, shape, strided):
    """The interior does not depend on what the output held (outputs that are not accumulated into)."""
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    inp = op.inputs(env, shape, strided)
    o = op.out[0]
    kind = dict(op.args)[o]
    other = dict(inp)
    other[o] = env.field("other", op.shape(kind, shape))
    k(**inp)
    k(**other)
    a, b = env.snap(inp[o]), env.snap(other[o])
    pre = [()] if len(a.shape) == dim else [(c,) for c in range(dim)]
    for p in pre:
        for i in cells(shape, op.ring):
            env.eq("independent of prior output", a[p + i], b[p + i])


def cases(tier, seed):
    out = []
    for op in FLUX + ADV + UPD:
        for n, c in enumerate(configs(op.dim, tier, seed=seed)):
            out.append(mkcase(op.name, op.dim, c_op, c, (), n in (1, 2, 5, 8), params=dict(op=op)))
            if n in (0, 1) and not op.inout:
                out.append(mkcase(op.name, op.dim, c_twice, c, ("twice",), False, params=dict(op=op)))
    return out + again(out)
