"""C02 difference operators."""
from .common import again, cells, configs, mkcase, sh, ddc, lap
from .ops import FLUX

FUNCTIONS = ["gen_inplane_field_curl_2d", "gen_outplane_field_curl_2d", "gen_curl_3d", "gen_divergence_3d",
             "gen_diffusion_flux_2d/3d (scalar, vector)", "gen_vorticity_stretching_flux_3d"]
BOUNDS = ("grids 2D 6..11 per axis (non-square) and 70x134, 3D 5..7 per axis and 24x41x34; both precisions, threads "
          "False/2 (thorough 1,4,7), generic and fixed size, with and without ghost-zone reset; all cell values and factors "
          "symbolic reals")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def spec(op, d, s, i):
    """Documented value for output index i (component first for vector outputs)."""
    n = op.name.replace("-noreset", "")
    dim = op.dim
    if n == "curl-in":
        f = d["field"]
        return s["prefactor"] * (ddc(f[1], i, 0) - ddc(f[0], i, 1))
    if n == "curl-out":
        f = d["field"]
        c, j = i[0], i[1:]
        return s["prefactor"] * (ddc(f, j, 1) if c == 0 else -ddc(f, j, 0))
    if n == "curl":
        f = d["field"]
        c, j = i[0], i[1:]
        a, b = (c + 1) % 3, (c + 2) % 3
        return s["prefactor"] * (ddc(f[b], j, a) - ddc(f[a], j, b))
    if n == "div":
        f = d["field"]
        return s["inv_dx"] * (ddc(f[0], i, 0) + ddc(f[1], i, 1) + ddc(f[2], i, 2)) / 2
    if n in ("diff", "diff-s"):
        return s["prefactor"] * lap(d["field"], i)
    if n == "diff-v":
        return s["prefactor"] * lap(d["vector_field"][i[0]], i[1:])
    if n == "stretch":
        w, u = d["vorticity_field"], d["velocity_field"]
        c, j = i[0], i[1:]
        return s["prefactor"] * sum(w[(a,) + j] * ddc(u[c], j, a) for a in range(3))
    raise KeyError(n)


def c_op(env, op, dim, threads, fixed, shape, strided):
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    inp = op.inputs(env, shape, strided)
    snaps = {a: env.snap(inp[a]) for a, _ in op.fields()}
    k(**inp)
    o = op.out[0]
    got = env.snap(inp[o])
    pre = [()] if len(got.shape) == dim else [(c,) for c in range(dim)]
    for p in pre:
        g = got[p] if p else got
        for i in cells(shape, 1):
            env.eq(op.name, g[i], spec(op, snaps, inp, p + i))


def cases(tier, seed):
    out = []
    for op in FLUX:
        for n, c in enumerate(configs(op.dim, tier, seed=seed)):
            out.append(mkcase(op.name, op.dim, c_op, c, (), n in (1, 2, 5), params=dict(op=op)))
    return out + again(out)
