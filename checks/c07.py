"""C07 Euler time steps."""
from .common import cells, configs, mkcase, sh, ddc, lap
from .ops import TS, ADV

FUNCTIONS = ["gen_advection_timestep_euler_forward_conservative_eno3_2d/3d (scalar, vector)",
             "gen_diffusion_timestep_euler_forward_2d/3d (scalar, vector)", "gen_vorticity_stretching_timestep_euler_forward_3d"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34; both precisions, threads False/2 (thorough "
          "1,4,7), generic and fixed size; field, velocity, work buffer and step factor symbolic; two consecutive steps from "
          "independent symbolic states with different step factors")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts; longer histories follow by induction over the two-step case"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def _step(env, op, k, dim, threads, fixed, shape, tag, advk):
    inp = op.inputs(env, shape, False, tag)
    names = [a for a, _ in op.fields()]
    f, buf = op.out
    s0 = {a: env.snap(inp[a]) for a in names}
    scal = [inp[a] for a, kd in op.args if kd == "s"][0]
    k(**inp)
    s1 = {a: env.snap(inp[a]) for a in names}
    for a in names:
        if a not in op.out:
            env.unchanged("velocity unchanged", inp[a], s0[a])
    vec = len(s0[f].shape) > dim
    flux = []
    inner = cells(shape, op.ring)
    inset = set(inner)
    for c in range(dim if vec else 1):
        pre = (c,) if vec else ()
        u = s0[f][c] if vec else s0[f]
        if "adv" in op.name:
            o = env.zeros(shape)
            g = env.zeros(shape)
            for i in cells(shape):
                g[i] = u[i]
            advk(advection_flux=o, field=g, velocity=inp["velocity"], inv_dx=scal)
            fl = env.snap(o)
            inc = lambda i: -fl[i]
        elif "diff" in op.name:
            inc = lambda i: scal * lap(u, i)
        else:
            w, v = s0["vorticity_field"], s0["velocity_field"][c]
            inc = lambda i: scal * sum(w[(a,) + i] * ddc(v, i, a) for a in range(3))
        for i in cells(shape):
            if i in inset:
                env.eq("old + step * flux", s1[f][pre + i], u[i] + inc(i))
            else:
                env.eq("cells without a full stencil unchanged", s1[f][pre + i], u[i])


def c_ts(env, op, dim, threads, fixed, shape, strided, steps=2):
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    advk = env.once(1, lambda: ADV[dim - 2].generate(env, threads, fixed, shape)) if "adv" in op.name else None
    for n in range(steps):
        _step(env, op, k, dim, threads, fixed, shape, "abc"[n], advk)


def c_repeat(env, op, dim, threads, fixed, shape, strided):
    """the same arrays used for two steps: the second step only sees the current state"""
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    inp = op.inputs(env, shape, False, "a")
    f, buf = op.out
    k(**inp)
    # state after the first step replaced by fresh values in the same arrays, buffer left as the first step left it
    new = env.field("new", op.shape(dict(op.args)[f], shape))
    inp[f][...] = new
    for a, kd in op.args:
        if kd == "s":
            inp[a] = env.scalar("second" + a)
    k(**inp)
    inp2 = dict(inp)
    inp2[f] = env.zeros(op.shape(dict(op.args)[f], shape))
    inp2[f][...] = new
    inp2[buf] = env.field("otherbuf", op.shape(dict(op.args)[buf], shape))
    k2 = env.once(2, lambda: op.generate(env, threads, fixed, shape))
    k2(**inp2)
    env.all_eq("second step has no memory of the first", inp[f], inp2[f])


def c_const(env, op, dim, threads, fixed, shape, strided):
    k = env.once(0, lambda: op.generate(env, threads, fixed, shape))
    inp = op.inputs(env, shape)
    f, _ = op.out
    vec = dict(op.args)[f] == "V"
    cs = [env.scalar("c%d" % c) for c in range(dim if vec else 1)]
    a = env.zeros(op.shape(dict(op.args)[f], shape))
    for c in range(len(cs)):
        if vec:
            a[c] = cs[c]
        else:
            a[...] = cs[0]
    inp[f] = a
    k(**inp)
    s = env.snap(a)
    for i in cells(shape):
        for c in range(len(cs)):
            env.eq("constants are unchanged by diffusion", s[((c,) if vec else ()) + i], cs[c])


def cases(tier, seed):
    out = []
    for op in TS:
        for n, c in enumerate(configs(op.dim, tier, strided=False, seed=seed)):
            big = max(c["shape"]) > 20
            out.append(mkcase(op.name, op.dim, c_ts, c, (), n in (1, 2, 5), params=dict(op=op, steps=1 if big else 2)))
            if n in (0, 5):
                out.append(mkcase(op.name, op.dim, c_repeat, c, ("repeat",), n == 5, params=dict(op=op)))
            if "diff" in op.name and not big:
                out.append(mkcase(op.name, op.dim, c_const, c, ("const",), n == 2, params=dict(op=op)))
    return out
