"""C04 vector-calculus identities."""
import importlib

from .common import again, cells, configs, mkcase, gen_kw, sh, ddc
from .ops import FLUX, UPD, P

FUNCTIONS = ["gen_curl_3d, gen_divergence_3d, gen_outplane_field_curl_2d, gen_inplane_field_curl_2d",
             "gen_update_vorticity_from_velocity_forcing_2d/3d, gen_update_vorticity_from_penalised_velocity_2d/3d"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34; both precisions, threads False/2, generic and "
          "fixed size; all cell values and factors symbolic reals")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def _op(name, dim):
    return [o for o in FLUX + UPD if o.name == name and o.dim == dim][0]


def c_divcurl3(env, dim, threads, fixed, shape, strided, reset):
    kc = env.once("c", lambda: _op("curl", 3).generate(env, threads, fixed, shape, reset_ghost_zone=reset))
    kd = env.once("d", lambda: _op("div", 3).generate(env, threads, fixed, shape, reset_ghost_zone=reset))
    f = env.field("f", (3,) + shape)
    c = env.field("c", (3,) + shape)
    d = env.field("d", shape)
    kc(curl=c, field=f, prefactor=env.scalar("p"))
    kd(divergence=d, field=c, inv_dx=env.scalar("q"))
    s = env.snap(d)
    for i in cells(shape, 2):
        env.eq("div curl = 0", s[i], 0)


def c_divcurl2(env, dim, threads, fixed, shape, strided, reset):
    kc = env.once("c", lambda: _op("curl-out", 2).generate(env, threads, fixed, shape, reset_ghost_zone=reset))
    f = env.field("f", shape)
    c = env.field("c", (2,) + shape)
    kc(curl=c, field=f, prefactor=env.scalar("p"))
    s = env.snap(c)
    for i in cells(shape, 2):
        env.eq("div curl = 0", ddc(s[0], i, 0) + ddc(s[1], i, 1), 0)


def _curl(env, dim, threads, fixed, shape, f, p, tag):
    """curl of f by the package's own curl kernel (into a fresh array)"""
    op = _op("curl-in" if dim == 2 else "curl", dim)
    k = env.once("curl", lambda: op.generate(env, threads, fixed, shape))
    c = env.field(tag, shape if dim == 2 else (3,) + shape)
    k(curl=c, field=f, prefactor=p)
    return env.snap(c)


def c_forcing(env, dim, threads, fixed, shape, strided):
    k = env.once("u", lambda: _op("upd-forcing", dim).generate(env, threads, fixed, shape))
    vs = shape if dim == 2 else (3,) + shape
    w, f, p = env.field("w", vs), env.field("f", (dim,) + shape), env.scalar("p")
    w0 = env.snap(w)
    c = _curl(env, dim, threads, fixed, shape, f, p, "c")
    k(vorticity_field=w, velocity_forcing_field=f, prefactor=p)
    w1 = env.snap(w)
    fs = env.snap(f)
    for pre in ([()] if dim == 2 else [(a,) for a in range(3)]):
        for i in cells(shape, 1):
            env.eq("adds the curl kernel's result", w1[pre + i], w0[pre + i] + c[pre + i])
            if dim == 2:
                ref = ddc(fs[1], i, 0) - ddc(fs[0], i, 1)
            else:
                a, b = (pre[0] + 1) % 3, (pre[0] + 2) % 3
                ref = ddc(fs[b], i, a) - ddc(fs[a], i, b)
            env.eq("adds factor times the discrete curl", w1[pre + i], w0[pre + i] + p * ref)


def c_pen(env, dim, threads, fixed, shape, strided):
    kf = env.once("u", lambda: _op("upd-forcing", dim).generate(env, threads, fixed, shape))
    kp = env.once("v", lambda: _op("upd-pen", dim).generate(env, threads, fixed, shape))
    vs = shape if dim == 2 else (3,) + shape
    w = env.field("w", vs)
    v, u, p = env.field("v", (dim,) + shape), env.field("u", (dim,) + shape), env.scalar("p")
    ws, v0, u0 = env.snap(w), env.snap(v), env.snap(u)
    w2 = w.copy()
    f = v - u
    kp(vorticity_field=w, penalised_velocity_field=v, velocity_field=u, prefactor=p)
    kf(vorticity_field=w2, velocity_forcing_field=f, prefactor=p)
    a, b = env.snap(w), env.snap(w2)
    for pre in ([()] if dim == 2 else [(c,) for c in range(3)]):
        for i in cells(shape, 1):
            env.eq("penalised update = forcing update of the difference", a[pre + i], b[pre + i])
            g = lambda c, i: v0[(c,) + i] - u0[(c,) + i]

            def dd(c, ax):
                return g(c, sh(i, ax, 1)) - g(c, sh(i, ax, -1))
            if dim == 2:
                ref = dd(1, 0) - dd(0, 1)
            else:
                x, y = (pre[0] + 1) % 3, (pre[0] + 2) % 3
                ref = dd(y, x) - dd(x, y)
            env.eq("penalised update adds factor times curl of the difference", a[pre + i], ws[pre + i] + p * ref)
    env.unchanged("penalised velocity unchanged", v, v0)
    env.unchanged("velocity unchanged", u, u0)


def c_grad(env, dim, threads, fixed, shape, strided):
    """a discrete gradient forcing changes nothing; likewise for penalised - original = gradient"""
    kf = env.once("u", lambda: _op("upd-forcing", dim).generate(env, threads, fixed, shape))
    kp = env.once("v", lambda: _op("upd-pen", dim).generate(env, threads, fixed, shape))
    vs = shape if dim == 2 else (3,) + shape
    big = tuple(n + 2 for n in shape)
    phi = env.snap(env.field("phi", big))
    u = env.field("u", (dim,) + shape)
    us = env.snap(u)
    grad = [[ddc(phi, tuple(x + 1 for x in i), c) for i in cells(shape)] for c in range(dim)]
    f = env.zeros((dim,) + shape)
    v = env.zeros((dim,) + shape)
    for c in range(dim):
        for n, i in enumerate(cells(shape)):
            f[(c,) + i] = grad[c][n]
            v[(c,) + i] = grad[c][n] + us[(c,) + i]
    w = env.field("w", vs)
    w0 = env.snap(w)
    w2 = w.copy()
    kf(vorticity_field=w, velocity_forcing_field=f, prefactor=env.scalar("p"))
    kp(vorticity_field=w2, penalised_velocity_field=v, velocity_field=u, prefactor=env.scalar("p"))
    env.all_eq("gradient forcing changes no vorticity", w, w0)
    env.all_eq("gradient penalisation changes no vorticity", w2, w0)


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, strided=False, seed=seed)):
            val = n in (1, 2, 5)
            for r in (True, False):
                out.append(mkcase("divcurl", dim, c_divcurl2 if dim == 2 else c_divcurl3, c, ("" if r else "noreset",), val,
                                  params=dict(reset=r)))
            out.append(mkcase("forcing", dim, c_forcing, c, (), val))
            out.append(mkcase("penalised", dim, c_pen, c, (), val))
            if max(c["shape"]) < 20 or tier == "thorough":
                out.append(mkcase("gradient", dim, c_grad, c, (), val))
    return out + again(out)
