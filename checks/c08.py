"""C08 SSP-RK3 vorticity stretching."""
import importlib

from .common import cells, configs, mkcase, sh, ddc, gen_kw

FUNCTIONS = ["gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d and the kernels it composes"]
BOUNDS = ("3D grids 5..7 per axis (non-cubic) and 9x17x12; both precisions, threads False/2 (thorough 1,4,7), generic and fixed "
          "size; vorticity, velocity, both buffers and the step factor symbolic; two calls")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]
KID = "ssprk3-third-stage-half-step"


def flux(w, v, p, shape):
    """full-grid stretching flux of snapshot-like callables: dict idx->value; zero on the ring"""
    out = {}
    inner = set(cells(shape, 1))
    for c in range(3):
        for i in cells(shape):
            if i in inner:
                out[(c,) + i] = p * sum(w[(a,) + i] * ddc(v[c], i, a) for a in range(3))
            else:
                out[(c,) + i] = 0
    return out


def scheme(w, v, p, shape, third):
    idx = [(c,) + i for c in range(3) for i in cells(shape)]
    u0 = {i: w[i] for i in idx}
    f = flux(u0, v, p, shape)
    u1 = {i: u0[i] + f[i] for i in idx}
    f = flux(u1, v, p, shape)
    u2 = {i: 3 * u0[i] / 4 + (u1[i] + f[i]) / 4 for i in idx}
    f = flux(u2, v, p * third, shape)
    return {i: u0[i] / 3 + 2 * (u2[i] + f[i]) / 3 for i in idx}


def _gen(env, threads, fixed, shape, mid, key):
    from sopht.numeric.eulerian_grid_ops.stencil_ops_3d.vorticity_stretching_timestep_3d import (
        gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d as g)
    return g(midstep_buffer_vector_field=mid, **gen_kw(env, threads, fixed, shape))


def c_step(env, dim, threads, fixed, shape, strided, steps=2):
    vs = (3,) + shape
    mid = env.field("mid", vs)
    k = _gen(env, threads, fixed, shape, mid, 0)
    for n in range(steps):
        t = "ab"[n]
        w, v, b = env.field(t + "w", vs), env.field(t + "v", vs), env.field(t + "b", vs)
        p = env.scalar(t + "p")
        w0, v0 = env.snap(w), env.snap(v)
        k(vorticity_field=w, velocity_field=v, vorticity_stretching_flux_field=b, dt_by_2_dx=p)
        s = env.snap(w)
        full = scheme(w0, v0, p, shape, 1)
        half = scheme(w0, v0, p, shape, env.frac(1, 2))
        inner = set(cells(shape, 1))
        for c in range(3):
            for i in cells(shape):
                j = (c,) + i
                if i in inner:
                    env.eq("three-stage scheme", s[j], full[j], known=(KID, env.close(s[j], half[j])))
                else:
                    env.eq("outermost ring kept", s[j], w0[j])
        env.unchanged("velocity unchanged", v, v0)


def c_zero(env, dim, threads, fixed, shape, strided):
    vs = (3,) + shape
    k = _gen(env, threads, fixed, shape, env.field("mid", vs), 0)
    w, v, b = env.field("w", vs), env.zeros(vs), env.field("b", vs)
    w0 = env.snap(w)
    k(vorticity_field=w, velocity_field=v, vorticity_stretching_flux_field=b, dt_by_2_dx=env.scalar("p"))
    env.all_eq("zero velocity changes nothing", w, w0)


def c_buffers(env, dim, threads, fixed, shape, strided):
    vs = (3,) + shape
    k1 = _gen(env, threads, fixed, shape, env.field("m1", vs), 0)
    k2 = _gen(env, threads, fixed, shape, env.field("m2", vs), 1)
    w, v = env.field("w", vs), env.field("v", vs)
    w2 = w.copy()
    p = env.scalar("p")
    k1(vorticity_field=w, velocity_field=v, vorticity_stretching_flux_field=env.field("b1", vs), dt_by_2_dx=p)
    k2(vorticity_field=w2, velocity_field=v, vorticity_stretching_flux_field=env.field("b2", vs), dt_by_2_dx=p)
    env.all_eq("independent of buffer content", w, w2)


def cases(tier, seed):
    out = []
    for n, c in enumerate(configs(3, tier, strided=False, mid=False, seed=seed)):
        out.append(mkcase("ssprk3", 3, c_step, c, (), n in (0, 1, 2, 5), params=dict(steps=2 if n in (0, 5) else 1), weight=60))
        if n in (1, 2, 4, 7):
            out.append(mkcase("zero", 3, c_zero, c, (), True))
            out.append(mkcase("buffers", 3, c_buffers, c, (), True))
    c = dict(real_t="float64", threads=2, fixed=False, strided=False, shape=(9, 17, 12))
    out.append(mkcase("ssprk3", 3, c_step, c, (), True, params=dict(steps=1), weight=300))
    return out
