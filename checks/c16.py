"""C16 FFT helpers."""
import math

import numpy as np

from .common import Case, cells

FUNCTIONS = ["FFTPyFFTW2D / FFTPyFFTW3D (plans, fft_ifft_plan_kernel)", "fft_ifft_via_scipy_kernel_2d / _3d"]
BOUNDS = ("2D sizes up to 9 per axis, 3D sizes up to 6 per axis, odd and even, different per axis; float32/float64; threads 1 and 2; "
          "repeated use of one helper; aligned and unaligned user arrays; every field content (linear arithmetic, 1e-7 / 1e-3)")
OUTSIDE = "other sizes; rounding inside FFTW/pocketfft; the builder objects pyfftw_fftn / pyfftw_ifftn, which nothing uses"
ASSUMPTIONS = ["pyFFTW and scipy.fft honour their documented contracts (modelled in the symbolic runs, the real libraries in the concrete ones)"]
EXPLANATION = ("the helpers run on affine forms over every input cell; z3 decides in linear real arithmetic that each spectral "
               "coefficient is the discrete Fourier sum and that the backward transform restores the field")


def spectrum(f, shape):
    """unnormalised DFT, half spectrum along the last axis, by the defining sum (axis after axis)"""
    cur = {i: (f[i], 0.0) for i in cells(shape)}
    dims = list(shape)
    for a in range(len(shape) - 1, -1, -1):
        n = shape[a]
        m = n // 2 + 1 if a == len(shape) - 1 else n
        tab = [(math.cos(2 * math.pi * t / n), -math.sin(2 * math.pi * t / n)) for t in range(n)]
        nd = list(dims)
        nd[a] = m
        new = {}
        for k in cells(nd):
            re, im = 0.0, 0.0
            for x in range(n):
                c, s = tab[(k[a] * x) % n]
                vr, vi = cur[k[:a] + (x,) + k[a + 1:]]
                re = re + (vr * c - vi * s)
                im = im + (vr * s + vi * c)
            new[k] = (re, im)
        cur, dims = new, nd
    return cur


def helper(env, dim, shape, threads):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import FFTPyFFTW2D as H
        return H(grid_size_y=shape[0], grid_size_x=shape[1], num_threads=threads, real_t=env.real_t)
    from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import FFTPyFFTW3D as H
    return H(grid_size_z=shape[0], grid_size_y=shape[1], grid_size_x=shape[2], num_threads=threads, real_t=env.real_t)


def half(shape):
    return tuple(shape[:-1]) + (shape[-1] // 2 + 1,)


def cdt(env):
    return np.complex64 if env.base_t == np.float32 else np.complex128


def check_spectrum(env, label, got, f, shape):
    g = env.snap(got)
    env.true(label + " shape", tuple(g.shape) == half(shape))
    for k, (re, im) in spectrum(f, shape).items():
        z = g[k]
        env.eq(label + ".re", z.real, re)
        env.eq(label + ".im", z.imag, im)


def output(env, name, shape, align):
    """pyFFTW demands aligned output arrays; only inputs may be unaligned"""
    if env.concrete:
        env.alignment(True)
    g = env.field(name, shape)
    if env.concrete:
        env.alignment(align)
    return g


def c_plans(env, dim, shape, threads, align, uses):
    """the planned transforms on the user's arrays"""
    env.alignment(align)
    h = helper(env, dim, shape, threads)
    for n in range(uses):
        f = env.field("f%d" % n, shape)
        f0 = env.snap(f)
        F = env.cfield("F%d" % n, half(shape), cdt(env))
        h.fft_plan(input_array=f, output_array=F)
        check_spectrum(env, "forward transform %d" % n, F, f0, shape)
        env.unchanged("forward input %d" % n, f, f0)
        g = output(env, "g%d" % n, shape, align)
        h.ifft_plan(input_array=F, output_array=g)
        env.all_eq("backward of forward %d" % n, g, f0)


def c_buffers(env, dim, shape, threads):
    """the planned transforms on the helper's own buffers"""
    h = helper(env, dim, shape, threads)
    f = env.field("f", shape)
    f0 = env.snap(f)
    h.field_pyfftw_buffer[...] = f
    h.fft_plan()
    check_spectrum(env, "forward transform of the buffer", h.fourier_field_pyfftw_buffer, f0, shape)
    h.ifft_plan()
    env.all_eq("backward into the buffer", h.field_pyfftw_buffer, f0)


def c_combined(env, dim, shape, threads, align, uses):
    env.alignment(align)
    h = helper(env, dim, shape, threads)
    for n in range(uses):
        f = env.field("f%d" % n, shape)
        f0 = env.snap(f)
        F = env.cfield("F%d" % n, half(shape), cdt(env))
        g = output(env, "g%d" % n, shape, align)
        h.fft_ifft_plan_kernel(fourier_field=F, inv_fourier_field=g, field=f)
        env.all_eq("forward then backward %d" % n, g, f0)
        env.unchanged("input field %d" % n, f, f0)


def c_scipy(env, dim, shape, threads):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import fft_ifft_via_scipy_kernel_2d as k
    else:
        from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import fft_ifft_via_scipy_kernel_3d as k
    f = env.field("f", shape)
    f0 = env.snap(f)
    F = env.cfield("F", half(shape), cdt(env))
    g = env.field("g", shape)
    k(fourier_field=F, inv_fourier_field=g, field=f, num_threads=threads)
    check_spectrum(env, "reference forward transform", F, f0, shape)
    env.all_eq("reference backward transform", g, f0)
    env.unchanged("input field", f, f0)


def cases(tier, seed):
    out = []
    thorough = tier == "thorough"

    def add(name, fn, rt, validate=False, **p):
        out.append(Case(name, fn, p, linear=True, real_t=rt, validate=validate, weight=len(cells(p["shape"])) ** 2))

    s2 = [(4, 6), (5, 3), (3, 7), (8, 5), (6, 6)] + ([(9, 8), (7, 9), (12, 10), (2, 2), (16, 6)] if thorough else [])
    s3 = [(2, 3, 4), (4, 2, 3), (3, 4, 5), (4, 4, 4)] + ([(5, 6, 4), (6, 3, 7), (2, 2, 2)] if thorough else [])
    for dim, shapes in ((2, s2), (3, s3)):
        for n, sh in enumerate(shapes):
            for rt in ("float64", "float32"):
                if rt == "float32" and n > 1 and not thorough:
                    continue
                t = "%dd-%s-%s" % (dim, rt, "x".join(map(str, sh)))
                v = n < 2
                add("plans-" + t, c_plans, rt, v, dim=dim, shape=sh, threads=1 + n % 2, align=n % 2 == 0, uses=1 + n % 2)
                add("combined-" + t, c_combined, rt, v, dim=dim, shape=sh, threads=1 + n % 2, align=n % 2 == 1, uses=1 + (n + 1) % 2)
                add("scipy-" + t, c_scipy, rt, v, dim=dim, shape=sh, threads=1 + n % 2)
                if rt == "float64":
                    add("buffers-" + t, c_buffers, rt, v, dim=dim, shape=sh, threads=1)
    return out
