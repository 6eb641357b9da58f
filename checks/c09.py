"""C09 Brinkmann penalisation."""
from .common import again, cells, configs, mkcase, gen_kw, vshape, fld

FUNCTIONS = ["gen_brinkmann_penalise_pyst_kernel_2d/3d", "gen_brinkmann_penalise_vs_fixed_val_pyst_kernel_2d"]
BOUNDS = ("grids 2D 6..11 per axis and 70x134, 3D 5..7 per axis and 24x41x34; float32/float64; num_threads False/2 (thorough 1,4,7); "
          "generic and fixed size; scalar and vector; field, target, characteristic values and factor symbolic reals, "
          "the latter two non-negative (no upper bound); output distinct from, or identical to, the field or the target")
OUTSIDE = "floating-point rounding; other grid sizes and thread counts"
ASSUMPTIONS = ["pystencils' generated C implements its typed AST (checked on the compiled kernels for sampled values)"]


def _mod(dim):
    if dim == 2:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_2d import brinkmann_penalise_2d as m
    else:
        from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import brinkmann_penalise_3d as m
    return m


def _gen(env, dim, threads, fixed, shape, ft, val=False):
    f = getattr(_mod(dim), "gen_brinkmann_penalise_%spyst_kernel_%dd" % ("vs_fixed_val_" if val else "", dim))
    return env.once((val, dim, ft), lambda: f(**gen_kw(env, threads, fixed, shape, field_type=ft)))


def _call(k, ft, out, fac, chi, target, field, val=False):
    if ft == "scalar":
        k(penalised_field=out, penalty_factor=fac, char_field=chi, field=field,
          **({"penalty_val": target} if val else {"penalty_field": target}))
    else:
        k(penalised_vector_field=out, penalty_factor=fac, char_field=chi, vector_field=field,
          **({"penalty_val": target} if val else {"penalty_vector_field": target}))


def _inp(env, dim, shape, strided, ft, val, alias=""):
    vs = vshape(dim, ft, shape)
    f = fld(env, "f", vs, strided)
    chi = fld(env, "c", shape, strided, lo=0)
    fac = env.scalar("p", lo=0)
    if val:
        t = env.scalar("t") if ft == "scalar" else [env.scalar("t%d" % j) for j in range(dim)]
    else:
        t = fld(env, "t", vs, strided)
    o = {"": None, "field": f, "target": t}[alias]
    if o is None:
        o = fld(env, "o", vs, strided)
    return vs, f, chi, fac, t, o


def c_value(env, dim, threads, fixed, shape, strided, ft, val, alias=""):
    k = _gen(env, dim, threads, fixed, shape, ft, val)
    vs, f, chi, fac, t, o = _inp(env, dim, shape, strided, ft, val, alias)
    f0, c0 = env.snap(f), env.snap(chi)
    t0 = None if val else env.snap(t)
    _call(k, ft, o, fac, chi, t, f, val)
    s = env.snap(o)
    for i in cells(vs):
        j = i[-dim:]
        tv = t0[i] if not val else t if ft == "scalar" else t[i[0]]
        pc = fac * c0[j]
        env.eq("penalised value", s[i], (f0[i] + pc * tv) / (1 + pc))
        if max(shape) < 20:
            env.true("between field and target", env.or_(env.and_(env.le_(f0[i], s[i]), env.le_(s[i], tv)),
                                                         env.and_(env.le_(tv, s[i]), env.le_(s[i], f0[i]))) if not env.concrete
                     else min(f0[i], tv) - 1e-4 <= s[i] <= max(f0[i], tv) + 1e-4)
    if o is not f:
        env.unchanged("field unchanged", f, f0)
    if not val and o is not t:
        env.unchanged("target unchanged", t, t0)
    env.unchanged("characteristic field unchanged", chi, c0)


def c_limits(env, dim, threads, fixed, shape, strided, ft, val):
    """zero factor, zero characteristic value, fixed point, monotone in factor and characteristic value"""
    k = _gen(env, dim, threads, fixed, shape, ft, val)
    vs, f, chi, fac, t, o = _inp(env, dim, shape, strided, ft, val)
    f0 = env.snap(f)
    _call(k, ft, o, 0, chi, t, f, val)
    env.all_eq("zero factor leaves the field", o, f0)
    _call(k, ft, o, fac, env.zeros(shape), t, f, val)
    env.all_eq("zero characteristic value leaves the field", o, f0)
    if val:
        # agreement with a constant target field
        k2 = _gen(env, dim, threads, fixed, shape, ft)
        tf = env.array(_const(env, vs, t, ft))
        o2 = fld(env, "o2", vs, strided)
        _call(k, ft, o, fac, chi, t, f, True)
        _call(k2, ft, o2, fac, chi, tf, f)
        env.all_eq("fixed value agrees with a constant target", o, o2)
    else:
        _call(k, ft, o, fac, chi, f, f)
        env.all_eq("target is the fixed point", o, f0)
    dp = env.scalar("dp", lo=0)
    o2 = fld(env, "o2", vs, strided)
    t0 = None if val else env.snap(t)
    _call(k, ft, o, fac, chi, t, f, val)
    _call(k, ft, o2, fac + dp, chi, t, f, val)
    a, b = env.snap(o), env.snap(o2)
    for i in cells(vs):
        tv = t0[i] if not val else t if ft == "scalar" else t[i[0]]
        env.le("monotone in the factor", env.abs(b[i] - tv), env.abs(a[i] - tv))
    dc = fld(env, "dc", shape, strided, lo=0)
    cs, ds = env.snap(chi), env.snap(dc)
    more = env.array([[x + y for x, y in zip(r, q)] for r, q in zip(_rows(cs), _rows(ds))]) if dim == 2 else \
        env.array([[[x + y for x, y in zip(r, q)] for r, q in zip(_rows(a1), _rows(b1))] for a1, b1 in zip(_rows(cs, 1), _rows(ds, 1))])
    _call(k, ft, o2, fac, more, t, f, val)
    b = env.snap(o2)
    for i in cells(vs):
        tv = t0[i] if not val else t if ft == "scalar" else t[i[0]]
        env.le("monotone in the characteristic value", env.abs(b[i] - tv), env.abs(a[i] - tv))


def _rows(s, raw=0):
    r = [s[i] for i in range(s.shape[0])]
    return r if raw else [list(x.flat) for x in r]


def _const(env, vs, t, ft):
    def build(sh, c):
        if not sh:
            return c
        return [build(sh[1:], c) for _ in range(sh[0])]
    if ft == "scalar":
        return build(vs, t)
    return [build(vs[1:], x) for x in t]


def cases(tier, seed):
    out = []
    for dim in (2, 3):
        for n, c in enumerate(configs(dim, tier, seed=seed)):
            small = max(c["shape"]) < 20 and not c["strided"]
            for ft in ("scalar", "vector"):
                for val in ((False, True) if dim == 2 else (False,)):
                    x = (ft, "val" if val else "")
                    al = [""] + (["field"] if small else []) + (["target"] if small and not val else [])
                    for a in al:
                        out.append(mkcase("brink", dim, c_value, c, x + (a,), n in (1, 2, 5) and a in ("", "field"),
                                          params=dict(ft=ft, val=val, alias=a)))
                    if small and n in (0, 3, 5):
                        out.append(mkcase("limits", dim, c_limits, c, x, n == 3, params=dict(ft=ft, val=val)))
    return out + again(out)
