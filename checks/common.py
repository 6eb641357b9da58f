"""Shared pieces of the checks: configuration matrices and reference stencils."""
import itertools

import numpy as np

from lib.harness import Case, Snap, cells  # noqa: F401

SMALL2 = [(7, 9), (9, 6), (8, 8), (6, 11)]
SMALL3 = [(6, 5, 7), (5, 7, 6), (7, 6, 5), (6, 6, 6)]
MID2 = [(70, 134), (129, 66)]
MID3 = [(24, 41, 34), (40, 18, 26)]
AX = "xyz"


def configs(dim, tier, mid=True, threads=(False, 2), strided=True, minimal=False, seed=1):
    """Yields keyword dicts: real_t, threads, fixed, shape, strided."""
    small = SMALL2 if dim == 2 else SMALL3
    n = seed
    out = []
    tl = list(threads) + ([1, 4, 7] if tier == "thorough" else [])
    for real_t, th, fixed in itertools.product(("float64", "float32"), tl, (False, True)):
        if minimal and (real_t, bool(th), fixed) not in (("float64", False, True), ("float32", True, False)):
            continue
        out.append(dict(real_t=real_t, threads=th, fixed=fixed, shape=small[n % len(small)], strided=False))
        n += 1
    if strided:
        out.append(dict(real_t="float64", threads=False, fixed=False, shape=small[n % len(small)], strided=True))
    if mid:
        m = MID2 if dim == 2 else MID3
        out.append(dict(real_t="float64", threads=2, fixed=False, shape=m[0], strided=False))
        if tier == "thorough":
            out.append(dict(real_t="float32", threads=False, fixed=True, shape=m[1], strided=False))
            sh = (34, 257) if dim == 2 else (9, 65, 12)
            out.append(dict(real_t="float64", threads=4, fixed=True, shape=sh, strided=False))
    return out


def cname(op, dim, c, *extra):
    s = "%s%dd-%s-t%s-%s-%s" % (op, dim, c["real_t"][-2:], int(c["threads"]), "fix" if c["fixed"] else "gen",
                                "x".join(map(str, c["shape"])))
    if c.get("strided"):
        s += "-strided"
    for e in extra:
        if e not in (None, "", False):
            s += "-%s" % (e,)
    return s


def mkcase(op, dim, fn, c, extra=(), validate=False, **kw):
    """A harness case for kernel `op` in configuration `c`."""
    params = dict(dim=dim, threads=c["threads"], fixed=c["fixed"], shape=tuple(c["shape"]), strided=c["strided"])
    params.update(kw.pop("params", {}))
    w = float(np.prod(c["shape"])) / 50 + 5
    return Case(cname(op, dim, c, *extra), fn, params, real_t=c["real_t"], validate=validate, weight=kw.pop("weight", w),
                **kw)


def c_again(env, fn, seq, kw):
    for n, (over, same) in enumerate(seq):
        env.begin_round(n, same)
        fn(env, **dict(kw, **over))


def repeated(c, tag="-again"):
    """the harness three times on the same objects: other arrays, then the first arrays with new contents"""
    seq = [({}, False), ({}, False), ({}, True)]
    return Case(c.name + tag, c_again, dict(fn=c.fn, seq=seq, kw=dict(c.params)), real_t=c.real_t, validate=c.validate,
                linear=c.linear, weight=3 * c.weight, timeout=c.timeout, max_paths=c.max_paths, deep=c.deep, sym_real=c.sym_real)


def again(cs, shapes=True, pick=None, every=False):
    """For some of the cases: the same harness several times on the same kernel objects, with other arrays (of another
    shape where the kernel is generic), then with the first arrays and new contents."""
    out = []
    for c in cs:
        p = c.params
        if max(p["shape"]) > 20 or p.get("strided") or not c.symbolic:
            continue
        if (c.real_t, bool(p["threads"])) not in (("float64", False), ("float32", True)) and not every:
            continue
        if pick and not pick(c):
            continue
        fixed = p["fixed"]
        if fixed != (c.real_t == "float32") and not every and fixed is not None:
            continue
        over = {}
        if shapes and not fixed:
            over = dict(shape=tuple(n + 1 for n in reversed(p["shape"])))
        seq = [({}, False), (over, False), ({}, True)]
        out.append(Case(c.name + "-again", c_again, dict(fn=c.fn, seq=seq, kw=dict(p)), real_t=c.real_t, validate=c.validate,
                        weight=3 * c.weight, timeout=c.timeout, max_paths=c.max_paths, deep=c.deep, sym_real=c.sym_real))
    return out


def gen_kw(env, threads, fixed, shape, **kw):
    d = dict(real_t=env.real_t, num_threads=threads, **kw)
    if fixed is not None:
        d["fixed_grid_size"] = tuple(shape) if fixed else False
    return d


def vshape(dim, ft, shape):
    return ((dim,) if ft == "vector" else ()) + tuple(shape)


def fld(env, name, shape, strided=False, **kw):
    """An input field; strided: a non-contiguous view of a larger array."""
    if not strided:
        return env.field(name, shape, **kw)
    n = len(shape)
    big = tuple(s + (3 if i == n - 1 else 1 if i == n - 2 else 0) for i, s in enumerate(shape))
    b = env.field(name + "B", big, **kw)
    sl = tuple(slice(0, s) for s in shape[:-2]) + (slice(1, 1 + shape[-2]), slice(2, 2 + shape[-1]))
    if not hasattr(env, "parents"):
        env.parents = {}
    env.parents[name] = (b, env.snap(b), sl)
    return b[sl]


def parent_unchanged(env, name):
    """Cells of the larger array around a strided view are untouched."""
    if name not in getattr(env, "parents", {}):
        return
    b, old, sl = env.parents[name]
    new = env.snap(b)
    for i in cells(new.shape):
        if not all(s.start <= x < s.stop for x, s in zip(i, sl)):
            env.eq("memory between the rows of a view is untouched", new[i], old[i])


# ---------------------------------------------------------------------------
# reference stencils; axis 0 of a `pos` tuple is the slowest (z or y); component 0 is x
def sh(i, axis_xyz, d):
    """index i moved by d along spatial axis 0=x, 1=y, 2=z"""
    k = len(i) - 1 - axis_xyz
    return i[:k] + (i[k] + d,) + i[k + 1:]


def ddc(f, i, a):
    """f(+1) - f(-1) along axis a"""
    return f[sh(i, a, 1)] - f[sh(i, a, -1)]


def lap(f, i):
    dim = len(i)
    r = -2 * dim * f[i]
    for a in range(dim):
        r = r + f[sh(i, a, 1)] + f[sh(i, a, -1)]
    return r
