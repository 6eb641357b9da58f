"""C23 loading refuses data that does not match the registered set-up."""
import numpy as np

from .common import Case
from .iolib import Setup, check_same, io_class, refused, scratch, shaped

FUNCTIONS = ["IO.load, IO.save, IO.define_eulerian_grid, IO.add_as_eulerian_fields_for_io, IO.add_as_lagrangian_fields_for_io"]
BOUNDS = ("every pair of origins and spacings (symbolic reals, any single or combined difference beyond 1e-6 relative); every pair of grid sizes with 1..3 (2D) or "
          "1..2 (3D) cells a side, including those that numpy would broadcast; every choice of which of two Eulerian and two Lagrangian names the file and the "
          "set-up have and as which type; numbers of points 1..4 on either side, with and without fields; every shape of rank 0..4 with sides 0..6 at "
          "registration (symbolic integers)")
OUTSIDE = ("differences of origin or spacing within floating-point tolerance; damaged HDF5 files (the HDF5 library refuses them); running Python with -O; the state "
           "of the registered arrays after a refusal; Eulerian parameters when no Eulerian field is registered for loading")
ASSUMPTIONS = ["h5py stores and returns datasets and attributes unchanged, and visit() lists the names of all objects"]


def fixed(env, dim, v=(0.5, 0.25)):
    return env.plain([v[0]] * dim), env.plain([v[1]] * dim)


def c_params(env, dim, kinds, sep):
    """difference of origin or spacing is refused; equal ones are not"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        f = {"u": "v" if kinds else "s"}
        A = Setup(env, dim, (sh, f), [], "A")
        if sep == "all":
            o2 = env.array([env.scalar("b_origin%d" % a, -2, 2, free="both") for a in range(dim)])
            d2 = env.array([env.scalar("b_dx%d" % a, 0, 2, strict=True, free="hi") for a in range(dim)])
        else:
            # one component of one parameter differs by a symbolic amount
            which = int(env.integer("which", 0, 2 * dim - 1))
            e = env.scalar("e", -1, 1)
            o2 = env.array([env.snap(A.origin)[a] + (e if which == a else 0) for a in range(dim)])
            d2 = env.array([env.snap(A.dx)[a] + (e if which == dim + a else 0) for a in range(dim)])
        B = Setup(env, dim, (sh, f), [], "B", origin=o2, dx=d2)
        saved = A.snap()
        A.io.save(h5_file_name="f.h5", time=1.5)
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        x = env.snap(A.origin).flat + env.snap(A.dx).flat
        y = env.snap(B.origin).flat + env.snap(B.dx).flat
        if no:
            env.true("only a difference is refused", env.or_(*[env.not_(env.eq_(p, q)) for p, q in zip(x, y)]))
        else:
            for p, q in zip(x, y):
                m = env.abs(p) + env.abs(q)
                env.true("a different origin or spacing is refused", env.le_(env.abs(p - q), m * env.frac(1, 1000000)))
            check_same(env, "what is accepted is loaded", B, saved)


def c_sizes(env, dim, kind):
    with scratch(env):
        hi = 3 if dim == 2 else 2
        s1 = tuple(int(env.integer("file n%d" % a, 1, hi)) for a in range(dim))
        s2 = tuple(int(env.integer("set-up n%d" % a, 1, hi)) for a in range(dim))
        o, d = fixed(env, dim)
        A = Setup(env, dim, (s1, {"u": kind}), [], "A", origin=o, dx=d)
        B = Setup(env, dim, (s2, {"u": kind}), [], "B", origin=o, dx=d)
        A.io.save(h5_file_name="f.h5")
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        env.true("a file is refused exactly when its grid size differs", no == (s1 != s2))


def c_dim(env, first):
    """a file written for the other dimension is refused"""
    with scratch(env):
        kind = "v" if env.boolean("vector") else "s"
        eul, lag = bool(env.boolean("euler")), bool(env.boolean("lagrangian"))
        env.assume(env.or_(eul, lag))
        su = {}
        for dim in (2, 3):
            sh = ((3, 2) if dim == 2 else (1, 3, 2)) if env.boolean("flat") else ((2, 2) if dim == 2 else (2, 2, 2))
            o, d = fixed(env, dim)
            su[dim] = Setup(env, dim, (sh, {"u": kind}) if eul else None, [("g", 2, False, {"f": kind})] if lag else [], str(dim), origin=o, dx=d)
        su[first].io.save(h5_file_name="f.h5")
        if eul or lag:
            env.true("a file of the other dimension is refused", refused(env, lambda: su[5 - first].io.load(h5_file_name="f.h5")))


def c_missing(env, dim, vec):
    """the file has some fields of some types, the set-up others"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        o, d = fixed(env, dim)
        names = ("u", "u_0")
        f, g = {}, {}
        for n in names:
            if env.boolean("file has " + n):
                f[n] = "v" if env.boolean("file vector " + n) else "s"
            if env.boolean("set-up has " + n):
                g[n] = "v" if env.boolean("set-up vector " + n) else "s"
        if vec:
            f["w"], g["w"] = "v", "v"
        A = Setup(env, dim, (sh, f), [], "A", origin=o, dx=d)
        B = Setup(env, dim, (sh, g), [], "B", origin=o, dx=d)
        saved = A.snap()
        A.io.save(h5_file_name="f.h5")
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        bad = any(f.get(n) != k for n, k in g.items())
        env.true("a file is refused exactly when it lacks a registered field or holds it under another type", no == bad)
        if not no:
            check_same(env, "what is accepted is loaded", B, {k: v for k, v in saved.items() if k in B.regs})


def c_component(env, dim):
    """a file that holds only some components of a vector field"""
    with scratch(env):
        from .iolib import h5

        sh = (2, 3) if dim == 2 else (2, 2, 2)
        o, d = fixed(env, dim)
        A = Setup(env, dim, (sh, {"u": "v", "p": "s"}), [("g", 2, False, {"f": "v"})], "A", origin=o, dx=d)
        B = Setup(env, dim, (sh, {"u": "v", "p": "s"}), [("g", 2, False, {"f": "v"})], "B", origin=o, dx=d)
        A.io.save(h5_file_name="f.h5")
        lost = int(env.integer("lost", 0, 3 + dim))
        name = ["Eulerian/Scalar/p", "Lagrangian/g/Vector/f", "Lagrangian/g/Grid", "Lagrangian/g"] + ["Eulerian/Vector/u_%d" % i for i in range(dim)]
        with h5().File("f.h5", "r+") as f:
            if name[lost] not in f:
                return  # another layout of the file
            del f[name[lost]]
        env.true("a file lacking a part is refused", refused(env, lambda: B.io.load(h5_file_name="f.h5")))


def c_lag(env, dim, second, hi):
    """names of grids, numbers of points, names and types of their fields"""
    with scratch(env):
        def side(w):
            r = []
            for g in ("one", "two")[:1 + second]:
                if env.boolean(w + " has " + g):
                    fs = {}
                    if env.boolean("%s %s.f" % (w, g)):
                        fs["f"] = "v" if env.boolean("%s %s.f vector" % (w, g)) else "s"
                    n = int(env.integer("%s N %s" % (w, g), 1, hi)) if g == "one" or not second else 2
                    r.append((g, n, False, fs))
            return r
        fl, su = side("file"), side("set-up")
        A, B = Setup(env, dim, None, fl, "A"), Setup(env, dim, None, su, "B")
        A.io.save(h5_file_name="f.h5", time=2.5)
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        have = {g: (n, fs) for g, n, _, fs in fl}
        bad = any(g not in have or have[g][0] != n or any(have[g][1].get(f) != k for f, k in fs.items()) for g, n, _, fs in su)
        env.true("a file is refused exactly when grids, numbers of points or fields do not match", no == bad)


def c_points(env, dim, fields):
    """numbers of points, also those that numpy would broadcast"""
    with scratch(env):
        n1, n2 = int(env.integer("file N", 1, 4)), int(env.integer("set-up N", 1, 4))
        fs = {"f": fields} if fields else {}
        A = Setup(env, dim, None, [("g", n1, bool(env.boolean("connect")), fs)], "A")
        B = Setup(env, dim, None, [("g", n2, bool(env.boolean("set-up connect")), fs)], "B")
        A.io.save(h5_file_name="f.h5")
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        env.true("a different number of points is refused", no or n1 == n2)
        if n1 == n2 and len(A.io.lagrangian_grids if hasattr(A.io, "lagrangian_grids") else [1]) == 1:
            env.true("the same number of points is accepted", not no)


def c_elsewhere(env, dim):
    """the field exists, but on the other grid"""
    with scratch(env):
        k = "v" if env.boolean("vector") else "s"
        j = bool(env.boolean("on the second"))
        i = bool(env.boolean("wanted on the second"))
        A = Setup(env, dim, None, [("a", 2, False, {} if j else {"f": k}), ("b", 2, False, {"f": k} if j else {})], "A")
        B = Setup(env, dim, None, [("a", 2, False, {} if i else {"f": k}), ("b", 2, False, {"f": k} if i else {})], "B")
        A.io.save(h5_file_name="f.h5")
        env.true("a field of another grid is not taken", refused(env, lambda: B.io.load(h5_file_name="f.h5")) == (i != j))


def c_eulag(env, dim):
    """a Lagrangian field is not taken for an Eulerian one of the same name and shape, nor the reverse"""
    with scratch(env):
        o, d = fixed(env, dim)
        sh = (2,) * dim
        a, b = bool(env.boolean("file eulerian")), bool(env.boolean("set-up eulerian"))
        A = Setup(env, dim, (sh, {"f": "s"} if a else {}), [("g", 2, False, {} if a else {"f": "v"})], "A", origin=o, dx=d)
        B = Setup(env, dim, (sh, {"f": "s"} if b else {}), [("g", 2, False, {} if b else {"f": "v"})], "B", origin=o, dx=d)
        A.io.save(h5_file_name="f.h5")
        env.true("fields of the other kind of grid are not taken", refused(env, lambda: B.io.load(h5_file_name="f.h5")) == (a != b))


def c_combined(env, dim):
    """any combination of mismatches, and loads before and after"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 1, 3)
        o, d = fixed(env, dim)
        e = env.scalar("e", 0, 1)
        eo, ed, es, en, ef = (bool(env.boolean(n)) for n in ("origin", "dx", "size", "points", "field"))
        if eo or ed:
            env.assume(env.le_(env.frac(1, 1000), e))
        mk = lambda t, o_, d_, s_, n_, f_: Setup(env, dim, (s_, {"u": "s", "w": "v"}), [("g", n_, True, {f_: "v"})], t, origin=o_, dx=d_)  # noqa: E731
        A = mk("A", o, d, sh, 2, "f")
        last = dim - 1
        B = mk("B", env.array([0.5 + (e if eo and a == last else 0) for a in range(dim)]),
               env.array([0.25 + (e if ed and a == 0 else 0) for a in range(dim)]), (1,) + sh[1:] if es else sh, 1 if en else 2, "g" if ef else "f")
        G = mk("G", o, d, sh, 2, "f")
        A.io.save(h5_file_name="f.h5")
        saved = A.snap()
        G.io.load(h5_file_name="f.h5")
        check_same(env, "a matching set-up loads", G, saved)
        no = refused(env, lambda: B.io.load(h5_file_name="f.h5"))
        env.true("refused exactly when something differs", no == (eo or ed or es or en or ef))
        B.io.save(h5_file_name="h.h5")
        no = refused(env, lambda: G.io.load(h5_file_name="h.h5"))
        env.true("refused exactly when something differs", no == (eo or ed or es or en or ef))
        G.io.load(h5_file_name="f.h5")
        check_same(env, "a matching set-up loads after a refusal", G, saved)


def c_shape_eul(env, dim, rank, late):
    """registration of a field of any shape on an Eulerian grid of any size"""
    io = io_class()(dim=dim, real_dtype=env.base_t)
    o, d = fixed(env, dim)
    sh = (3, 2) if dim == 2 else (3, 2, 4)
    shape = tuple(env.integer("s%d" % i, 0, 6) for i in range(rank))
    io.define_eulerian_grid(origin=o, dx=d, grid_size=np.array(sh))
    if late:
        io.add_as_eulerian_fields_for_io(good=shaped(env, sh) if env.concrete else shaped(env, sh))
    no = refused(env, lambda: io.add_as_eulerian_fields_for_io(f=shaped(env, shape)))
    fits = [env.and_(*[env.eq_(a, b) for a, b in zip(shape, w)]) for w in (sh, (dim,) + sh) if len(w) == rank]
    fits = env.or_(*fits) if fits else False
    env.true("a shape that is neither scalar nor vector on the grid is refused", env.or_(no, fits))
    env.true("scalar and vector shapes are accepted", env.or_(not no, env.not_(fits)))


def c_shape_lag(env, dim, rank, N):
    io = io_class()(dim=dim, real_dtype=env.base_t)
    shape = tuple(env.integer("s%d" % i, 0, 6) for i in range(rank))
    grid = np.zeros((dim, N))
    no = refused(env, lambda: io.add_as_lagrangian_fields_for_io(lagrangian_grid=grid, f=shaped(env, shape)))
    fits = [env.and_(*[env.eq_(a, b) for a, b in zip(shape, w)]) for w in ((N,), (dim, N)) if len(w) == rank]
    fits = env.or_(*fits) if fits else False
    env.true("a shape that is neither scalar nor vector on the grid is refused", env.or_(no, fits))
    env.true("scalar and vector shapes are accepted", env.or_(not no, env.not_(fits)))


def c_shape_grid(env, dim, rank):
    io = io_class()(dim=dim, real_dtype=env.base_t)
    shape = tuple(env.integer("s%d" % i, 0, 6) for i in range(rank))
    no = refused(env, lambda: io.add_as_lagrangian_fields_for_io(lagrangian_grid=shaped(env, shape)))
    fits = env.eq_(shape[0], dim) if rank == 2 else False
    env.true("a Lagrangian grid that is not (dim, N) is refused", env.or_(no, fits))
    env.true("every (dim, N) grid is accepted", env.or_(not no, env.not_(fits)))


def c_nogrid(env, dim):
    sh = (3, 2) if dim == 2 else (3, 2, 4)
    io = io_class()(dim=dim, real_dtype=env.base_t)
    vec = bool(env.boolean("vector"))
    if env.boolean("lagrangian first"):
        io.add_as_lagrangian_fields_for_io(lagrangian_grid=np.zeros((dim, 2)), f=np.zeros((2,)))
    env.true("Eulerian fields before the grid are refused",
             refused(env, lambda: io.add_as_eulerian_fields_for_io(u=np.zeros(((dim,) if vec else ()) + sh))))
    other = io_class()(dim=dim, real_dtype=env.base_t)
    o, d = fixed(env, dim)
    other.define_eulerian_grid(origin=o, dx=d, grid_size=np.array(sh))
    env.true("a grid defined for another object does not count",
             refused(env, lambda: io.add_as_eulerian_fields_for_io(u=np.zeros(((dim,) if vec else ()) + sh))))
    io.define_eulerian_grid(origin=o, dx=d, grid_size=np.array(sh))
    env.true("accepted once the grid is defined",
             not refused(env, lambda: io.add_as_eulerian_fields_for_io(u=np.zeros(((dim,) if vec else ()) + sh))))


def c_nofile(env, dim):
    with scratch(env):
        A = Setup(env, dim, None, [("g", 2, False, {"f": "s"})], "A")
        env.true("a file that does not exist is refused", refused(env, lambda: A.io.load(h5_file_name="nothing.h5")))
        A.io.save(h5_file_name="f.h5")
        env.true("a file that exists is loaded", not refused(env, lambda: A.io.load(h5_file_name="f.h5")))


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    kw = dict(validate=True, sym_real=True, weight=100, max_paths=4000)
    for dim in (2, 3):
        for kinds in (0, 1):
            for sep in ("all", "one"):
                for rt in ("float64", "float32") if T or not kinds else ("float64",):
                    out.append(Case("params%dd-%s-%s-%s" % (dim, "sv"[kinds], sep, rt), c_params, dict(dim=dim, kinds=kinds, sep=sep), real_t=rt, **kw))
            out.append(Case("sizes%dd-%s" % (dim, "sv"[kinds]), c_sizes, dict(dim=dim, kind="sv"[kinds]), **kw))
            out.append(Case("missing%dd-%d" % (dim, kinds), c_missing, dict(dim=dim, vec=bool(kinds)), **kw))
        out.append(Case("dim%d" % dim, c_dim, dict(first=dim), **kw))
        out.append(Case("component%dd" % dim, c_component, dict(dim=dim), **kw))
        for second in (0, 1):
            out.append(Case("lag%dd-%d" % (dim, second), c_lag, dict(dim=dim, second=second, hi=(5 if T else 4) if not second else 2), **kw))
        for f in ("", "s", "v"):
            out.append(Case("points%dd-%s" % (dim, f or "bare"), c_points, dict(dim=dim, fields=f), **kw))
        for n, fn in (("elsewhere", c_elsewhere), ("eulag", c_eulag), ("combined", c_combined), ("nogrid", c_nogrid), ("nofile", c_nofile)):
            out.append(Case("%s%dd" % (n, dim), fn, dict(dim=dim), **kw))
        for rank in range(5):
            for late in (False, True):
                out.append(Case("shape-eul%dd-r%d-%d" % (dim, rank, late), c_shape_eul, dict(dim=dim, rank=rank, late=late), **kw))
            for N in (1, dim, 4, 0):
                out.append(Case("shape-lag%dd-r%d-N%d" % (dim, rank, N), c_shape_lag, dict(dim=dim, rank=rank, N=N), **kw))
            out.append(Case("shape-grid%dd-r%d" % (dim, rank), c_shape_grid, dict(dim=dim, rank=rank), **kw))
    return out
