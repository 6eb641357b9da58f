"""C22 saved fields load back identical."""
import os
import shutil

import numpy as np

from .common import Case
from .iolib import Setup, check_parents, check_same, content, h5, same_content, scratch

FUNCTIONS = ["IO.__init__, define_eulerian_grid, add_as_eulerian_fields_for_io, add_as_lagrangian_fields_for_io, save, _save, load, "
             "generate_xdmf_eulerian, generate_xdmf_lagrangian (executed as part of save)"]
BOUNDS = ("every content of every registered array, every origin, spacing and time (symbolic reals), every choice of scalar/vector, of connectivity, of "
          "named/unnamed grids and of registered fields (symbolic choices, every feasible path); 2D and 3D grids up to 4 cells a side, up to 4 Lagrangian "
          "grids with 0..4 points including N = dimension and N = 1, arrays contiguous, transposed, reversed or parts of larger arrays, one or mixed "
          "precisions; histories of up to 4 saves and 3 loads; symbolic integer connectivity")
OUTSIDE = ("h5py and the HDF5 library (replaced by an in-memory stand-in in the symbolic runs, used for real in the validation runs and replays); registering "
           "the same explicit grid name again (a replacement); names containing '/'; crashes during a save")
ASSUMPTIONS = ["h5py stores and returns datasets and attributes unchanged"]


def conf(env, dim, which):
    """set-ups; the symbolic choices fork the execution"""
    b = lambda n: bool(env.boolean(n))  # noqa: E731
    k = lambda n: "v" if b("vector " + n) else "s"  # noqa: E731
    sh = (3, 4) if dim == 2 else (2, 3, 2)
    if which == "euler":
        f = {"u": k("u")}
        if b("second field"):
            f["u_0"] = k("u_0")
        if b("third field"):
            f["Scalar"] = k("third")
        return (sh, f), []
    if which == "thin":
        return ((1, 4) if dim == 2 else (3, 1, 2), {"a": k("a"), "b": k("b")}), []
    if which == "lag":
        return None, [("one" if b("named") else None, (1, dim, 4)[int(env.integer("N", 0, 2))], b("connect"), {"p": k("p"), "Grid": k("Grid")})]
    if which == "empty":
        return ((sh, {"w": k("w")}) if b("euler") else None), [("e", 0, b("connect"), {"p": k("p")}), (None, 2, False, {"p": "v"})]
    if which == "shared":
        # the same field names on several grids and on the Eulerian grid, equal numbers of points
        f = {"u": k("u")}
        return (sh, {"u": k("eu"), "forces": "v"}), [("one", dim, b("connect one"), dict(f)), ("two", dim, b("connect two"), dict(f)),
                                                     (None, 2 if dim == 3 else 3, None, {"u": k("u3")})]
    if which == "sizes":
        # equal field names on grids of different sizes, of different types
        return None, [(None, 1, b("c0"), {"f": "s", "g": k("g0")}), (None, dim, b("c1"), {"f": "v", "g": k("g1")}), (None, 4, False, {"f": "s", "g": "v"})]
    if which == "defaults":
        # unnamed grids next to grids named like the default names
        n0 = ("Lagrangian_grid_0", "Lagrangian_grid_1", "Lagrangian_grid_2", "body")[int(env.integer("first name", 0, 3))]
        rest = [(None, 2, False, {"p": "s"}), (None, 2, True, {"p": "s"})]
        if b("named grid first"):
            return None, [(n0, 2, False, {"p": "s"})] + rest
        if n0 in ("Lagrangian_grid_0",):
            n0 = "body"
        if b("named grid last"):
            n0 = "other" if n0 == "Lagrangian_grid_1" else n0
            return None, rest + [(n0, 2, False, {"p": "s"})]
        return None, rest[:1] + [(n0, 2, False, {"p": "s"})] + rest[1:]
    if which == "nofields":
        return ((sh, {"u": "s"} if b("euler fields") else {}) if b("euler") else None), \
            [("bare", 2, b("connect"), {}), (None, 2, b("connect 2"), {} if b("second bare") else {"p": "v"})]
    raise ValueError(which)


def c_roundtrip(env, dim, which, layout, mixed, name):
    with scratch(env):
        eul, lags = conf(env, dim, which)
        dts = (None, None) if not mixed else (np.float32, np.float64)
        A = Setup(env, dim, eul, lags, "A", layout, dts)
        if hasattr(A.io, "lagrangian_grid_connection"):
            for j, (g, c) in enumerate(sorted(A.io.lagrangian_grid_connection.items())):
                if env.boolean("own connectivity"):
                    for i in range(len(c)):
                        pass
                    A.io.lagrangian_grid_connection[g] = env.array([env.integer("conn%d[%d]" % (j, i), 0, 9) for i in range(len(c))], dtype=int)
        saved, par = A.snap(), A.parents()
        t = env.scalar("time", -10, 10, free="both")
        os.makedirs("sub", exist_ok=True)
        A.io.save(h5_file_name=name, time=t)
        check_parents(env, "saving leaves every array unchanged", A, par, loaded=False)
        B = Setup(env, dim, eul, lags, "B", layout, dts, origin=A.origin, dx=A.dx)
        parB = B.parents()
        r = B.io.load(h5_file_name=name)
        env.true("the time is restored", env.eq_(r, t))
        check_same(env, "every registered array is restored", B, saved)
        check_parents(env, "loading changes no other array", B, parB)
        B.io.save(h5_file_name="again.h5", time=r)
        same_content(env, "saving what was loaded gives the same file", name, "again.h5")


def c_history(env, dim, order):
    """several saves and loads: each file holds the data of its last save, loads give that"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        eul, lags = (sh, {"u": "v", "p": "s"}), [("a", dim, False, {"f": "v"}), (None, 2, True, {"f": "s"})]
        A = Setup(env, dim, eul, lags, "A")
        B = Setup(env, dim, eul, lags, "B", origin=A.origin, dx=A.dx)
        files = {}
        for step, (op, f) in enumerate(order):
            if op == "save":
                if step:
                    A.refill("A%d" % step)
                t = env.scalar("t%d" % step, -10, 10, free="both")
                A.io.save(h5_file_name=f, time=t)
                files[f] = A.snap(), t
            elif op == "load":
                t = B.io.load(h5_file_name=f)
                check_same(env, "loading gives the data last saved to that file", B, files[f][0])
                env.true("loading gives the time last saved", env.eq_(t, files[f][1]))
            elif op == "self":
                before = B.snap()
                t = A.io.load(h5_file_name=f)
                check_same(env, "loading into the saving set-up restores it", A, files[f][0])
                env.true("loading gives the time last saved", env.eq_(t, files[f][1]))
                check_same(env, "loading changes no array registered elsewhere", B, before)
            elif op == "bsave":
                t = env.scalar("t%d" % step, -10, 10, free="both")
                B.io.save(h5_file_name=f, time=t)
                files[f] = B.snap(), t


def c_grow(env, dim):
    """fields registered after a first save, and a set-up registering only some of the saved fields"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        A = Setup(env, dim, (sh, {"p": "s"}), [("a", 2, True, {"f": "v"})], "A")
        A.io.save(h5_file_name="out.h5", time=env.scalar("t0", -10, 10, free="both"))
        u = env.field("late.u", (dim,) + sh)
        A.io.add_as_eulerian_fields_for_io(u=u)
        g, q = env.field("late.grid", (dim, 3)), env.field("late.q", (3,))
        A.io.add_as_lagrangian_fields_for_io(lagrangian_grid=g, lagrangian_grid_name="late", f=q)
        su, sg, sq, saved = env.snap(u), env.snap(g), env.snap(q), A.snap()
        t = env.scalar("t1", -10, 10, free="both")
        A.io.save(h5_file_name="out.h5", time=t)
        part = bool(env.boolean("only the late ones"))
        eul = (sh, {"u": "v"} if part else {"p": "s", "u": "v"})
        lags = [("late", 3, False, {"f": "s"})] + ([] if part else [("a", 2, True, {"f": "v"})])
        B = Setup(env, dim, eul, lags, "B", origin=A.origin, dx=A.dx)
        par = B.parents()
        r = B.io.load(h5_file_name="out.h5")
        env.true("the time is restored", env.eq_(r, t))
        want = {("E", "u"): su, ("L", 0, None): sg, ("L", 0, "f"): sq}
        if not part:
            want.update({("E", "p"): saved["E", "p"], ("L", 1, None): saved["L", 0, None], ("L", 1, "f"): saved["L", 0, "f"]})
        check_same(env, "fields registered later are saved and restored", B, want)
        check_parents(env, "loading changes no other array", B, par)


def c_alias(env, dim):
    """registered arrays that share memory (a vector and one of its components)"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        o, d = env.array([env.frac(1, 2)] * dim), env.array([env.frac(1, 4)] * dim)
        res = []
        for tag in "AB":
            io = __import__("sopht.utils.IO", fromlist=["IO"]).IO(dim=dim, real_dtype=env.base_t)
            io.define_eulerian_grid(origin=o, dx=d, grid_size=np.array(sh))
            u = env.field(tag + "u", (dim,) + sh)
            X, F = env.field(tag + "X", (dim, 2)), env.field(tag + "F", (dim, 2))
            io.add_as_eulerian_fields_for_io(u=u, ux=u[0], uy=u[1])
            io.add_as_lagrangian_fields_for_io(lagrangian_grid=X, lagrangian_grid_name="a", F=F)
            io.add_as_lagrangian_fields_for_io(lagrangian_grid=X, lagrangian_grid_name="b", Fx=F[0])
            res.append((io, u, X, F))
        s = [env.snap(x) for x in res[0][1:]]
        res[0][0].save(h5_file_name="out.h5", time=0.5)
        res[1][0].load(h5_file_name="out.h5")
        for x, y in zip(res[1][1:], s):
            g = env.snap(x)
            for p, q in zip(g.flat, y.flat):
                env.true("arrays sharing memory are restored", env.eq_(p, q))


def c_two(env, dim):
    """two IO objects at the same time keep their registrations apart"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        A = Setup(env, dim, (sh, {"u": "s"}), [(None, 2, True, {"f": "s"})], "A")
        C = Setup(env, dim, (sh, {"u": "s", "w": "v"}), [(None, 3, False, {"f": "v"}), (None, 2, False, {"g": "s"})], "C")
        ta, tc = env.scalar("ta", -10, 10, free="both"), env.scalar("tc", -10, 10, free="both")
        A.io.save(h5_file_name="a.h5", time=ta)
        C.io.save(h5_file_name="c.h5", time=tc)
        sa, sc = A.snap(), C.snap()
        B = Setup(env, dim, (sh, {"u": "s"}), [(None, 2, True, {"f": "s"})], "B", origin=A.origin, dx=A.dx)
        D = Setup(env, dim, (sh, {"u": "s", "w": "v"}), [(None, 3, False, {"f": "v"}), (None, 2, False, {"g": "s"})], "D", origin=C.origin, dx=C.dx)
        rc = D.io.load(h5_file_name="c.h5")
        ra = B.io.load(h5_file_name="a.h5")
        env.true("time of the first", env.eq_(ra, ta))
        env.true("time of the second", env.eq_(rc, tc))
        check_same(env, "first set-up restored", B, sa)
        check_same(env, "second set-up restored", D, sc)
        for p, want in (("a.h5", {"Grid"}), ("c.h5", {"Grid"})):
            env.true("file can be opened again", os.path.exists(p))
            n = sum(1 for k in content(p)[0] if k.endswith("/Grid"))
            env.true("each file holds its own grids only", n == (1 if p == "a.h5" else 2))


def c_default_time(env, dim):
    with scratch(env):
        A = Setup(env, dim, None, [(None, 2, True, {"f": "s"})], "A")
        A.io.save("x.h5")
        B = Setup(env, dim, None, [(None, 2, True, {"f": "s"})], "B")
        s = A.snap()
        env.true("time defaults to zero", env.eq_(B.io.load("x.h5"), 0))
        check_same(env, "restored", B, s)
        shutil.copy("x.h5", "moved.h5")
        os.unlink("x.h5")
        A.refill("C")
        B.io.load("moved.h5")
        check_same(env, "restored from a moved file", B, s)


ORDERS = {
    "overwrite": [("save", "f.h5"), ("save", "f.h5"), ("load", "f.h5")],
    "two": [("save", "f.h5"), ("save", "g.h5"), ("load", "f.h5"), ("load", "g.h5")],
    "mixed": [("save", "f.h5"), ("save", "g.h5"), ("load", "g.h5"), ("save", "f.h5"), ("load", "f.h5"), ("self", "g.h5")],
    "back": [("save", "f.h5"), ("save", "g.h5"), ("self", "f.h5"), ("load", "g.h5"), ("bsave", "f.h5"), ("self", "f.h5")],
}
for _n in list(ORDERS):
    assert _n


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    lay = ("plain", "view", "T", "neg")
    names = ("out.h5", "out", "sub/x.h5", "out.h5.bak", "a.b.hdf5")
    n = seed
    for dim in (2, 3):
        for which in ("euler", "thin", "lag", "empty", "shared", "sizes", "defaults", "nofields"):
            for layout in lay if T else (lay[n % 4], lay[(n + 1 + n // 4) % 4]):
                for mixed in (False, True) if T else (bool(n % 2),):
                    rt = ("float64", "float32")[(n // 2) % 2]
                    out.append(Case("round%dd-%s-%s-%s%s" % (dim, which, layout, rt, "-mixed" if mixed else ""), c_roundtrip,
                                    dict(dim=dim, which=which, layout=layout, mixed=mixed, name=names[n % len(names)]), real_t=rt,
                                    validate=True, sym_real=True, weight=200, max_paths=600))
                    n += 1
        for o in ORDERS:
            out.append(Case("history%dd-%s" % (dim, o), c_history, dict(dim=dim, order=ORDERS[o]), validate=True, weight=100,
                            real_t=("float64", "float32")[n % 2], sym_real=True))
            n += 1
        out.append(Case("grow%dd" % dim, c_grow, dict(dim=dim), validate=True, weight=50, sym_real=True))
        out.append(Case("alias%dd" % dim, c_alias, dict(dim=dim), validate=True, weight=50, sym_real=True))
        out.append(Case("two%dd" % dim, c_two, dict(dim=dim), validate=True, weight=50, sym_real=True))
        out.append(Case("time%dd" % dim, c_default_time, dict(dim=dim), validate=True, weight=50, sym_real=True))
    return out
