"""Shared pieces of the IO checks: scratch folder, field layouts, registered set-ups."""
import contextlib
import os
import shutil
import tempfile

import numpy as np

from lib.harness import Snap, cells  # noqa: F401


@contextlib.contextmanager
def scratch(env):
    """A folder of our own as working directory; removed afterwards."""
    d = tempfile.mkdtemp(prefix="sopht_io_")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if not env.concrete:
            from lib import h5stub, sarr

            h5stub.install()
            sarr.NARROW[0] = True
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def io_class():
    from sopht.utils.IO import IO

    return IO


def h5():
    import h5py

    return h5py


class Reg:
    """A registered array: possibly a view into a bigger parent array."""

    def __init__(self, env, label, shape, layout, dtype=None):
        self.label = label
        n = len(shape)
        if layout == "plain":
            self.parent = env.field(label, shape, dtype=dtype)
            self.arr = self.parent
            ids = np.arange(self.arr.size).reshape(shape)
            self.ids = ids
            self.size = ids.size
            return
        if layout == "view":
            big = tuple(s + 2 if i == n - 1 else s + 1 for i, s in enumerate(shape))
            sl = tuple(slice(1, 1 + s) for s in shape)
            self.parent = env.field(label + "P", big, dtype=dtype)
            ids = np.arange(int(np.prod(big))).reshape(big)
            self.arr, self.ids = self.parent[sl], ids[sl]
        elif layout == "T":
            big = tuple(reversed(shape))
            self.parent = env.field(label + "P", big, dtype=dtype)
            ids = np.arange(int(np.prod(big))).reshape(big)
            self.arr, self.ids = self.parent.T, ids.T
        elif layout == "neg":
            self.parent = env.field(label + "P", tuple(shape), dtype=dtype)
            ids = np.arange(int(np.prod(shape))).reshape(shape)
            sl = tuple(slice(None, None, -1) for _ in shape)
            self.arr, self.ids = self.parent[sl], ids[sl]
        self.size = ids.size


class Setup:
    """An IO object with registered arrays of the given configuration.

    eul:  None or (grid shape, {field: kind}), kind "s" or "v"
    lags: list of (name or None, N, connect, {field: kind})
    """

    def __init__(self, env, dim, eul, lags, tag, layout="plain", dtypes=(None, None), origin=None, dx=None, real_dtype=None):
        self.env, self.dim = env, dim
        self.io = io_class()(dim=dim, real_dtype=real_dtype or env.base_t)
        self.regs = {}
        self.origin = self.dx = None
        self.lags = []
        n = 0
        if eul is not None:
            self.origin = origin if origin is not None else env.array([env.scalar("origin%d" % a, -2, 2, free="both") for a in range(dim)])
            self.dx = dx if dx is not None else env.array([env.scalar("dx%d" % a, 0, 2, strict=True, free="hi") for a in range(dim)])
            self.shape = tuple(eul[0])
            self.io.define_eulerian_grid(origin=self.origin, dx=self.dx, grid_size=np.array(eul[0]))
            fields = {}
            for f, k in eul[1].items():
                sh = ((dim,) if k == "v" else ()) + self.shape
                r = self.regs["E", f] = Reg(env, "%s.E.%s" % (tag, f), sh, layout, dtypes[n % len(dtypes)])
                fields[f] = r.arr
                n += 1
            if fields:
                self.io.add_as_eulerian_fields_for_io(**fields)
        for j, (name, N, connect, fs) in enumerate(lags):
            g = self.regs["L", j, None] = Reg(env, "%s.L%d.grid" % (tag, j), (dim, N), layout, dtypes[n % len(dtypes)])
            n += 1
            kw = {}
            for f, k in fs.items():
                r = self.regs["L", j, f] = Reg(env, "%s.L%d.%s" % (tag, j, f), ((dim, N) if k == "v" else (N,)), layout,
                                               dtypes[n % len(dtypes)])
                kw[f] = r.arr
                n += 1
            if name is not None:
                kw["lagrangian_grid_name"] = name
            if connect is not None:
                kw["lagrangian_grid_connect"] = connect
            self.io.add_as_lagrangian_fields_for_io(lagrangian_grid=g.arr, **kw)
            self.lags.append((name, N, connect, fs))

    def snap(self):
        return {k: self.env.snap(r.arr) for k, r in self.regs.items()}

    def parents(self):
        s = {k: self.env.snap(r.parent) for k, r in self.regs.items()}
        if self.origin is not None:
            s["origin"], s["dx"] = self.env.snap(self.origin), self.env.snap(self.dx)
        return s

    def refill(self, tag):
        """new data into every registered array, in place"""
        for k, r in self.regs.items():
            r.arr[...] = self.env.field("%s.%s" % (tag, "_".join(map(str, k))), r.arr.shape, dtype=r.arr.dtype)


def check_same(env, label, setup, saved):
    """every registered array holds exactly the saved elements"""
    for k, r in setup.regs.items():
        got = env.snap(r.arr)
        env.true("%s: shape" % label, got.shape == saved[k].shape)
        for x, y in zip(got.flat, saved[k].flat):
            env.true(label, env.eq_(x, y))


def check_parents(env, label, setup, before, loaded=True):
    """nothing but the registered elements changed (loaded=False: nothing at all changed)"""
    for k, r in setup.regs.items():
        got = env.snap(r.parent)
        own = set(r.ids.reshape(-1).tolist()) if loaded else ()
        for i, (x, y) in enumerate(zip(got.flat, before[k].flat)):
            if i not in own:
                env.true(label, env.eq_(x, y))
    if setup.origin is not None:
        for a, b in ((setup.origin, before["origin"]), (setup.dx, before["dx"])):
            for x, y in zip(env.snap(a).flat, b.flat):
                env.true(label + " (grid parameters)", env.eq_(x, y))


def content(path):
    """{dataset path: (shape, dtype, flat list)}, {attribute path: value}"""
    from lib import harness  # noqa: F401

    ds, at = {}, {}
    with h5().File(path, "r") as f:
        for k in f.attrs.keys():
            at["@" + k] = f.attrs[k]

        def visit(name, obj):
            for k in obj.attrs.keys():
                at[name + "@" + k] = obj.attrs[k]
            if hasattr(obj, "shape"):
                a = obj[...]
                ds[name] = a
        f.visititems(visit)
    return ds, at


def same_content(env, label, p, q):
    a, aa = content(p)
    b, ab = content(q)
    env.true(label + ": same datasets", sorted(a) == sorted(b))
    env.true(label + ": same attributes", sorted(aa) == sorted(ab))
    for k in a:
        if k in b:
            x, y = env.snap(a[k]), env.snap(b[k])
            env.true(label + ": shape of " + k, x.shape == y.shape)
            if x.shape == y.shape:
                for u, v in zip(x.flat, y.flat):
                    env.true(label + ": dataset content", env.eq_(u, v))


def refused(env, fn):
    """Whether fn raises an ordinary exception."""
    stop = ()
    if not env.concrete:
        stop = (env.symt.Unsupported, env.paths.DeadPath, env.paths.PathLimit)
    try:
        fn()
    except stop:
        raise
    except Exception:
        return True
    return False


class Fake:
    """An array of which only the (symbolic) shape matters."""

    dtype = np.dtype(np.float64)
    itemsize = 8

    def __init__(self, shape):
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return int(self.shape[0])


def shaped(env, shape):
    return np.zeros(shape) if env.concrete else Fake(shape)
