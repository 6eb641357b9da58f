"""In-memory stand-in for h5py in symbolic runs.

The content of a file (groups, attributes, datasets with symbolic elements) is kept in memory; a
small real file holding a token is written at its path, so that everything else done to that path
(overwriting, copying, removing it) has its real effect.  Replays and validation runs use h5py.
"""
import os
import types

import numpy as np

from . import sarr

MAGIC = "\x89HDF-stub "
_store = {}
_done = [False]


def _copy(x):
    from .symt import T

    if isinstance(x, sarr.SArr):
        return x.copy()
    if isinstance(x, T):
        return x
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, Dataset):
        return _copy(x._read())
    if isinstance(x, (list, tuple)):
        from . import shims
        if shims._has_sym(x):
            return sarr._array(x, None)
    a = np.array(x)
    if a.dtype == object:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    return a if a.ndim else a[()]


class Attrs:
    def __init__(self, node):
        self._node = node

    def _d(self):
        return self._node._open()["attrs"]

    def __getitem__(self, k):
        return _copy(self._d()[k])

    def __setitem__(self, k, v):
        self._node._writable()
        self._d()[k] = _copy(v)

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    modify = create

    def get(self, k, default=None):
        return self[k] if k in self._d() else default

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(sorted(self._d()))

    def __len__(self):
        return len(self._d())

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


class Node:
    def __init__(self, file, path, data):
        self._file, self._path, self._data = file, path, data

    def _open(self):
        if self._file._closed:
            raise ValueError("Invalid location identifier (file is closed)")
        return self._data

    def _writable(self):
        self._open()
        if self._file.mode == "r":
            raise OSError("Unable to create (no write intent on file)")

    @property
    def name(self):
        return self._path or "/"

    @property
    def attrs(self):
        return Attrs(self)

    @property
    def file(self):
        return self._file

    @property
    def parent(self):
        return self._file[self._path.rsplit("/", 1)[0] or "/"]

    def __bool__(self):
        return not self._file._closed


class Dataset(Node):
    def _read(self):
        return self._open()["data"]

    @property
    def shape(self):
        return tuple(np.shape(self._read()))

    @property
    def dtype(self):
        d = self._read()
        return d.dtype if hasattr(d, "dtype") else np.dtype(np.float64)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, key):
        d = self._read()
        if key is Ellipsis or key == () or (isinstance(key, slice) and key == slice(None)):
            return _copy(d)
        return _copy(d[key])

    def __setitem__(self, key, value):
        self._writable()
        d = self._data["data"]
        d[key] = value

    def __iter__(self):
        return iter(_copy(self._read()))

    def __array__(self, dtype=None):
        return np.asarray(self._read())

    @property
    def _h5data(self):
        return _copy(self._read())

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        v = self._read()
        v = v if source_sel is None else v[source_sel]
        if dest_sel is None:
            dest[...] = v
        else:
            dest[dest_sel] = v

    def astype(self, dt):
        r = _copy(self._read())
        return r.astype(dt)


def _split(p):
    return [x for x in p.split("/") if x not in ("", ".")]


class Group(Node):
    def _wrap(self, path, d):
        return (Group if d["kind"] == "group" else Dataset)(self._file, path, d)

    def _walk(self, name):
        d = self._open() if not name.startswith("/") else self._file._data
        path = "" if name.startswith("/") else self._path
        for x in _split(name):
            if d["kind"] != "group" or x not in d["items"]:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % x)
            d = d["items"][x]
            path = path + "/" + x
        return path, d

    def __getitem__(self, name):
        return self._wrap(*self._walk(name))

    def __contains__(self, name):
        try:
            self._walk(name)
            return True
        except KeyError:
            return False

    def get(self, name, default=None):
        return self[name] if name in self else default

    def _create(self, name, d):
        self._writable()
        parts = _split(name)
        if not parts:
            raise ValueError("Unable to create (name is empty)")
        cur = self._data if not name.startswith("/") else self._file._data
        path = self._path if not name.startswith("/") else ""
        for x in parts[:-1]:
            cur = cur["items"].setdefault(x, {"kind": "group", "items": {}, "attrs": {}})
            path += "/" + x
            if cur["kind"] != "group":
                raise ValueError("Unable to create (component is not a group)")
        if parts[-1] in cur["items"]:
            raise ValueError("Unable to create (name already exists)")
        cur["items"][parts[-1]] = d
        return self._wrap(path + "/" + parts[-1], d)

    def create_group(self, name, track_order=None):
        return self._create(name, {"kind": "group", "items": {}, "attrs": {}})

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is None:
            data = np.zeros(shape, dtype or np.float32)
        v = _copy(data)
        if shape is not None:
            v = v.reshape(shape)
        if dtype is not None and np.dtype(dtype) != v.dtype:
            v = v.astype(dtype)
        return self._create(name, {"kind": "dataset", "data": v, "attrs": {}})

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __delitem__(self, name):
        self._writable()
        parts = _split(name)
        _, d = self._walk("/".join(parts[:-1])) if parts[:-1] else (None, self._data)
        del d["items"][parts[-1]]

    def keys(self):
        return sorted(self._open()["items"])

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._open()["items"])

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def visititems(self, fn):
        def go(d, pre):
            for k in sorted(d["items"]):
                c = d["items"][k]
                p = pre + k
                r = fn(p, self._wrap(self._path + "/" + p, c))
                if r is not None:
                    return r
                if c["kind"] == "group":
                    r = go(c, p + "/")
                    if r is not None:
                        return r
        return go(self._open(), "")

    def visit(self, fn):
        return self.visititems(lambda n, o: fn(n))


class File(Group):
    def __init__(self, name, mode="r", **k):
        self.filename = os.fspath(name)
        if isinstance(self.filename, bytes):
            self.filename = self.filename.decode()
        self._closed = False
        if mode in ("w-", "x") and os.path.exists(self.filename):
            raise FileExistsError(self.filename)
        if mode == "a" and not os.path.exists(self.filename):
            mode = "w"
        if mode in ("w", "w-", "x"):
            tok = "%d" % len(_store)
            with open(self.filename, "w") as f:
                f.write(MAGIC + tok)
            _store[tok] = {"kind": "group", "items": {}, "attrs": {}}
        else:
            with open(self.filename, errors="replace") as f:
                t = f.read(200)
            if not t.startswith(MAGIC) or t[len(MAGIC):] not in _store:
                raise OSError("Unable to open file (file signature not found)")
            tok = t[len(MAGIC):]
        self.mode = "r" if mode == "r" else "r+"
        Node.__init__(self, self, "", _store[tok])

    def close(self):
        self._closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def module():
    m = types.ModuleType("h5py")
    m.File, m.Group, m.Dataset = File, Group, Dataset
    m.is_hdf5 = is_hdf5
    m.__version__ = "stub"
    return m


def is_hdf5(name):
    try:
        with open(name, errors="replace") as f:
            return f.read(200).startswith(MAGIC)
    except OSError:
        return False


def install():
    """Use the stand-in from sopht.utils.IO, and symbolic versions of the numpy.testing comparisons."""
    import sys

    if _done[0]:
        return
    _done[0] = True
    sys.modules["h5py"] = module()
    for n, mod in list(sys.modules.items()):
        if n.startswith("sopht") and hasattr(mod, "h5py"):
            mod.h5py = sys.modules["h5py"]
    from . import shims

    def sym(x):
        return x if isinstance(x, sarr.SArr) else mk_in(x)

    def mk_in(x):
        return sarr.mk(sarr._in(x), None)

    def assert_allclose(actual, desired, rtol=1e-7, atol=0, *a, **k):
        sa, sd = np.shape(actual), np.shape(desired)
        if sa != sd and sa != () and sd != ():
            raise AssertionError("Not equal to tolerance (shapes %s, %s mismatch)" % (sa, sd))
        if not bool(sarr._allclose(sym(actual), sym(desired), rtol, atol)):
            raise AssertionError("Not equal to tolerance")

    def equal_of(name):
        o2 = getattr(np.testing, name)

        def f(actual, desired, *a, **k):
            if isinstance(actual, (str, bytes, list, tuple, dict)) or isinstance(desired, (str, bytes, list, tuple, dict)):
                if not (shims._has_sym(actual) or shims._has_sym(desired)):
                    return o2(actual, desired, *a, **k)
            return assert_allclose(actual, desired, rtol=0, atol=0)

        return f

    def almost_of(name, default):
        def f(actual, desired, decimal=default, *a, **k):
            return assert_allclose(actual, desired, rtol=0, atol=1.5 * 10.0 ** -decimal)

        return f

    np.testing.assert_allclose = assert_allclose
    np.testing.assert_array_equal = equal_of("assert_array_equal")
    np.testing.assert_equal = equal_of("assert_equal")
    np.testing.assert_array_almost_equal = almost_of("assert_array_almost_equal", 6)
    np.testing.assert_almost_equal = almost_of("assert_almost_equal", 7)
