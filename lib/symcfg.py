"""Symbolic configuration values: strings, and isinstance() of symbolic numbers.

A symbolic string is an integer term; every string has its own number (its bytes), so that
equality with a constant is an equality of integers the solver decides over all strings.
Operations beyond equality fix the string to one of the named candidates on separate paths.
"""
import builtins
import numbers
import operator
import sys

from . import paths, symt


def encode(s):
    return int.from_bytes(b"\x01" + s.encode(), "big")


def decode(n):
    try:
        b = int(n).to_bytes((int(n).bit_length() + 7) // 8, "big")
        if b[:1] == b"\x01":
            return b[1:].decode()
    except Exception:
        pass
    return "zz_other_%d" % (int(n) % 1000)


class SStr(str):
    """A string equal to the one numbered by the integer term `t`."""

    def __new__(cls, t, cands):
        r = str.__new__(cls, "zz_other")
        r._t, r._cands = t, tuple(cands)
        return r

    def _conc(self):
        for c in self._cands:
            if bool(symt.eq(self._t, symt.const(encode(c)))):
                return c
        return "zz_other"

    def __eq__(self, o):
        if isinstance(o, SStr):
            return bool(symt.eq(self._t, o._t))
        if isinstance(o, str):
            return bool(symt.eq(self._t, symt.const(encode(o))))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self._conc())

    def __str__(self):
        return self._conc()

    def __repr__(self):
        return repr(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)


def _delegate(n):
    def f(self, *a, **k):
        return getattr(self._conc(), n)(*a, **k)

    f.__name__ = n
    return f


for _n in dir(str):
    if _n not in ("__class__", "__new__", "__init__", "__eq__", "__ne__", "__hash__", "__str__", "__repr__", "__format__", "__getattribute__",
                  "__setattr__", "__delattr__", "__dir__", "__doc__", "__reduce__", "__reduce_ex__", "__sizeof__", "__subclasshook__",
                  "__init_subclass__", "__getnewargs__", "__getstate__"):
        setattr(SStr, _n, _delegate(_n))

KIND = {"I": int, "R": float, "B": bool}
_real_isinstance = builtins.isinstance


def sym_isinstance(x, cls):
    if _real_isinstance(x, symt.T):
        cl = cls if _real_isinstance(cls, tuple) else (cls,)
        k = KIND.get(x.sort, float)
        if any(_real_isinstance(c, tuple) and sym_isinstance(x, c) or _real_isinstance(c, type) and issubclass(k, c) for c in cl):
            return True
    return _real_isinstance(x, cls)


_done = [False]


def _plain(x):
    """Fix symbolic bounds of slices to integers (each on its own path)."""
    if _real_isinstance(x, (tuple, list)):
        return type(x)(_plain(y) for y in x)
    if _real_isinstance(x, slice):
        return slice(_plain(x.start), _plain(x.stop), _plain(x.step))
    if _real_isinstance(x, symt.T):
        return operator.index(x)
    return x


def install():
    """isinstance() in the code under test sees symbolic numbers as Python int / float."""
    for n, mod in list(sys.modules.items()):
        if n == "sopht" or n.startswith("sopht."):
            mod.isinstance = sym_isinstance
    if not _done[0]:
        _done[0] = True
        import pystencils as ps

        o = ps.CreateKernelConfig

        def config(*a, **k):
            if k.get("iteration_slice") is not None:
                k["iteration_slice"] = _plain(k["iteration_slice"])
            return o(*a, **k)

        ps.CreateKernelConfig = config


assert issubclass(int, numbers.Integral)
