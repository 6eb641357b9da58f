"""Check driver: runs the harness functions of one property symbolically, decides the
obligations with the solver, replays counterexamples on the real code, writes evidence."""
import hashlib
import json
import math
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
import importlib
from fractions import Fraction

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OUT = os.path.join(ROOT, "out")


class AssumptionFailed(Exception):
    pass


class Enough(BaseException):
    """A case has produced enough counterexamples."""


def _digest(key):
    """Long canonical forms are kept as digests."""
    if len(key) < 500:
        return key
    return hashlib.sha256(repr(key).encode()).digest()


class Case:
    def __init__(self, name, fn, params=None, linear=False, real_t="float64", validate=False, weight=1.0,
                 sym_real=False, timeout=40, max_paths=256, deep=1, symbolic=True, variety=0):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.linear = linear
        self.real_t = real_t
        self.validate = validate
        self.weight = weight
        self.sym_real = sym_real
        self.timeout = timeout
        self.max_paths = max_paths
        self.deep = deep
        self.symbolic = symbolic


class Snap:
    """Immutable snapshot of an array with fast indexing."""

    __slots__ = ("shape", "flat", "st")

    def __init__(self, shape, flat):
        self.shape = tuple(shape)
        self.flat = flat
        st = []
        n = 1
        for s in reversed(self.shape):
            st.append(n)
            n *= s
        self.st = tuple(reversed(st))

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) < len(self.shape):
            o = 0
            for i, s in zip(idx, self.st):
                o += i * s
            n = self.st[len(idx) - 1]
            return Snap(self.shape[len(idx):], self.flat[o:o + n])
        o = 0
        for i, s, n in zip(idx, self.st, self.shape):
            if not 0 <= i < n:
                raise IndexError(idx)
            o += i * s
        return self.flat[o]


def cells(shape, lo=0, hi=None):
    """All index tuples with lo <= i < n - hi on each axis."""
    hi = lo if hi is None else hi
    rng = [range(lo, n - hi) for n in shape]
    out = [()]
    for r in rng:
        out = [o + (i,) for o in out for i in r]
    return out


# ---------------------------------------------------------------------------
class Rounds:
    """Several rounds of one harness on the same generated kernels: inputs of a later round are new variables; its
    arrays are new ones, or (same=True) the arrays of the first round refilled."""

    tag = ""
    _same = False
    _track = False

    def once(self, key, fn):
        if key not in self._once:
            t, self._track = self._track, False
            try:
                self._once[key] = fn()
            finally:
                self._track = t
        return self._once[key]

    def begin_round(self, n, same=False):
        self.tag = "" if n == 0 else "r%d_" % n
        self._same = same
        self._seq = 0
        self._track = True
        if n == 0:
            self._first = []
        self._round = n

    def _reuse(self, a):
        if not self._track:
            return a
        q = self._seq
        self._seq += 1
        if self._round == 0:
            self._first.append(a)
        elif self._same and q < len(self._first):
            b = self._first[q]
            if b.shape == a.shape and b.dtype == a.dtype:
                self._copy_into(b, a)
                return b
        return a


class SymEnv(Rounds):
    concrete = False

    def __init__(self, case, check_id):
        from . import symt, sarr, paths, solver, shims, pystback

        self.symt, self.sarr, self.paths, self.solver, self.pyst = symt, sarr, paths, solver, pystback
        self.case = case
        self.check_id = check_id
        base = np.float32 if case.real_t == "float32" else np.float64
        self.base_t = base
        self.real_t = shims.sym_real(base) if case.sym_real else base
        self._once = {}
        self.seen = {}
        self.cands = []
        self.incon = []
        self.known = []
        self.nobl = 0
        self.nclass = 0
        self.bounds = {}
        self.by_var = {}
        self.glob = []
        self.notes = []
        self.samples = []
        self.npaths = 0
        self.cases_reached = 0
        self.labels = {}
        self.boxes = {}

    # -- inputs -----------------------------------------------------------

    def _bound(self, v, lo, hi, strict):
        s = self.symt
        if lo is not None:
            c = s.L(lo)
            self._assume1((s.lt if strict else s.le)(c, v))
        if hi is not None:
            self._assume1(s.le(v, s.L(hi)))
        self.boxes[v.args] = (lo, hi)

    def _assume1(self, t):
        s = self.symt
        if t is s.TRUE:
            return
        self.paths.assume(t)
        for v in s.variables([t]):
            self.by_var.setdefault(v.uid, []).append(t)

    def assume(self, cond):
        self._assume1(self.symt.L(cond))

    def _copy_into(self, b, a):
        self.sarr.raw(b)[...] = self.sarr.raw(a)

    def scalar(self, name, lo=None, hi=None, strict=False, sort="R", stable=False, free=""):
        """free: "hi" or "both": these bounds only guide the sampling of concrete runs, the symbol has none"""
        v = self.symt.var(name if stable else self.tag + name, sort)
        self._bound(v, None if free == "both" else lo, None if free else hi, strict)
        return v

    def integer(self, name, lo=None, hi=None, free=""):
        return self.scalar(name, lo, hi, sort="I", free=free)

    def boolean(self, name):
        return self.symt.var(self.tag + name, "B")

    def field(self, name, shape, lo=None, hi=None, dtype=None, strict=False):
        return self._reuse(self._field(name, shape, lo, hi, dtype, strict))

    def _field(self, name, shape, lo=None, hi=None, dtype=None, strict=False):
        name = self.tag + name
        if self.case.linear:
            from . import linear

            return linear.field(name, tuple(shape), dtype or self.base_t)
        a = self.sarr.sym_field(name, tuple(shape), dtype or self.base_t)
        if self.sarr.NARROW[0] and np.dtype(dtype or self.base_t) == np.float32:
            for v in self.sarr.raw(a).reshape(-1).tolist():
                self.sarr._narrow_ok.add(v.uid)
        if lo is not None or hi is not None:
            for v in self.sarr.raw(a).reshape(-1).tolist():
                self._bound(v, lo, hi, strict)
        return a

    def cfield(self, name, shape, dtype):
        a = self._field(name + "r", shape)
        b = self._field(name + "i", shape)
        v = np.ndarray(tuple(shape), dtype=object)
        x, y = self.sarr.raw(a), self.sarr.raw(b)
        for i in np.ndindex(*shape):
            v[i] = self.sarr.C(x[i], y[i])
        return self._reuse(self.sarr.mk(v, np.dtype(dtype)))

    def array(self, values, dtype=None):
        """Array with given element values (numbers or terms)."""
        v = np.ndarray(np.shape(self.sarr._shape_probe(values)) if not isinstance(values, np.ndarray) else values.shape,
                       dtype=object)
        if isinstance(values, np.ndarray):
            v[...] = self.sarr.values(values)
        else:
            self.sarr._fill_nested(v, values)
        return self._reuse(self.sarr.mk(v, np.dtype(dtype or self.base_t)))

    def zeros(self, shape, dtype=None):
        return self._reuse(self.sarr.new(tuple(shape), dtype or self.base_t, "zeros"))

    def plain(self, values, dtype=None):
        """An ordinary numeric array of the run's precision."""
        return np.asarray(values, dtype=dtype or self.base_t)

    def alignment(self, flag):
        if self.case.linear:
            from . import linear

            linear.ALIGNED[0] = flag

    def snap(self, a):
        v = self.sarr.values(a)
        return Snap(v.shape, list(v.reshape(-1).tolist()) if v.ndim else [v[()]])

    # -- functions usable in specifications --------------------------------
    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        s = self.symt
        return s.ite(s.L(c), s.L(a), s.L(b))

    def sin(self, x):
        return self.symt.uf("sin", self.symt.L(x))

    def cos(self, x):
        return self.symt.uf("cos", self.symt.L(x))

    def sqrt(self, x):
        return self.symt.sqrtT(self.symt.L(x))

    def abs(self, x):
        return self.symt.absT(self.symt.L(x))

    def floor(self, x):
        return self.symt.floorI(self.symt.L(x))

    @property
    def pi(self):
        return self.symt.PI

    def frac(self, a, b=1):
        return self.symt.const(Fraction(a, b), "R")

    def lt(self, a, b):
        return self.symt.lt(self.symt.L(a), self.symt.L(b))

    def le_(self, a, b):
        return self.symt.le(self.symt.L(a), self.symt.L(b))

    def eq_(self, a, b):
        return self.symt.eq(self.symt.L(a), self.symt.L(b))

    def close(self, a, b):
        return self.eq_(a, b)

    def and_(self, *a):
        return self.symt.conj([self.symt.L(x) for x in a])

    def or_(self, *a):
        return self.symt.disj([self.symt.L(x) for x in a])

    def not_(self, a):
        return self.symt.notT(self.symt.L(a))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    # -- obligations -------------------------------------------------------
    def eq(self, label, a, b, known=None, tol=None, assume=(), deep=None, cut=()):
        """cut: terms generalised to arbitrary values in a first attempt (sound for a proof)"""
        s = self.symt
        if self.case.linear:
            return self._lin_eq(label, a, b, tol)
        if isinstance(a, self.sarr.C) or isinstance(b, self.sarr.C):
            a, b = self.sarr.C.of(a), self.sarr.C.of(b)
            self.eq(label + ".re", a.re, b.re, assume=assume)
            self.eq(label + ".im", a.im, b.im, assume=assume)
            return
        a, b = s.L(a), s.L(b)
        self._oblige(label, s.eq(a, b), ("eq", a, b), known, assume, deep, cut)

    def le(self, label, a, b, known=None, assume=(), deep=None):
        s = self.symt
        a, b = s.L(a), s.L(b)
        self._oblige(label, s.le(a, b), ("le", a, b), known, assume, deep)

    def less(self, label, a, b, known=None, assume=(), deep=None):
        s = self.symt
        a, b = s.L(a), s.L(b)
        self._oblige(label, s.lt(a, b), ("lt", a, b), known, assume, deep)

    def true(self, label, cond, known=None, assume=(), deep=None):
        s = self.symt
        c = s.L(bool(cond) if isinstance(cond, (bool, np.bool_)) else cond)
        self._oblige(label, c, ("true", c, None), known, assume, deep)

    def _pc_parts(self):
        """The path condition as conjuncts: (term, variables, size)."""
        s = self.symt
        pc = self.paths.ctx().pc
        if self._pcl is not pc:
            self._pcl, self._pcn, self._pcp, self._pcs = pc, 0, [], 0
        while self._pcn < len(pc):
            st = [pc[self._pcn]]
            self._pcn += 1
            while st:
                t = st.pop()
                if t.op == "and":
                    st += [t.args[1], t.args[0]]
                elif t.op == "not" and t.args[0].op == "or":
                    st += [s.notT(t.args[0].args[1]), s.notT(t.args[0].args[0])]
                elif t is not s.TRUE:
                    n = s.topo([t])
                    self._pcp.append((t, set(v.uid for v in n if v.op == "v"), len(n)))
                    self._pcs += len(n)
        return self._pcp

    _pcl = None

    def _weaker(self, neg, assume):
        """Smaller sets of assumptions to try first when the path condition is large: none of it, the part that
        shares variables with the goal."""
        parts = self._pc_parts()
        if self._pcs < 400:
            return
        s = self.symt
        vs = set(v.uid for v in s.variables([neg] + list(assume)))
        yield []
        near = [t for t, w, n in parts if w & vs and n < 200]
        if near:
            yield near

    def _relevant(self, roots, pc=None):
        s = self.symt
        if pc is None:
            pc = [x[0] for x in self._pc_parts()]
        out = []
        seen = set()
        vs = [v.uid for v in s.variables(roots)]
        for t in pc:
            if t.uid not in seen:
                seen.add(t.uid)
                out.append(t)
                vs += [v.uid for v in s.variables([t])]
        done = set()
        while vs:
            u = vs.pop()
            if u in done:
                continue
            done.add(u)
            for t in self.by_var.get(u, ()):
                if t.uid not in seen:
                    seen.add(t.uid)
                    out.append(t)
                    vs += [v.uid for v in s.variables([t])]
        out.sort(key=lambda t: t.uid)
        return out

    def _oblige(self, label, goal, parts, known, assume, deep=None, cut=()):
        s = self.symt
        self.nobl += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        neg = s.notT(goal)
        if cut:
            table = {t.uid: s.var("cut!%d" % t.uid) for t in cut if t.op not in ("c", "v")}
            gasm = self._relevant([neg] + list(assume)) + list(assume)
            gen = self.solver._subst([neg] + gasm, table)
            gen, gasm = gen[0], [x for x in gen[1:] if x is not s.TRUE]
            key, _ = s.canon_key([gen] + gasm)
            if self.seen.get(key) == "ok":
                return
            r, _ = self.solver.refute(gen, gasm, timeout=10, model=False, tactics=1)
            if r == "unsat":
                self.nclass += 1
                self.seen[key] = "ok"
                return
        for pc in self._weaker(neg, assume):
            asm = self._relevant([neg] + list(assume), pc) + list(assume)
            key = ("weak", _digest(s.canon_key([neg] + asm)[0]))
            st = self.seen.get(key)
            if st is None:
                r, _ = self.solver.refute(neg, asm, timeout=10, model=False, tactics=1)
                st = self.seen[key] = "ok" if r == "unsat" else "no"
                self.nclass += 1
            if st == "ok":
                return
        asm = self._relevant([neg] + list(assume)) + list(assume)
        key = _digest(s.canon_key([neg] + asm)[0])
        st = self.seen.get(key)
        if st == "ok":
            return
        if st is not None:
            return
        if self.cands and time.time() > self._first_cand + (30 if any(c[2] != "unknown" for c in self.cands) else 150):
            # the case does not hold as it stands: on to replaying what has been found
            raise Enough()
        self.nclass += 1
        deep = self.case.deep if deep is None else deep
        # a case with several unanswered questions will not pass any more: only look for counterexamples
        tired = len(self.incon) > 2
        r, m = self.solver.refute(neg, asm, timeout=5 if tired else self.case.timeout, deep=deep, tactics=1 if tired else None)
        if len(self.samples) < 6 and (self.nclass in (1, 2, 5, 11, 23, 47)):
            self.samples.append({"case": self.case.name, "obligation": label, "verdict": r,
                                 "negated_goal": repr(neg)[:300], "assumptions": len(asm)})
        if r == "unsat":
            self.seen[key] = "ok"
            return
        self.seen[key] = r
        if not self.cands:
            self._first_cand = time.time()
        if r == "unknown":
            self.incon.append("%s: solver gave no answer" % label)
            self.cands.append((label, {}, "unknown"))
            if len(self.cands) > 12:
                raise Enough()
            return
        if known is not None:
            kid, alt = known
            from . import findings

            if findings.listed(self.check_id, kid):
                g2 = s.L(alt)
                r2, _ = self.solver.refute(s.notT(g2), asm, timeout=self.case.timeout, deep=deep)
                if r2 == "unsat":
                    self.known.append(kid)
                    self.seen[key] = "ok"
                    return
        # a robust model: clear margin, bounded values
        mm = self._margin_model(parts, neg, asm, deep)
        if len(self.cands) < 12:
            if mm:
                self.cands.append((label, self._complete(mm), "margin"))
            if m is not None or not mm:
                self.cands.append((label, self._complete(m or {}), "model"))
        else:
            raise Enough()

    def _complete(self, m):
        """Values for the rest of the path condition (which shares no variable with the goal)."""
        rest = []
        for t, w, n in self._pc_parts():
            names = set(v.args for v in self.symt.variables([t]))
            if not names & set(m):
                rest.append(t)
        if not rest:
            return m
        key = tuple(t.uid for t in rest)
        if self._restm[0] != key:
            r, e = self.solver.satisfiable(self._relevant(rest, rest))
            self._restm = (key, e if r == "sat" and e else {})
        out = dict(self._restm[1])
        out.update(m)
        return out

    _first_cand = 0
    _restm = (None, {})

    def _margin_model(self, parts, neg, asm, deep):
        s = self.symt
        kind, a, b = parts
        if kind in ("eq", "le", "lt"):
            d = s.sub(a, b)
            m = s.const(Fraction(1, 50))
            g = s.lt(m, d)
            if kind == "eq":
                g = s.orT(g, s.lt(m, s.mul(s.const(-1), d)))
        else:
            g = neg
        box = []
        for v in s.variables([neg] + asm):
            if v.sort == "R" and v is not s.PI:
                box.append(s.le(s.const(-4), v))
                box.append(s.le(v, s.const(4)))
        r, m = self.solver.refute(g, asm + box, timeout=15, deep=deep)
        return m if r == "sat" else None

    def _lin_eq(self, label, a, b, tol):
        from . import linear

        linear.oblige(self, label, a, b, tol)

    def unchanged(self, label, a, snap):
        v = self.snap(a)
        self.true(label + " shape", v.shape == snap.shape)
        for x, y in zip(v.flat, snap.flat):
            self.eq(label, x, y)

    def all_eq(self, label, got, want, known=None):
        """got, want: Snaps or arrays of the same shape"""
        g = got if isinstance(got, Snap) else self.snap(got)
        w = want if isinstance(want, Snap) else self.snap(want)
        self.true(label + " shape", g.shape == w.shape)
        if g.shape == w.shape:
            for x, y in zip(g.flat, w.flat):
                self.eq(label, x, y)

    def raises(self, label, fn, exc=Exception):
        """fn must raise."""
        try:
            fn()
        except (self.symt.Unsupported, self.paths.DeadPath, self.paths.PathLimit):
            raise
        except exc:
            self.true(label, True)
            return True
        except BaseException:
            raise
        self.true(label, self.symt.FALSE)
        return False


# ---------------------------------------------------------------------------
class ConcEnv(Rounds):
    concrete = True

    def __init__(self, case, values=None, seed=0, mode="random"):
        self.case = case
        self.base_t = np.float32 if case.real_t == "float32" else np.float64
        self.real_t = self.base_t
        self.values = values or {}
        self.rnd = random.Random(seed)
        self.mode = mode
        self.fails = []
        self.nchecks = 0
        self.pads = []
        self.maxabs = 1.0
        self.align = None
        self._once = {}
        self._stable = {}


    def _val(self, name, lo, hi, sort="R", strict=False):
        v = self.values.get(name)
        if v is not None:
            return v
        if sort == "B":
            return self.rnd.random() < 0.5
        if sort == "I":
            lo = -5 if lo is None else lo
            hi = lo + 10 if hi is None else hi
            return self.rnd.randint(int(lo), int(hi))
        a = -2.0 if lo is None else float(lo)
        b = (a + 3.0 if lo is not None else 2.0) if hi is None else float(hi)
        if lo is None and hi is not None:
            a = b - 3.0
        x = self.rnd.uniform(a, b)
        if self.mode == "special" and self.rnd.random() < 0.4:
            c = [z for z in (a, b, 0.0, (a + b) / 2) if a <= z <= b and not (strict and z == a)]
            x = self.rnd.choice(c)
        return x

    def _copy_into(self, b, a):
        b[...] = a

    def scalar(self, name, lo=None, hi=None, strict=False, sort="R", stable=False, free=""):
        if not stable:
            name = self.tag + name
        elif name in self.values:
            pass
        elif name in self._stable:
            return self._stable[name]
        v = self._val(name, lo, hi, sort, strict)
        if stable:
            self._stable[name] = v
        if sort == "R":
            v = float(v)
        return v

    def integer(self, name, lo=None, hi=None, free=""):
        return int(self._val(self.tag + name, lo, hi, "I"))

    def boolean(self, name):
        return bool(self._val(self.tag + name, None, None, "B"))

    def _padded(self, shape, dtype):
        dtype = np.dtype(dtype)
        n = int(np.prod(shape)) if len(shape) else 1
        pad = 64 + 3 * (int(np.prod(shape[1:])) if len(shape) > 1 else n)
        pad = (pad + 15) // 16 * 16
        base = np.ndarray((n + 2 * pad + 16,), dtype=dtype)
        if self.align is not None:
            off = (-base.ctypes.data // dtype.itemsize) % max(1, 64 // dtype.itemsize)
            pad += off + (0 if self.align else 1)
        base.fill(np.nan if dtype.kind == "f" else 77)
        v = base[pad:pad + n].reshape(shape)
        self.pads.append((base, pad, n))
        return v

    def field(self, name, shape, lo=None, hi=None, dtype=None, strict=False):
        return self._reuse(self._field(name, shape, lo, hi, dtype, strict))

    def _field(self, name, shape, lo=None, hi=None, dtype=None, strict=False):
        name = self.tag + name
        shape = tuple(shape)
        dt = np.dtype(dtype or self.base_t)
        a = self._padded(shape, dt)
        fl = a.reshape(-1)
        for i, k in enumerate(cells(shape)):
            fl[i] = self._val("%s[%s]" % (name, ",".join(map(str, k))), lo, hi,
                              {"f": "R", "i": "I", "b": "B"}[dt.kind], strict)
        return a

    def cfield(self, name, shape, dtype):
        r = np.zeros(tuple(shape), dtype=dtype)
        r.real = self._field(name + "r", shape)
        r.imag = self._field(name + "i", shape)
        return self._reuse(r)

    def array(self, values, dtype=None):
        v = np.asarray(values, dtype=dtype or self.base_t)
        a = self._padded(v.shape, v.dtype)
        a[...] = v
        return self._reuse(a)

    def zeros(self, shape, dtype=None):
        a = self._padded(tuple(shape), dtype or self.base_t)
        a[...] = 0
        return self._reuse(a)

    def alignment(self, flag):
        self.align = flag

    def plain(self, values, dtype=None):
        return np.asarray(values, dtype=dtype or self.base_t)

    def snap(self, a):
        v = np.asarray(a)
        fl = v.reshape(-1).tolist()
        return Snap(v.shape, fl)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    # functions
    def ite(self, c, a, b):
        return a if c else b

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    sqrt = staticmethod(lambda x: math.sqrt(max(x, 0.0)))
    abs = staticmethod(abs)
    floor = staticmethod(math.floor)
    pi = math.pi

    def frac(self, a, b=1):
        return a / b

    def lt(self, a, b):
        return a < b

    def le_(self, a, b):
        return a <= b

    def eq_(self, a, b):
        return a == b

    def close(self, a, b):
        return abs(float(a) - float(b)) <= self._tol(abs(float(a)), abs(float(b)))

    def and_(self, *a):
        return all(a)

    def or_(self, *a):
        return any(a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or b

    # obligations
    def _tol(self, a, b):
        rel = 3e-4 if self.base_t == np.float32 else 1e-8
        return rel * max(1.0, abs(a), abs(b))

    def _fail(self, label, msg):
        if len(self.fails) < 20:
            self.fails.append("%s: %s" % (label, msg))
        else:
            self.fails.append("...")

    def eq(self, label, a, b, known=None, tol=None, assume=(), deep=None, cut=()):
        if not all(assume):
            return
        self.nchecks += 1
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
        else:
            a, b = float(a), float(b)
        t = self._tol(abs(a), abs(b))
        if tol is not None:
            t = max(t, tol)
        if not abs(a - b) <= t:
            if a != a and b != b:
                return
            if known is not None:
                from . import findings

                if known[1] is True or (not isinstance(known[1], bool) and known[1]):
                    if findings.listed(self.check_id, known[0]):
                        return
            self._fail(label, "got %r, expected %r" % (a, b))

    def le(self, label, a, b, known=None, assume=(), deep=None):
        if not all(assume):
            return
        self.nchecks += 1
        if not float(a) <= float(b) + self._tol(abs(float(a)), abs(float(b))):
            self._fail(label, "%r <= %r is false" % (a, b))

    def less(self, label, a, b, known=None, assume=(), deep=None):
        if not all(assume):
            return
        self.nchecks += 1
        if not float(a) < float(b) + self._tol(abs(float(a)), abs(float(b))):
            self._fail(label, "%r < %r is false" % (a, b))

    def true(self, label, cond, known=None, assume=(), deep=None):
        if not all(assume):
            return
        self.nchecks += 1
        if not cond:
            if known is not None:
                from . import findings

                if known[1] and findings.listed(self.check_id, known[0]):
                    return
            self._fail(label, "is false")

    def unchanged(self, label, a, snap):
        v = self.snap(a)
        if v.shape != snap.shape:
            self._fail(label, "shape changed")
            return
        self.nchecks += 1
        for i, (x, y) in enumerate(zip(v.flat, snap.flat)):
            if not (x == y or (x != x and y != y)):
                self._fail(label, "flat cell %d changed from %r to %r" % (i, y, x))
                return

    def all_eq(self, label, got, want, known=None):
        g = got if isinstance(got, Snap) else self.snap(got)
        w = want if isinstance(want, Snap) else self.snap(want)
        self.true(label + " shape", g.shape == w.shape)
        if g.shape == w.shape:
            for x, y in zip(g.flat, w.flat):
                self.eq(label, x, y)

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.nchecks += 1
            return True
        self.true(label, False)
        return False

    def finish(self):
        for base, pad, n in self.pads:
            for part in (base[:pad], base[pad + n:]):
                if base.dtype.kind == "f":
                    ok = bool(np.isnan(part).all())
                else:
                    ok = bool((part == 77).all())
                if not ok:
                    self._fail("memory outside an array was written", "guard zone changed")


# ---------------------------------------------------------------------------
def load_check(cid):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module("checks." + cid.lower())


def setup_symbolic(linear):
    from . import shims, pystback, sarr, symt

    sarr.LINEAR = linear
    shims.install_numba()
    shims.install_numpy_sym()
    pystback.install()


def run_case_symbolic(case, cid):
    """In a forked child. Code that converts its inputs (real_t(dt), float(dt)) is encoded with conversions
    that pass symbolic values through; they are only put in where the code asks for them."""
    r = _run_case_symbolic(case, cid)
    if r["status"] == "unsupported" and "of a symbolic term" in (r["err"] or "") and not case.sym_real:
        from . import shims

        case.sym_real = True
        shims.install_float()
        r = _run_case_symbolic(case, cid)
    return r


def _run_case_symbolic(case, cid):
    from . import paths, symt, solver, pystback, sarr

    t0 = time.time()
    env = SymEnv(case, cid)
    if case.linear:
        from . import linear

        sarr.LINEAR = True
        linear.reset()
    status = "ok"
    err = None

    def body():
        env.by_var = {}
        del paths.ctx().assumptions[:]
        del pystback.OOB[:]
        sarr._uninit[0] = 0
        if case.linear:
            linear.reset()
        try:
            case.fn(env, **case.params)
        except (symt.Unsupported, paths.DeadPath, paths.PathLimit, solver.SolverError):
            raise
        except AssumptionFailed:
            return
        except Exception as e:  # the code under test (or the harness) raised
            m = None
            try:
                r, m = solver.satisfiable(paths.known())
            except Exception:
                pass
            tb = traceback.format_exc()
            env.cands.append(("raised %s: %s" % (type(e).__name__, str(e)[:200]), m or {}, "raise"))
            env.notes.append(tb[-1500:])
            return
        if pystback.OOB:
            w = pystback.OOB[0]
            r, m = "sat", {}
            if paths.ctx().pc:
                try:
                    r, m = solver.satisfiable(paths.known())
                except Exception:
                    m = {}
            env.cands.append(("%s outside %s (element %d of %d)" % w, m or {}, "oob"))
        if env.npaths == 0 and not case.linear:
            # vacuity witness: the assumptions of the first path must be satisfiable
            r, _ = solver.satisfiable(paths.known())
            if r != "sat":
                env.incon.append("vacuity witness: assumptions are %s" % r)
        env.npaths += 1
        env.cases_reached += 1

    try:
        paths.explore(body, case.max_paths)
        if env.npaths == 0 and not env.cands:
            env.incon.append("no path reached the end of the harness")
    except Enough:
        paths.ctx().active = False
    except symt.Unsupported as e:
        status, err = "unsupported", "Unsupported: %s" % e + "\n" + traceback.format_exc()[-1500:]
    except paths.PathLimit as e:
        status, err = "pathlimit", str(e)
    except solver.SolverError as e:
        status, err = "solvererror", str(e)
    except Exception as e:
        status, err = "crash", traceback.format_exc()[-3000:]
    solver.shutdown()

    def js(m):
        out = {}
        for k, v in m.items():
            if v is None:
                continue
            if isinstance(v, bool):
                out[k] = v
            else:
                out[k] = [str(Fraction(v).numerator), str(Fraction(v).denominator)]
        return out

    return {
        "name": case.name, "status": status, "err": err, "paths": env.npaths,
        "obligations": env.nobl, "classes": env.nclass,
        "cands": [(l, js(m), k) for l, m, k in env.cands],
        "incon": env.incon, "known": sorted(set(env.known)), "samples": env.samples, "notes": env.notes[:3],
        "labels": env.labels, "stats": dict(solver.STATS), "time": time.time() - t0,
        "kernels": [k.ast.function_name for k in pystback.KERNELS][:0],
        "nkernels": len(pystback.KERNELS),
    }


def fork_map(items, fn, nproc, deadline, weight=None, stop=None):
    """Run fn(item) in forked children; returns list of results (None on failure)."""
    tmp = tempfile.mkdtemp(prefix="vf_")
    order = list(range(len(items)))
    if weight:
        order.sort(key=lambda i: -weight(items[i]))
    results = [None] * len(items)
    running = {}
    over = False
    try:
        while order or running:
            while order and len(running) < nproc and time.time() < deadline:
                i = order.pop(0)
                path = os.path.join(tmp, "%d.json" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        r = fn(items[i])
                        with open(path, "w") as f:
                            json.dump(r, f)
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (i, path)
            if not running:
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline + 5 or over:
                    for p in list(running):
                        try:
                            os.killpg(p, 9)
                        except Exception:
                            try:
                                os.kill(p, 9)
                            except Exception:
                                pass
                    for p in list(running):
                        try:
                            os.waitpid(p, 0)
                        except Exception:
                            pass
                    running = {}
                    break
                time.sleep(0.02)
                continue
            if pid in running:
                i, path = running.pop(pid)
                try:
                    with open(path) as f:
                        results[i] = json.load(f)
                except Exception:
                    results[i] = None
                if stop is not None and results[i] and stop(results):
                    over = True
                    order = []
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results


def replay_env(extra=None):
    e = dict(os.environ)
    e["PYTHONPATH"] = "/repo" + os.pathsep + ROOT
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    if extra:
        e.update(extra)
    return e


def run_replay(job, timeout=300):
    """job: dict(check, case, tier, values, seed, mode).  Returns the replay report dict."""
    fd, p = tempfile.mkstemp(suffix=".json", prefix="rp_")
    os.write(fd, json.dumps(job).encode())
    os.close(fd)
    try:
        r = subprocess.run([PY, "-m", "lib.replay", p], cwd=ROOT, env=replay_env(), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace")
        for line in reversed(out.split("\n")):
            if line.startswith("@@REPLAY "):
                return json.loads(line[9:])
        return {"status": "crash", "out": out[-2000:], "rc": r.returncode}
    except subprocess.TimeoutExpired:
        return {"status": "timeout"}
    finally:
        os.unlink(p)


def main(cid, tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "720" if tier == "quick" else "7200"))
    deadline = t0 + budget
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    cache = tempfile.mkdtemp(prefix="vcache_")
    os.environ["XDG_CACHE_HOME"] = cache
    os.environ["XDG_CONFIG_HOME"] = cache
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    setup_symbolic(False)
    mod = load_check(cid)
    cases = mod.cases(tier, seed)
    if only:
        cases = [c for c in cases if re.search(only, c.name)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    sym_cases = [c for c in cases if c.symbolic]

    def confirm(c, cands, limit, tries):
        """Replay the candidates on the real code; the first one which fails is the counterexample."""
        tried = []
        attempts = []
        for label, m, kind in cands:
            if kind in ("margin", "model", "raise", "oob"):
                attempts.append(({k: v for k, v in m.items()}, seed, "random", label))
        attempts = attempts[:limit]
        for label, m, kind in cands[:1]:
            for k in range(tries):
                attempts.append(({}, seed * 100 + k, "random" if k % 2 == 0 else "special", label))
            if m:
                attempts.append((m, seed + 7, "special", label))
        for vals, sd, mode, label in attempts:
            j = dict(check=cid, case=c.name, tier=tier, values=vals, seed=sd, mode=mode, label=label)
            rep = run_replay(j)
            tried.append(rep.get("status"))
            if rep.get("status") == "fail":
                j["fails"] = rep["fails"][:5]
                return {"case": c.name, "job": j}
        return {"case": c.name, "tried": tried, "cands": [(x[0], x[2]) for x in cands][:5]}

    def one(c):
        r = run_case_symbolic(c, cid)
        if r["cands"] or r["status"] != "ok":
            r["conf"] = confirm(c, r["cands"] or [("unsupported", {}, "unknown")], 8, 2)
        return r

    def enough(rs):
        return sum(1 for r in rs if r and "job" in r.get("conf", ())) >= 3

    res = fork_map(sym_cases, one, nproc, deadline, weight=lambda c: c.weight, stop=enough)
    problems = []
    violations = []
    known = set()
    tot = {"obligations": 0, "classes": 0, "paths": 0, "nkernels": 0}
    stats = {}
    samples = []
    labels = {}
    per_case = []
    cand_jobs = []
    stopped = enough(res)
    for c, r in zip(sym_cases, res):
        if r is None and stopped:
            continue
        if r is None:
            problems.append("%s: no result (time or crash)" % c.name)
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
        known.update(r["known"])
        per_case.append({"case": c.name, "params": _clean(c.params), "paths": r["paths"], "obligations": r["obligations"],
                         "distinct": r["classes"], "solver_s": round(r["stats"]["time"], 2), "s": round(r["time"], 2)})
        if r["status"] != "ok":
            problems.append("%s: %s %s" % (c.name, r["status"], r["err"]))
            if not r["cands"]:
                cand_jobs.append((c, [("unsupported", {}, "unknown")], r))
        if r["status"] == "ok" and not r["obligations"]:
            problems.append("%s: no obligation was generated" % c.name)
        for x in r["incon"]:
            problems.append("%s: %s" % (c.name, x))
        if r["cands"]:
            cand_jobs.append((c, r["cands"], r))
    t_sym = time.time() - t0

    if cand_jobs:
        conf = [r["conf"] for c, cands, r in cand_jobs if r.get("conf")]
        got = [x for x in conf if "job" in x]
        if not got:
            # try harder on a handful of cases
            conf2 = fork_map(cand_jobs[:24], lambda j: confirm(j[0], j[1], 24, 6), nproc, max(deadline, time.time() + 120))
            got = [x for x in conf2 if x and "job" in x]
        for x in got:
            p = write_replay(cid, x["job"])
            violations.append((p, x["job"]))
        if not got:
            for x in conf:
                problems.append("%s: counterexample did not reproduce %s" % (x["case"], x.get("cands")))
    # translation validation on the real compiled code
    val = [c for c in cases if c.validate] if not violations else []
    nval = nvchk = 0
    if val and time.time() < deadline:
        def vrun(c):
            j = dict(check=cid, case=c.name, tier=tier, values={}, seed=seed, mode="random", label="validation")
            rep = run_replay(j, timeout=400)
            return {"rep": rep, "job": j}

        vres = fork_map(val, vrun, nproc, deadline)
        for c, v in zip(val, vres):
            if v is None:
                problems.append("%s: validation gave no result" % c.name)
                continue
            rep = v["rep"]
            if rep["status"] == "ok":
                nval += 1
                nvchk += rep.get("checks", 0)
            elif rep["status"] == "fail":
                v["job"]["fails"] = rep["fails"][:5]
                p = write_replay(cid, v["job"])
                violations.append((p, v["job"]))
            elif rep["status"] == "assume":
                pass
            else:
                problems.append("%s: validation %s %s" % (c.name, rep["status"], rep.get("out", "")[-800:]))
    import shutil

    shutil.rmtree(cache, ignore_errors=True)
    wall = time.time() - t0
    from . import findings

    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", "") or "bounded symbolic execution of the real code, decided by z3",
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "harness_cases": len(sym_cases), "harness_paths": tot["paths"],
            "kernel_asts_interpreted": tot["nkernels"],
            "obligations": tot["obligations"],
            "distinct_obligations_decided": tot["classes"],
            "obligations_by_kind": labels,
            "solver": "z3-new %s, cvc5 as second opinion" % _z3v(),
            "solver_queries": stats.get("queries", 0), "unsat": stats.get("unsat", 0), "sat": stats.get("sat", 0),
            "unknown": stats.get("unknown", 0), "solver_time_s": round(stats.get("time", 0.0), 2),
            "lemma_queries": stats.get("lemma_queries", 0),
            "real_code_validation_runs": nval, "real_code_validation_checks": nvchk,
            "cases": per_case, "samples": samples[:12],
            "known_findings_hit": sorted(known),
            "problems": problems[:20],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (cid, findings.describe(cid, k)))
    for p in problems[:6]:
        p = str(p)
        print("PROBLEM:", p if len(p) < 700 else p[:250] + " ... " + p[-400:])
    print("%s %s: cases=%d paths=%d obligations=%d distinct=%d queries=%d solver=%.1fs sym=%.1fs wall=%.1fs validated=%d/%d" % (
        cid, tier, len(sym_cases), tot["paths"], tot["obligations"], tot["classes"], stats.get("queries", 0),
        stats.get("time", 0), t_sym, wall, nval, len(val)))
    if violations:
        for p, j in violations[:3]:
            print("  counterexample in case %s: %s" % (j["case"], "; ".join(j.get("fails", []))[:600]))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    return 2 if problems else 0


def _z3v():
    try:
        return subprocess.run(["z3-new", "--version"], stdout=subprocess.PIPE).stdout.decode().split()[2]
    except Exception:
        return "?"


def _clean(p):
    return {k: (v if isinstance(v, (int, float, str, bool, list, tuple, type(None))) else str(v)) for k, v in p.items()}


def write_replay(cid, job):
    n = 0
    while True:
        p = os.path.join(OUT, "%s_replay_%d.json" % (cid, n))
        if not os.path.exists(p) or n > 50:
            break
        n += 1
    with open(p, "w") as f:
        json.dump(job, f, indent=1)
    return p
