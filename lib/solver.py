"""SMT-LIB emission and the solver processes (z3 first, cvc5 as second opinion)."""
import os
import random
import re
import select
import shutil
import subprocess
import time
from fractions import Fraction

from . import symt, mono
from .symt import T, PI, const, topo, children

Z3 = shutil.which("z3-new") or "/usr/local/bin/z3-new"
CVC5 = shutil.which("cvc5") or "/usr/bin/cvc5"

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "lemma_queries": 0,
         "second_opinion": 0, "disagree": 0, "by_linear_abstraction": 0}


class SolverError(Exception):
    pass


class Z3Proc:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [Z3, "-in", "-smt2"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, bufsize=0)

    def ask(self, text, timeout):
        """Send text (which ends with a marker echo); return output before the marker."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = ("(reset)\n(set-option :timeout %d)\n" % int(timeout * 1000)) + text
        data += '\n(echo "@@done")\n'
        deadline = time.time() + timeout + 10
        buf = b""
        fd = self.p.stdout.fileno()
        out = self.p.stdin.fileno()
        raw = data.encode()
        pos = 0
        while True:
            r, w, _ = select.select([fd], [out] if pos < len(raw) else [], [], 1.0)
            if w:
                pos += os.write(out, raw[pos:pos + 65536])
            if r:
                chunk = os.read(fd, 65536)
                if not chunk:
                    self.p = None
                    return "unknown (solver died)"
                buf += chunk
                if b"@@done" in buf:
                    return buf.split(b"@@done")[0].decode()
            if time.time() > deadline:
                self.p.kill()
                self.p.wait()
                self.p = None
                return "unknown (hard timeout)"

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


_z3 = Z3Proc()


def cstr(fr, sort):
    if sort == "I":
        v = int(fr)
        return str(v) if v >= 0 else "(- %d)" % -v
    n, d = fr.numerator, fr.denominator
    s = "%d.0" % abs(n)
    if d != 1:
        s = "(/ %s %d.0)" % (s, d)
    return s if n >= 0 else "(- %s)" % s


class Emitter:
    def __init__(self):
        self.lines = []
        self.names = {}
        self.vars = {}

    def qname(self, n):
        return "|%s|" % n.replace("|", "_").replace("\\", "_")

    def emit(self, roots):
        order = topo(roots)
        ref = {}
        for t in order:
            for c in children(t):
                ref[c.uid] = ref.get(c.uid, 0) + 1
        for t in order:
            if t.uid in self.names:
                continue
            s = self.render(t)
            if t.op not in ("c", "v") and (ref.get(t.uid, 0) > 1 or len(s) > 2000):
                nm = "n%d" % t.uid
                so = {"R": "Real", "I": "Int", "B": "Bool"}[t.sort]
                self.lines.append("(define-fun %s () %s %s)" % (nm, so, s))
                s = nm
            self.names[t.uid] = s

    def ref(self, t, sort):
        if t.op == "c" and t.sort != "B":
            return cstr(t.args, sort)
        s = self.names[t.uid]
        if sort == "R" and t.sort == "I":
            return "(to_real %s)" % s
        if sort == "I" and t.sort == "R":
            raise symt.Unsupported("real used as int in SMT")
        return s

    def render(self, t):
        o = t.op
        if o == "c":
            if t.sort == "B":
                return "true" if t.args else "false"
            return cstr(t.args, t.sort)
        if o == "v":
            nm = self.qname(t.args)
            if t.args not in self.vars:
                self.vars[t.args] = t
                so = {"R": "Real", "I": "Int", "B": "Bool"}[t.sort]
                self.lines.append("(declare-const %s %s)" % (nm, so))
            return nm
        a = t.args
        if o in ("+", "*"):
            return "(%s %s %s)" % (o, self.ref(a[0], t.sort), self.ref(a[1], t.sort))
        if o == "/":
            return "(/ %s %s)" % (self.ref(a[0], "R"), self.ref(a[1], "R"))
        if o in ("<", "<=", "="):
            if a[0].sort == "B":
                return "(= %s %s)" % (self.names[a[0].uid], self.names[a[1].uid])
            s = "I" if a[0].sort == "I" and a[1].sort == "I" else "R"
            return "(%s %s %s)" % (o, self.ref(a[0], s), self.ref(a[1], s))
        if o == "ite":
            if t.sort == "B":
                return "(ite %s %s %s)" % tuple(self.names[x.uid] for x in a)
            return "(ite %s %s %s)" % (self.names[a[0].uid], self.ref(a[1], t.sort), self.ref(a[2], t.sort))
        if o == "not":
            return "(not %s)" % self.names[a[0].uid]
        if o in ("and", "or"):
            return "(%s %s %s)" % (o, self.names[a[0].uid], self.names[a[1].uid])
        if o == "floor":
            return "(to_int %s)" % self.ref(a[0], "R")
        if o == "toreal":
            return "(to_real %s)" % self.ref(a[0], "I")
        raise symt.Unsupported("emit " + o)


def _subst(roots, table):
    """Rebuild roots with nodes replaced per table (uid -> term)."""
    memo = {}
    for t in topo(roots):
        if t.uid in table:
            memo[t.uid] = table[t.uid]
            continue
        ch = children(t)
        if not ch:
            memo[t.uid] = t
            continue
        n = [memo[c.uid] for c in ch]
        if all(x is y for x, y in zip(n, ch)):
            memo[t.uid] = t
            continue
        o = t.op
        memo[t.uid] = rebuild(o, t, n)
    return [memo[r.uid] for r in roots]


def rebuild(o, t, n):
    if o == "+":
        return symt.add(n[0], n[1])
    if o == "*":
        return symt.mul(n[0], n[1])
    if o == "/":
        return symt.div(n[0], n[1])
    if o == "ite":
        return symt.ite(n[0], n[1], n[2])
    if o == "<":
        return symt.lt(n[0], n[1])
    if o == "<=":
        return symt.le(n[0], n[1])
    if o == "=":
        return symt.eq(n[0], n[1])
    if o == "not":
        return symt.notT(n[0])
    if o == "and":
        return symt.andT(n[0], n[1])
    if o == "or":
        return symt.orT(n[0], n[1])
    if o == "floor":
        return symt.floorI(n[0])
    if o == "toreal":
        return symt.toreal(n[0])
    if o == "uf":
        if t.args[0] == "sqrt":
            return symt.sqrtT(n[0])
        return symt.uf(t.args[0], *n)
    raise symt.Unsupported("rebuild " + o)


PI_AX = [
    symt.lt(const(Fraction(31415926535, 10**10)), PI),
    symt.lt(PI, const(Fraction(31415926536, 10**10))),
]

_rel_cache = {}


def _rand_models(vs, n=3, seed=7):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        m = {}
        for v in vs:
            if v.sort == "B":
                m[v.args] = rnd.random() < 0.5
            elif v.sort == "I":
                m[v.args] = rnd.randint(1, 9)
            else:
                m[v.args] = rnd.uniform(0.3, 1.7)
        out.append(m)
    return out


def _trig_arg_relation(a, b, assumptions):
    """Find s in {+1,-1}, k with a = s*b + k*pi/2 proven by the solver, else None."""
    vs = symt.variables([a, b])
    ms = _rand_models(vs)
    try:
        va = [symt.evalf(a, m) for m in ms]
        vb = [symt.evalf(b, m) for m in ms]
    except Exception:
        return None
    h = 1.5707963267948966
    cand = []
    for s in (1, -1):
        d = [x - s * y for x, y in zip(va, vb)]
        k = round(d[0] / h)
        if abs(k) <= 64 and all(abs(x - k * h) < 1e-7 for x in d):
            cand.append((k % 4 != 0, k % 2 != 0, s, k))
    for _, _, s, k in sorted(cand, key=lambda x: x[:2] + (x[2] < 0,)):
        rhs = symt.add(symt.mul(const(s), b), symt.mul(const(Fraction(k, 2), "R"), PI))
        STATS["lemma_queries"] += 1
        r, _ = raw_check([symt.notT(symt.eq(a, rhs))] + list(assumptions), timeout=20)
        if r == "unsat":
            return s, k
    return None


def _shift(fn, s, k, base):
    """value of fn(s*base + k*pi/2) in terms of sin/cos(base) terms."""
    sb, cb = symt.uf("sin", base), symt.uf("cos", base)
    k %= 4
    # angle = s*base: sin -> s*sin, cos -> cos
    sn, cs = (sb if s == 1 else symt.mul(const(-1), sb)), cb
    # sin(x + k pi/2), cos(x + k pi/2)
    neg = lambda z: symt.mul(const(-1), z)
    if fn == "sin":
        return [sn, cs, neg(sn), neg(cs)][k]
    return [cs, neg(sn), neg(cs), sn][k]


def normalise_uf(roots, assumptions):
    """Replace sin/cos/sqrt/... applications by variables plus axioms.

    Arguments proven equal (or equal up to sign and multiples of pi/2, for sin and cos)
    by solver lemma queries share one variable.
    """
    n_as = len(assumptions)
    allr = list(roots) + list(assumptions)
    axioms = []
    for _round in range(50):
        apps = [t for t in topo(allr) if t.op == "uf"]
        if not apps:
            break
        # innermost only
        inner = [t for t in apps if not any(x.op == "uf" for x in topo(children(t)))]
        table = {}
        pure = [a for a in allr[len(roots):] if not any(x.op == "uf" for x in topo([a]))]
        reps = []
        trig = []
        for t in inner:
            fn = t.args[0]
            if fn in ("sin", "cos"):
                trig.append(t)
            else:
                found = None
                for (f2, t2, v2) in reps:
                    if f2 == fn and len(t2.args) == len(t.args):
                        if all(_provably_equal(x, y, pure) for x, y in zip(t.args[1:], t2.args[1:])):
                            found = v2
                            break
                if found is None:
                    found = symt.var("uf!%s!%d" % (fn, t.uid))
                    reps.append((fn, t, found))
                    if fn == "sqrt":
                        x = t.args[1]
                        nn = symt.le(symt.ZERO, x)
                        axioms.append(symt.implies(nn, symt.andT(
                            symt.le(symt.ZERO, found), symt.eq(symt.mul(found, found), x))))
                    if fn == "exp":
                        axioms.append(symt.lt(symt.ZERO, found))
                table[t.uid] = found
        bases = []  # (base term, sinvar, cosvar)
        for t in trig:
            a = t.args[1]
            fn = t.args[0]
            # constant multiple of pi/2?
            val = None
            rel = _trig_arg_relation(a, symt.ZERO, pure)
            if rel is not None:
                k = rel[1] % 4
                val = const([0, 1, 0, -1][k] if fn == "sin" else [1, 0, -1, 0][k])
            else:
                for (b, sv, cv) in bases:
                    rel = _trig_arg_relation(a, b, pure)
                    if rel is not None:
                        s, k = rel
                        x = _shift(fn, s, k, b)
                        val = _subst([x], {symt.uf("sin", b).uid: sv, symt.uf("cos", b).uid: cv})[0]
                        break
            if val is None:
                sv = symt.var("uf!sin!%d" % a.uid)
                cv = symt.var("uf!cos!%d" % a.uid)
                bases.append((a, sv, cv))
                axioms.append(symt.le(const(-1), sv))
                axioms.append(symt.le(sv, const(1)))
                axioms.append(symt.le(const(-1), cv))
                axioms.append(symt.le(cv, const(1)))
                axioms.append(("trig", a, sv, cv))
                val = sv if fn == "sin" else cv
            table[t.uid] = val
        allr = _subst(allr, table)
    out_roots = allr[:len(roots)]
    out_as = allr[len(roots):]
    return out_roots, out_as, axioms


def _provably_equal(a, b, assumptions):
    if a is b:
        return True
    vs = symt.variables([a, b])
    try:
        for m in _rand_models(vs):
            x, y = symt.evalf(a, m), symt.evalf(b, m)
            if not abs(x - y) <= 1e-9 * (1 + abs(x)):
                return False
    except Exception:
        pass
    STATS["lemma_queries"] += 1
    r, _ = raw_check([symt.notT(symt.eq(a, b))] + list(assumptions), timeout=20)
    return r == "unsat"


def raw_check(asserts, timeout=30, want_model=None, tactic=None, second=False):
    """Check satisfiability of the conjunction of asserts (no uf inside)."""
    em = Emitter()
    em.emit(asserts)
    if "pi" in em.vars:
        em.emit(PI_AX)
        asserts = list(asserts) + PI_AX
    txt = "\n".join(em.lines) + "\n"
    for a in asserts:
        txt += "(assert %s)\n" % em.names[a.uid]
    cs = "(check-sat)" if tactic is None else "(check-sat-using %s)" % tactic
    names = [v for v in em.vars]
    STATS["queries"] += 1
    t0 = time.time()
    body = txt + cs + "\n"
    out = _z3.ask(body, timeout)
    if out.strip().startswith("sat") and want_model:
        body2 = txt + cs + "\n(get-value (%s))\n" % " ".join(em.qname(n) for n in names) if names else body
        out = _z3.ask(body2, timeout)
    dt = time.time() - t0
    STATS["time"] += dt
    if "(error" in out:
        raise SolverError(out[:500])
    first = out.strip().split("\n")[0].strip()
    model = None
    if first == "sat" and want_model and names:
        model = parse_model(out[out.index("\n") + 1:], em.vars)
    if first not in ("sat", "unsat"):
        first = "unknown"
    STATS[first] += 1
    return first, model


def cvc5_check(asserts, timeout=30):
    em = Emitter()
    em.emit(asserts)
    if "pi" in em.vars:
        em.emit(PI_AX)
        asserts = list(asserts) + PI_AX
    txt = "(set-logic ALL)\n" + "\n".join(em.lines) + "\n"
    for a in asserts:
        txt += "(assert %s)\n" % em.names[a.uid]
    txt += "(check-sat)\n"
    t0 = time.time()
    STATS["queries"] += 1
    try:
        p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % int(timeout * 1000)],
                           input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout + 10)
        out = p.stdout.decode()
    except subprocess.TimeoutExpired:
        out = "unknown"
    STATS["time"] += time.time() - t0
    first = out.strip().split("\n")[0].strip() if out.strip() else "unknown"
    if first not in ("sat", "unsat"):
        first = "unknown"
    STATS[first] += 1
    return first


_tok = re.compile(r"\(|\)|\|[^|]*\||[^\s()]+")


def parse_model(txt, vars_):
    toks = _tok.findall(txt)
    pos = 0

    def parse():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            r = []
            while toks[pos] != ")":
                r.append(parse())
            pos += 1
            return r
        return t

    m = {}
    if not toks:
        return m
    ex = parse()
    for pair in ex:
        n = pair[0].strip("|")
        try:
            m[n] = val(pair[1])
        except Exception:
            m[n] = None
    return m


def val(e):
    if isinstance(e, str):
        if e in ("true", "false"):
            return e == "true"
        if e.endswith("?"):
            e = e[:-1]
        return Fraction(e)
    h = e[0]
    if h == "-":
        return -val(e[1])
    if h == "/":
        return val(e[1]) / val(e[2])
    if h == "to_real":
        return val(e[1])
    if h == "root-obj":
        return root_obj(e)
    raise ValueError(e)


def _poly(e):
    """univariate polynomial in x as coefficient list"""
    if isinstance(e, str):
        if e == "x":
            return [Fraction(0), Fraction(1)]
        return [Fraction(e)]
    h = e[0]
    if h == "+":
        r = [Fraction(0)]
        for a in e[1:]:
            p = _poly(a)
            n = max(len(r), len(p))
            r = [(r[i] if i < len(r) else 0) + (p[i] if i < len(p) else 0) for i in range(n)]
        return r
    if h == "-":
        p = _poly(e[1])
        if len(e) == 2:
            return [-c for c in p]
        q = _poly(e[2])
        n = max(len(q), len(p))
        return [(p[i] if i < len(p) else 0) - (q[i] if i < len(q) else 0) for i in range(n)]
    if h == "*":
        r = [Fraction(1)]
        for a in e[1:]:
            p = _poly(a)
            z = [Fraction(0)] * (len(r) + len(p) - 1)
            for i, x in enumerate(r):
                for j, y in enumerate(p):
                    z[i + j] += x * y
            r = z
        return r
    if h == "^":
        p = _poly(e[1])
        r = [Fraction(1)]
        for _ in range(int(e[2])):
            z = [Fraction(0)] * (len(r) + len(p) - 1)
            for i, x in enumerate(r):
                for j, y in enumerate(p):
                    z[i + j] += x * y
            r = z
        return r
    raise ValueError(e)


def root_obj(e):
    import numpy as np

    p = [float(c) for c in _poly(e[1])]
    idx = int(e[2])
    rts = np.roots(p[::-1])
    re_ = sorted(float(r.real) for r in rts if abs(r.imag) < 1e-9)
    return Fraction(re_[idx - 1])


def relevant(assumptions, roots):
    """Assumptions connected to the roots through shared variables."""
    vs = set(v.uid for v in symt.variables(roots))
    rest = [(a, set(v.uid for v in symt.variables([a]))) for a in assumptions]
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for a, s in rest:
            if not s or (s & vs):
                out.append(a)
                vs |= s
                changed = True
            else:
                nrest.append((a, s))
        rest = nrest
    keep = set(a.uid for a in out)
    return [a for a in assumptions if a.uid in keep]


def expand_axioms(axioms, deep):
    out = []
    for ax in axioms:
        if isinstance(ax, T):
            out.append(ax)
        elif ax[0] == "trig":
            _, a, sv, cv = ax
            if deep >= 1:
                out.append(symt.eq(symt.add(symt.mul(sv, sv), symt.mul(cv, cv)), const(1)))
            if deep >= 2:
                # sin(x) <= x and >= x - x^3/6 for x >= 0 ; odd
                z = symt.ZERO
                sx = const(Fraction(1, 6))
                cube = symt.mul(sx, symt.mul(a, symt.mul(a, a)))
                out.append(symt.implies(symt.le(z, a), symt.andT(symt.le(sv, a), symt.le(symt.sub(a, cube), sv))))
                out.append(symt.implies(symt.le(a, z), symt.andT(symt.le(a, sv), symt.le(sv, symt.sub(a, cube)))))
                # sign on half periods
                out.append(symt.implies(symt.andT(symt.le(z, a), symt.le(a, PI)), symt.le(z, sv)))
                out.append(symt.implies(symt.andT(symt.le(symt.mul(const(-1), PI), a), symt.le(a, z)), symt.le(sv, z)))
                half = symt.mul(const(Fraction(1, 2)), PI)
                out.append(symt.implies(symt.andT(symt.le(symt.mul(const(-1), half), a), symt.le(a, half)), symt.le(z, cv)))
    return out


TACTICS = [None, "qfnra-nlsat", "(then simplify solve-eqs (using-params simplify :som true) smt)"]


def _conditions(t):
    """Conditions of the if-then-else nodes of t which contain no if-then-else themselves."""
    out = {}
    has = {}
    for x in topo([t]):
        has[x.uid] = x.op == "ite" or any(has[c.uid] for c in children(x))
        if x.op == "ite" and not has[x.args[0].uid] and x.args[0].op != "c":
            c = x.args[0]
            if c.op == "not":
                c = c.args[0]
            if not any(y.op == "uf" for y in topo([c])):
                out[c.uid] = c
    return [out[k] for k in sorted(out, key=lambda u: (len(topo([out[u]])), u))]


def _implied(c, asm):
    """True / False when the assumptions decide c, else None"""
    a = relevant(asm, [c])
    a = [x for x in a if not any(y.op in ("uf", "ite") for y in topo([x]))]
    for v, q in ((False, c), (True, symt.notT(c))):
        STATS["lemma_queries"] += 1
        if raw_check([q] + a, timeout=5)[0] == "unsat":
            return v
    return None


_floor_cache = {}


def resolve_floors(neg, asm):
    """Replace floor(x) by the constant it provably equals under the assumptions."""
    tried = set()
    while True:
        fl = [t for t in topo([neg]) if t.op == "floor" and t.uid not in tried]
        fl = [t for t in fl if not any(y.op in ("uf", "ite", "floor") for y in topo(children(t)))]
        if not fl:
            return neg
        table = {}
        for t in fl:
            tried.add(t.uid)
            x = t.args[0]
            a = relevant(asm, [x])
            a = [y for y in a if not any(z.op in ("uf", "ite", "floor") for z in topo([y]))]
            key = (t.uid, tuple(y.uid for y in a))
            if key not in _floor_cache:
                _floor_cache[key] = None
                probe = symt.var("floor!probe", "R")
                r, m = raw_check([symt.eq(probe, x)] + a, timeout=5, want_model=True)
                STATS["lemma_queries"] += 1
                v = m.get("floor!probe") if r == "sat" and m else None
                if v is not None:
                    k = v.numerator // v.denominator
                    out = symt.orT(symt.lt(x, const(k)), symt.le(const(k + 1), x))
                    STATS["lemma_queries"] += 1
                    if raw_check([out] + a, timeout=5)[0] == "unsat":
                        _floor_cache[key] = const(k)
            if _floor_cache[key] is not None:
                table[t.uid] = _floor_cache[key]
        if table:
            neg = _subst([neg], table)[0]
        else:
            return neg


def split_refute(neg, asm, timeout, deep, budget):
    """Case split on the conditions inside the goal; every leaf is decided by the solver."""
    if any(t.op == "floor" for t in topo([neg])):
        neg = resolve_floors(neg, asm)
    while neg is not symt.FALSE:
        cs = _conditions(neg)
        if not cs:
            break
        c = cs[0]
        v = _implied(c, asm)
        if v is None:
            if budget[0] <= 0:
                return "unknown", None
            budget[0] -= 1
            STATS["case_splits"] = STATS.get("case_splits", 0) + 1
            verdict = "unsat"
            for val, cond in ((symt.TRUE, c), (symt.FALSE, symt.notT(c))):
                n2 = _subst([neg], {c.uid: val})[0]
                r, m = split_refute(n2, asm + [cond], timeout, deep, budget)
                if r == "sat":
                    return r, m
                if r == "unknown":
                    verdict = r
                    if budget[0] <= 0:
                        break
            return verdict, None
        neg = _subst([neg], {c.uid: symt.TRUE if v else symt.FALSE})[0]
    if neg is symt.FALSE:
        return "unsat", None
    return refute(neg, asm, timeout=timeout, deep=deep, split=False)


def refute(neg_goal, assumptions, timeout=40, deep=1, model=True, second=False, split=True, tactics=None):
    """Is (assumptions and neg_goal) satisfiable?  Returns (verdict, model or None)."""
    ops = topo([neg_goal])
    if any(t.op == "floor" for t in ops) and any(t.op == "uf" for t in ops):
        neg_goal = resolve_floors(neg_goal, list(assumptions))
    if split and any(t.op == "uf" and t.args[0] == "sqrt" for t in ops):
        if len(_conditions(neg_goal)) >= 2:
            return split_refute(neg_goal, list(assumptions), timeout, deep, [1000])
    asm = relevant(assumptions, [neg_goal]) if symt.variables([neg_goal]) else list(assumptions)
    roots, asm2, axioms = normalise_uf([neg_goal], asm)
    q = roots + asm2 + expand_axioms(axioms, deep)
    q = [a for a in q if a is not symt.TRUE]
    if any(a is symt.FALSE for a in q):
        # still ask the solver: the verdict is its own
        r, m = raw_check([symt.FALSE], timeout=5)
        return r, m
    if not q:
        q = [symt.TRUE]
    r, m = "unknown", None
    lq = mono.abstract(q) if len(q) < 400 else None
    if lq is not None:
        lq = [a for a in lq if a is not symt.TRUE]
        if any(a is symt.FALSE for a in lq):
            lq = [symt.FALSE]
        if lq:
            r, _ = raw_check(lq, timeout=min(timeout, 20))
            if r == "unsat":
                STATS["by_linear_abstraction"] += 1
                return r, None
            r = "unknown"
    tacs = TACTICS[:tactics]
    short = min(timeout, 8)
    for t, tl in ((short, tacs), (timeout, tacs[1:] if timeout > short else ())):
        for tac in tl:
            r, m = raw_check(q, timeout=t, want_model=model, tactic=tac)
            if r != "unknown":
                break
        if r != "unknown":
            break
    if r == "unknown" and tactics is None:
        STATS["second_opinion"] += 1
        r2 = cvc5_check(q, timeout)
        if r2 == "unsat":
            r = r2
    elif second and r == "unsat":
        STATS["second_opinion"] += 1
        r2 = cvc5_check(q, timeout)
        if r2 == "sat":
            STATS["disagree"] += 1
            raise SolverError("z3 says unsat, cvc5 says sat")
    return r, m


def satisfiable(asserts, timeout=20):
    asserts = [a for a in asserts if a is not symt.TRUE]
    if any(a is symt.FALSE for a in asserts):
        return "unsat", None
    if not asserts:
        return "sat", {}
    roots, asm2, axioms = normalise_uf(asserts, [])
    q = roots + expand_axioms(axioms, 1)
    for tac in TACTICS[:2]:
        r, m = raw_check(q, timeout=timeout, want_model=True, tactic=tac)
        if r != "unknown":
            return r, m
    return r, m


def shutdown():
    _z3.stop()
