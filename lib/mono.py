"""Linear abstraction of polynomial queries.

Every real term is expanded to a linear combination of monomials; a non-linear monomial
becomes a fresh unconstrained variable.  The abstraction forgets facts, so `unsat` of the
abstraction is `unsat` of the query (the converse does not hold: `sat` is re-asked exactly).
"""
from fractions import Fraction

from . import symt
from .symt import T, const, topo

LIMIT = 3000


class TooBig(Exception):
    pass


class Abstraction:
    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.ites = {}
        self.mulmemo = {}
        self.work = 0

    def atom(self, t):
        self.atoms[t.uid] = t
        return {(t.uid,): Fraction(1)}

    def term(self, p):
        """poly -> T"""
        r = None
        for m in sorted(p):
            c = p[m]
            if not m:
                x = const(c, "R")
            else:
                a = self.atoms[m[0]] if len(m) == 1 else symt.var("mono!" + ".".join(map(str, m)))
                x = symt.mul(const(c, "R"), a) if c != 1 else a
            r = x if r is None else symt.add(r, x)
        return const(Fraction(0), "R") if r is None else r

    def addp(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + c * k
            if x == 0:
                r.pop(m, None)
            else:
                r[m] = x
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def scale(self, a, k):
        return {m: c * k for m, c in a.items()} if k != 0 else {}

    def mk_ite(self, c, a, b):
        """c: abstracted boolean T; a, b polys"""
        if c.op == "c":
            return a if c.args else b
        if c.op == "not":
            c = c.args[0]
            a, b = b, a
        if a == b:
            return a
        lead = None
        for p in (a, b):
            if p:
                m = min(p)
                lead = p[m]
                break
        if lead is None:
            return {}
        k = Fraction(1) / lead
        a1, b1 = self.scale(a, k), self.scale(b, k)
        t = symt.ite(c, self.term(a1), self.term(b1))
        if t.op != "ite":
            return a
        self.ites[t.uid] = (c, a1, b1)
        return self.scale(self.atom(t), lead)

    def mulmono(self, m, n):
        """product of two monomials -> poly"""
        if not m:
            return {n: Fraction(1)}
        if not n:
            return {m: Fraction(1)}
        im = len(m) == 1 and m[0] in self.ites
        iN = len(n) == 1 and n[0] in self.ites
        if not im and not iN:
            return {tuple(sorted(m + n)): Fraction(1)}
        key = (m, n) if m <= n else (n, m)
        r = self.mulmemo.get(key)
        if r is None:
            self.work += 1
            if self.work > 20000:
                raise TooBig()
            if not im:
                m, n = n, m
            c, a, b = self.ites[m[0]]
            if n == m:
                r = self.mk_ite(c, self.mulp(a, a), self.mulp(b, b))
            else:
                o = {n: Fraction(1)}
                r = self.mk_ite(c, self.mulp(a, o), self.mulp(b, o))
            self.mulmemo[key] = r
        return r

    def mulp(self, a, b):
        if len(a) * len(b) > LIMIT * 4:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = c * d
                for q, e in self.mulmono(m, n).items():
                    x = r.get(q, 0) + k * e
                    if x == 0:
                        r.pop(q, None)
                    else:
                        r[q] = x
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def inv(self, p):
        m = min(p)
        k = p[m]
        t = self.term(self.scale(p, Fraction(1) / k))
        v = symt.var("inv!%d" % t.uid)
        return self.scale(self.atom(v), Fraction(1) / k)

    def visit(self, t):
        """Returns a poly for real terms, a T for others."""
        o = t.op
        a = t.args
        if t.sort == "B":
            if o in ("v", "c"):
                return t
            if o in ("<", "<=", "="):
                if a[0].sort == "B":
                    return symt.eq(self.memo[a[0].uid], self.memo[a[1].uid])
                if a[0].sort == "I" and a[1].sort == "I":
                    return symt._mk(o, (self.memo[a[0].uid], self.memo[a[1].uid]), "B", (o, self.memo[a[0].uid].uid, self.memo[a[1].uid].uid)) \
                        if True else None
                p = self.addp(self.poly(a[0]), self.poly(a[1]), -1)
                z = const(Fraction(0), "R")
                if not p or (len(p) == 1 and () in p):
                    v = p.get((), Fraction(0))
                    return const({"<": v < 0, "<=": v <= 0, "=": v == 0}[o])
                m = min(x for x in p if x)
                k = Fraction(1) / (p[m] if o == "=" else abs(p[m]))
                p = self.scale(p, k)
                if o == "=":
                    return symt.eq(self.term(p), z)
                if p[m] < 0:
                    # -q < 0  <=>  not (q <= 0)
                    q = self.term(self.scale(p, Fraction(-1)))
                    return symt.notT(symt.le(q, z) if o == "<" else symt.lt(q, z))
                return (symt.lt if o == "<" else symt.le)(self.term(p), z)
            n = [self.memo[x.uid] for x in a]
            if o == "not":
                return symt.notT(n[0])
            if o == "and":
                return symt.andT(n[0], n[1])
            if o == "or":
                return symt.orT(n[0], n[1])
            if o == "ite":
                return symt.ite(n[0], n[1], n[2])
            raise TooBig()
        if t.sort == "I":
            if o in ("c", "v"):
                return t
            n = [self.memo[x.uid] if x.sort != "R" else self.term(self.memo[x.uid]) for x in symt.children(t)]
            from .solver import rebuild

            return rebuild(o, t, n)
        if o == "c":
            return {(): t.args} if t.args != 0 else {}
        if o == "v":
            return self.atom(t)
        if o == "+":
            return self.addp(self.poly(a[0]), self.poly(a[1]))
        if o == "*":
            return self.mulp(self.poly(a[0]), self.poly(a[1]))
        if o == "/":
            q = self.poly(a[1])
            if not q:
                raise TooBig()
            if len(q) == 1 and () in q:
                return self.scale(self.poly(a[0]), Fraction(1) / q[()])
            return self.mulp(self.poly(a[0]), self.inv(q))
        if o == "ite":
            return self.mk_ite(self.memo[a[0].uid], self.poly(a[1]), self.poly(a[2]))
        if o == "toreal":
            x = self.memo[a[0].uid]
            return self.atom(symt.toreal(x)) if x.op != "c" else {(): Fraction(x.args)} if x.args != 0 else {}
        raise TooBig()

    def poly(self, t):
        if t.op == "c":
            return {(): Fraction(t.args)} if t.args != 0 else {}
        r = self.memo[t.uid]
        if isinstance(r, T):
            # integer term in a real context
            return self.atom(symt.toreal(r)) if r.op != "c" else ({(): Fraction(r.args)} if r.args != 0 else {})
        return r

    def run(self, roots):
        for t in topo(roots):
            if t.uid not in self.memo:
                self.memo[t.uid] = self.visit(t)
        return [self.memo[r.uid] for r in roots]


def abstract(roots):
    """Abstracted roots, or None when not applicable."""
    try:
        return Abstraction().run(roots)
    except (TooBig, ZeroDivisionError, symt.Unsupported):
        return None
