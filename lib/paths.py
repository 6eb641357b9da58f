"""Path exploration by re-execution.

`bool(term)` inside the code under test asks `decide`.  A decision is looked up in the
current path's trace; a new one is resolved by the solver (only feasible branches are
followed) and the other feasible branch is queued for a later re-execution.
"""
from . import symt, solver


class PathLimit(Exception):
    pass


class Ctx:
    def __init__(self):
        self.active = False
        self.assumptions = []
        self.pc = []
        self.trace = []
        self.pos = 0
        self.queue = []
        self.forks = 0
        self.unanswered = 0
        self.pins = {}      # on this path: integer term without its constant part -> (value, constant part)
        self.decided = {}   # on this path: condition -> outcome


_ctx = Ctx()


def ctx():
    return _ctx


def assume(t):
    _ctx.assumptions.append(t)


def known():
    return _ctx.assumptions + _ctx.pc


def _feasible(extra):
    asm = solver.relevant(known(), [extra])
    if extra is symt.FALSE:
        return False
    roots, asm2, ax = solver.normalise_uf([extra], asm)
    q = roots + asm2 + solver.expand_axioms(ax, 1)
    r = "unknown"
    for tac in (None, "qfnra-nlsat"):
        r, _ = solver.raw_check(q, timeout=3 if _ctx.unanswered > 2 else 15, tactic=tac)
        if r != "unknown":
            break
    else:
        _ctx.unanswered += 1
    return r != "unsat"


def decide(b):
    c = _ctx
    if not c.active:
        raise symt.Unsupported("branch on a symbolic value outside a path run")
    if b.uid in c.decided:
        return c.decided[b.uid]
    if c.pos < len(c.trace):
        v = c.trace[c.pos]
        c.pos += 1
        c.pc.append(b if v is True else symt.notT(b))
        c.decided[b.uid] = v
        return v
    t = _feasible(b)
    f = _feasible(symt.notT(b))
    if t and f:
        c.queue.append(list(c.trace) + [False])
        c.forks += 1
        v = True
    elif t:
        v = True
    elif f:
        v = False
    else:
        raise DeadPath()
    c.trace.append(v)
    c.pos += 1
    c.pc.append(b if v else symt.notT(b))
    c.decided[b.uid] = v
    return v


def _split(t):
    """t as (the linear form of its non-constant part, constant part)"""
    form = {}
    off = 0
    todo = [(1, t)]
    while todo:
        k, x = todo.pop()
        if x.op == "c":
            off += k * x.args
        elif x.op == "+":
            todo += [(k, a) for a in x.args]
        elif x.op == "*" and x.args[0].op == "c":
            todo.append((k * x.args[0].args, x.args[1]))
        else:
            form[x.uid] = form.get(x.uid, 0) + k
    return frozenset((u, k) for u, k in form.items() if k), off


class DeadPath(Exception):
    pass


def concretise(t):
    """Pick an integer value for t; the alternatives are explored on other paths."""
    c = _ctx
    if not c.active:
        raise symt.Unsupported("symbolic index outside a path run")
    form, off = _split(t)
    if form in c.pins:
        v, o = c.pins[form]
        return int(v + off - o)
    v = _concretise(t)
    c.pins[form] = (v, off)
    return v


def _concretise(t):
    c = _ctx
    if c.pos < len(c.trace):
        kind = c.trace[c.pos]
        c.pos += 1
        assert isinstance(kind, tuple)
        c.pc.append(symt.eq(t, symt.const(kind[1])))
        return kind[1]
    vals = []
    excl = []
    probe = symt.var("idx!probe", "I")
    link = symt.eq(probe, t)
    while len(vals) < 65:
        asm = solver.relevant(known(), [link])
        r, m = solver.satisfiable([link] + asm + excl)
        if r != "sat":
            if r == "unknown":
                raise symt.Unsupported("cannot decide a symbolic index")
            break
        v = int(m["idx!probe"])
        vals.append(v)
        excl.append(symt.notT(symt.eq(probe, symt.const(v))))
    if len(vals) > 64:
        raise symt.Unsupported("symbolic index with too many values")
    if not vals:
        raise DeadPath()
    vals.sort()
    for v in vals[1:]:
        c.queue.append(list(c.trace) + [("i", v)])
        c.forks += 1
    c.trace.append(("i", vals[0]))
    c.pos += 1
    c.pc.append(symt.eq(t, symt.const(vals[0])))
    return vals[0]


def explore(body, max_paths=256):
    """Run body() once per feasible path.  body receives nothing; yields path count."""
    c = _ctx
    c.queue = [[]]
    n = 0
    base_n = len(c.assumptions)
    results = []
    while c.queue:
        if n >= max_paths:
            c.queue = []
            raise PathLimit("more than %d paths" % max_paths)
        tr = c.queue.pop()
        c.trace = tr
        c.pos = 0
        c.pc = []
        c.pins = {}
        c.decided = {}
        del c.assumptions[base_n:]
        c.active = True
        try:
            results.append(body())
        except DeadPath:
            pass
        finally:
            c.active = False
        n += 1
    return n
