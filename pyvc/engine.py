"""Symbolic execution engine: paths, obligations, symbolic ints and bools."""
import time
import traceback
import z3

from . import terms as T
from . import prover as P
from .terms import Unsupported, PathEnd


class Enough(BaseException):
    """Several obligations of the contract have failed: the rest is not explored."""


class Obligation:
    __slots__ = ("name", "func", "status", "backend", "time", "reason", "model", "case", "hyps", "goal")

    def __init__(self, name, func, status, backend, t, reason="", model=None, case=None):
        self.name, self.func, self.status, self.backend = name, func, status, backend
        self.time, self.reason, self.model, self.case = t, reason, model, case


class Ctx:
    """State of the exploration of one case."""

    def __init__(self, case=None, func=""):
        self.case = case or {}
        self.func = func
        self.obligations = []
        self.assumptions = set()
        self.stack = [[]]
        self.paths = 0
        self.reached = set()
        self.solver_time = 0.0
        self.failures = 0
        self.max_paths = 4000
        self.deadline = None
        self.records = {}
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.facts = []
        self.counter = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", int(400 * P.SCALE[0]))
        self.store = {}
        self.nested = None
        self.ghost = {}
        self.names = {}
        self.loops = []
        self.mute = False
        self.cells = {}
        self.lists = {}
        self._seq = 0

    # -- names
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        r = base if n == 0 else "%s!%d" % (base, n)
        self.names[r] = True
        return r

    def seq(self):
        """Creation order of storage cells and lists."""
        self._seq += 1
        return self._seq

    # -- assumptions
    def assume(self, c):
        """Assume a fact on the current path (precondition / axiom)."""
        if isinstance(c, SBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.facts.append(c)
        for g in conjuncts(c):
            if _cheap(g):
                self.solver.add(g)

    def hyps(self):
        return self.facts + self.pc

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    # -- branching
    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        t = time.time()
        r = self.solver.check()
        self.solver_time += time.time() - t
        self.solver.pop()
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        for h in self.pc:
            if h.eq(c):
                return True
            if z3.is_not(h) and h.arg(0).eq(c):
                return False
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if ft and ff and _quantified(c):
                # such conditions are often decided by the facts about the whole input
                h = [x for x in self.hyps() if P.is_expr(x)]
                for s in (c, z3.Not(c)):
                    q = z3.Solver()
                    q.set("timeout", int(400 * P.SCALE[0]))
                    q.add(*h)
                    q.add(s)
                    if q.check() == z3.unsat:
                        ft, ff = (False, ff) if s is c else (ft, False)
                        break
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                d = True
                self.stack.append(self.decisions + [False])
            else:
                d = ft
        self.decisions.append(d)
        h = c if d else z3.Not(c)
        self.pc.append(h)
        for g in conjuncts(h):
            if _cheap(g):
                self.solver.add(g)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution exhausted")
        return d

    def choose(self, n, label=""):
        """Non-deterministic choice (all alternatives are explored)."""
        if len(self.decisions) < len(self.prefix):
            d = self.prefix[len(self.decisions)]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.stack.append(self.decisions + [i])
        self.decisions.append(d)
        return d

    # -- obligations
    def prove(self, goal, name, extra=(), only=None):
        """Generate and discharge an obligation; returns True if proved.

        only: use just these hypotheses.
        """
        if isinstance(goal, SBool):
            goal = goal.e
        if self.replaying() or self.mute:
            return True
        frames = self.store.get("frames_only")
        if frames and not name.startswith("frame:") and not frames.inside:
            return True
        hyps = self.hyps() + list(extra) if only is None else list(only)
        r = P.prove(goal, hyps) if not isinstance(goal, bool) or not goal else P.Result("proved", "simplifier")
        if r.status != "proved" and (self._inconsistent(hyps) or only is not None and self._inconsistent(self.hyps())):
            # the path is infeasible (e.g. non-linear condition)
            r = P.Result("proved", "z3")
        if frames and r.status != "proved" and not name.startswith("frame:"):
            raise Unsupported("obligation of another property: " + name)
        self.record(name, r, goal=goal, hyps=hyps)
        return bool(r)

    def _inconsistent(self, hyps):
        s = z3.Solver()
        s.set("timeout", int(3000 * P.SCALE[0]))
        s.add(*[h for h in hyps if P.is_expr(h)])
        s.add(*P.axioms_for(hyps))
        return s.check() == z3.unsat

    def holds(self, goal, extra=(), ms=2000):
        """Ask whether something is provable, without generating an obligation."""
        if isinstance(goal, SBool):
            goal = goal.e
        if isinstance(goal, bool):
            return goal
        return bool(P.prove(goal, self.hyps() + list(extra), ms=ms, want_model=False))

    def record(self, name, r, goal=None, hyps=None):
        o = Obligation(name, self.func, r.status, r.backend, r.time, r.reason, r.model, dict(self.case))
        if r.status != "proved":
            o.goal = str(goal)[:1500]
            o.hyps = [str(h)[:300] for h in (hyps or [])][:40]
            self.failures += 1
        else:
            o.goal = o.hyps = None
        self.obligations.append(o)
        if self.failures >= 3:
            raise Enough()
        return o

    def fail(self, name, reason):
        if self.replaying() or self.mute:
            return
        frames = self.store.get("frames_only")
        if frames and not name.startswith("frame:"):
            if frames.inside:
                raise Unsupported("obligation of another property: " + name)
            return
        # a failure on an infeasible path is not a failure
        if self._inconsistent(self.hyps()):
            return
        m = None
        s = z3.Solver()
        s.set("timeout", int(3000 * P.SCALE[0]))
        s.add(*[h for h in self.hyps() if P.is_expr(h)])
        if s.check() == z3.sat:
            m = s.model()
        r = P.Result("refuted", "engine", model=m, reason=reason)
        self.record(name, r, goal=reason, hyps=self.hyps())

    def assumption(self, text):
        self.assumptions.add(text)


_ctx = None


def C():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


def conjuncts(h):
    if z3.is_and(h):
        return [g for c in h.children() for g in conjuncts(c)]
    if z3.is_not(h) and z3.is_or(h.arg(0)):
        return [g for c in h.arg(0).children() for g in conjuncts(z3.Not(c))]
    if z3.is_not(h) and z3.is_not(h.arg(0)):
        return conjuncts(h.arg(0).arg(0))
    return [h]


def _cheap(h):
    """Only linear facts go to the feasibility solver."""
    stack = [h]
    seen = set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return False
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            if sum(0 if (z3.is_rational_value(c) or z3.is_int_value(c)) else 1 for c in e.children()) > 1:
                return False
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not (z3.is_rational_value(e.arg(1))):
            return False
        if len(seen) > 400:
            return False
        stack.extend(e.children())
    return True


def _quantified(e):
    if z3.is_quantifier(e):
        return True
    return any(_quantified(c) for c in e.children()) if z3.is_bool(e) else False


def explore(fn, case=None, func="", max_paths=4000, budget=None):
    """Run fn on all feasible paths.  Returns the context.

    ctx.unsupported is set if something was outside the modelled subset.
    """
    ctx = Ctx(case, func)
    ctx.max_paths = max_paths
    ctx.unsupported = None
    ctx.crash = None
    if budget:
        ctx.deadline = time.time() + budget
    old = _ctx
    set_ctx(ctx)
    try:
        while ctx.stack:
            prefix = ctx.stack.pop()
            ctx.reset(prefix)
            ctx.paths += 1
            if ctx.paths > ctx.max_paths:
                ctx.unsupported = "too many paths"
                break
            try:
                fn(ctx)
            except PathEnd:
                pass
            except Enough:
                break
            except Unsupported as e:
                if ctx._inconsistent(ctx.hyps()):
                    continue
                ctx.unsupported = str(e)
                ctx.where = "".join(traceback.format_exc().splitlines(True)[-14:])
                break
    finally:
        set_ctx(old)
    return ctx


def summarize(thunk, given=None):
    """Explore all paths of a thunk, return [(path condition, value)].

    With `given`, only the paths on which this formula holds are explored; the path
    conditions are relative to it.  If a path raises, this execution forks: it raises
    on the condition of that path, and goes on without it otherwise.
    """
    ctx = C()
    if isinstance(given, bool):
        if not given:
            return []
        given = None
    base_pc, base_facts = len(ctx.pc), len(ctx.facts)
    saved = (ctx.prefix, ctx.decisions, ctx.stack)
    out = []
    raised = []
    stack = [[]]
    skip = 0 if given is None else 1
    try:
        while stack:
            pre = stack.pop()
            ctx.prefix, ctx.decisions, ctx.stack = pre, [], stack
            ctx.solver.push()
            facts0 = len(ctx.facts)
            if given is not None:
                ctx.pc.append(given)
                for g in conjuncts(given):
                    if _cheap(g):
                        ctx.solver.add(g)
            path = lambda n: T.land(*ctx.pc[base_pc + n:]) if len(ctx.pc) > base_pc + n else True
            try:
                v = thunk()
                out.append((path(skip), v))
            except PathEnd:
                pass
            except Unsupported:
                raise
            except Exception as e:
                raised.append((path(0), e))
            finally:
                new = ctx.facts[facts0:]
                cond = path(0)
                del ctx.facts[facts0:]
                del ctx.pc[base_pc:]
                ctx.solver.pop()
                for f in new:
                    g = f if cond is True else z3.Implies(T.zbool(cond), f)
                    ctx.facts.append(g)
                    if _cheap(g):
                        ctx.solver.add(g)
    finally:
        ctx.prefix, ctx.decisions, ctx.stack = saved
    for cond, e in raised:
        if ctx.branch(cond):
            raise e
    return out


# ------------------------------------------------------------ symbolic bool
class SBool:
    """Symbolic truth value; converting it to bool forks the path."""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C().branch(self.e)

    def __and__(self, o):
        return mkbool(T.land(self.e, ebool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(T.lor(self.e, ebool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(T.cmp("!=", self.e, ebool(o)))

    def __invert__(self):
        return mkbool(T.lnot(self.e))

    def __eq__(self, o):
        return mkbool(T.cmp("==", self.e, ebool(o)))

    def __ne__(self, o):
        return mkbool(T.cmp("!=", self.e, ebool(o)))

    def __repr__(self):
        return "SBool(%s)" % self.e

    @property
    def dtype(self):
        from .symnp import DT
        return DT("b")

    ndim = 0
    shape = ()

    def all(self):
        return self

    any = all


def ebool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return bool(x)
    from .symnp import SymArray
    if isinstance(x, SymArray) and x.ndim == 0:
        v = x.at(())
        return v if isinstance(v, bool) or z3.is_bool(v) else T.cmp("!=", v, 0)
    raise Unsupported("truth value of %r" % type(x))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


# ------------------------------------------------------------- symbolic int
class SInt:
    """Symbolic (mathematical) integer."""

    __array_ufunc__ = None

    def __init__(self, e):
        self.e = z3.simplify(e) if T.is_z3(e) else e

    def _v(o):
        return mkint(o)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "SInt(%s)" % self.e

    def __format__(self, spec):
        return str(self.e)

    def __index__(self):
        return self.concrete()

    def concrete(self):
        """The value, if it is determined on this path."""
        c = C()
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        if c.solver.check() == z3.sat:
            v = c.solver.model().eval(self.e, model_completion=True)
            if not c.feasible(self.e != v):
                return v.as_long()
        raise Unsupported("symbolic integer used where a concrete one is needed: %s" % self.e)

    __int__ = __index__

    def __bool__(self):
        return C().branch(self.e != 0)

    def _op(self, o, f, r=False):
        e = eint(o)
        if e is None:
            return NotImplemented
        a, b = (e, self.e) if r else (self.e, e)
        return mkint(f(a, b))

    def __add__(self, o):
        return self._op(o, T.add)

    def __radd__(self, o):
        return self._op(o, T.add, True)

    def __sub__(self, o):
        return self._op(o, T.sub)

    def __rsub__(self, o):
        return self._op(o, T.sub, True)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return NotImplemented
        return self._op(o, T.mul)

    def __rmul__(self, o):
        if isinstance(o, (tuple, list)):
            return NotImplemented
        return self._op(o, T.mul, True)

    def __neg__(self):
        return mkint(T.neg(self.e))

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        e = eint(o)
        if e is None:
            return NotImplemented
        if isinstance(e, int) and e > 0:
            return mkint(self.e / e)
        raise_if_zero(e)
        # z3 integer division equals floor division for positive divisors
        if not C().holds(T.cmp(">", e, 0)):
            raise Unsupported("floor division by a possibly negative number")
        return mkint(self.e / T.zint(e))

    def __mod__(self, o):
        e = eint(o)
        if e is None:
            return NotImplemented
        raise_if_zero(e)
        if not (isinstance(e, int) and e > 0) and not C().holds(T.cmp(">", e, 0)):
            raise Unsupported("modulo by a possibly negative number")
        return mkint(self.e % T.zint(e))

    def __rfloordiv__(self, o):
        return mkint(eint(o)).__floordiv__(self) if isinstance(mkint(eint(o)), SInt) else SInt(T.zint(eint(o))).__floordiv__(self)

    def __rmod__(self, o):
        return SInt(T.zint(eint(o))).__mod__(self)

    def __truediv__(self, o):
        from .symnp import scalar
        return scalar(self.e, "i") / o

    def __rtruediv__(self, o):
        from .symnp import scalar
        return o / scalar(self.e, "i")

    def _cmp(self, op, o):
        e = eint(o)
        if e is None:
            return NotImplemented
        return mkbool(T.cmp(op, self.e, e))

    def __eq__(self, o):
        r = self._cmp("==", o)
        return False if r is NotImplemented and not _foreign(o) else r

    def __ne__(self, o):
        r = self._cmp("!=", o)
        return True if r is NotImplemented and not _foreign(o) else r

    def __lt__(self, o):
        return self._cmp("<", o)

    def __le__(self, o):
        return self._cmp("<=", o)

    def __gt__(self, o):
        return self._cmp(">", o)

    def __ge__(self, o):
        return self._cmp(">=", o)


def _foreign(o):
    from .symnp import SymArray
    return isinstance(o, SymArray)


def raise_if_zero(e):
    if C().branch(T.cmp("==", e, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")


def eint(o):
    if isinstance(o, SInt):
        return o.e
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if T.is_z3(o) and o.sort() == z3.IntSort():
        return o
    from .symnp import SymArray
    if isinstance(o, SymArray) and o.ndim == 0 and o.dtype.kind in "iu":
        return o.at(())
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def fresh_int(name, lo=None, hi=None):
    c = C()
    v = z3.Int(c.fresh(name))
    if lo is not None:
        c.assume(v >= lo)
    if hi is not None:
        c.assume(v <= hi)
    return SInt(v)
