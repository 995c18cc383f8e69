"""The loop rule.

Iteration over a sequence of known length is executed as it is.  For a symbolic
sequence of n elements the loop is proved by induction over its iterations:

  discovery   which storage is written by the body (no obligations)
  first       iteration 0, from the state before the loop
  step        an arbitrary iteration k >= 1, from a havocked state that satisfies
              the loop invariant; at its end the invariant for k+1 is an obligation
  exit        the state after n iterations

Variables assigned in the body are undefined at the beginning of the step unless
the contract provides an invariant for them; appends to lists and guarded writes
to array elements are summarised exactly.
"""
import z3

from . import terms as T
from .terms import Unsupported, PathEnd
from .engine import C, SInt, SBool, mkint
from . import symnp as S
from . import seqs
from . import prover as P


class Undefined:
    """Value of a variable about which no invariant is known."""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable %r without an invariant" % object.__getattribute__(self, "_n"))

    def __getattr__(self, a):
        if a in ("__symarray__", "_sym_seq", "symlen", "sym_seq", "sym_subst", "__array__", "__array_interface__", "__array_struct__"):
            raise AttributeError(a)
        self._bad()

    __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __matmul__ = _bad
    __rmatmul__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __invert__ = __and__ = __or__ = __index__ = _bad
    __int__ = __float__ = __abs__ = __pow__ = __mod__ = __floordiv__ = __contains__ = __enter__ = __exit__ = _bad
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __format__ = _bad


class Unbound:
    pass


UNBOUND = Unbound()


def _undef(name):
    return Undefined(name)


class Loop:
    def __init__(self, it, lid, names, targets):
        self.lid, self.names, self.targets = lid, names, targets
        self.seq = None
        if isinstance(it, Undefined):
            it._bad()
        s = seqs.as_seq(it)
        if s is None:
            self.parts = None
            self.src = it
        else:
            # later appends to the iterated list are not seen by this iteration
            self.parts = list(s.parts)
            if isinstance(it, seqs.SymList):
                it.note_read()
        self.pos = 0
        self.init = {}
        self.offset = 0
        self.state = "idle"
        self.over = {}          # values of the variables after a summarised segment

    # -- protocol used by the instrumented code
    def __iter__(self):
        if self.parts is None:
            for x in self.src:
                self.cur = x
                self.state = "plain"
                yield x
            self.state = "idle"
            return
        for p in self.parts:
            if isinstance(p, tuple):
                self.cur = p[1]
                self.state = "plain"
                yield p[1]
                self.offset = T.add(self.offset, 1)
            else:
                yield from self.segment(p)
                self.offset = T.add(self.offset, S.dz(p.n))
        self.state = "idle"

    def segment(self, p):
        ctx = C()
        n = S.dz(p.n)
        if ctx.branch(T.cmp("<=", n, 0)) if T.is_z3(n) else n <= 0:
            return
        self.key = (self.lid, self.pos, tuple(ctx.decisions))
        self.pos += 1
        rec = ctx.records.setdefault(self.key, {"cells": set(), "lists": {}, "reads": set(), "writes": {}, "inv": {}, "vars": set(), "objs": set()})
        self.rec = rec
        self.p = p
        mode = ctx.choose(4, "loop")
        name = "k!%s!%d" % (self.lid.replace(".", "_").replace("#", "_"), self.pos)
        if mode == 3:
            self.state = "exit"
            self.over = {v: self.havoc(v, UNBOUND, n, exit_=True) for v in self.names}
            self.apply_summaries(p, n, name)
            return
        self.mode = mode
        if mode in (0, 2):
            k = z3.Int(ctx.fresh(name))
            ctx.assume(z3.And(k >= (1 if mode == 2 else 0), k < T.zint(n)))
        else:
            k = z3.IntVal(0)
        self.k = k
        if mode == 1:
            kk = 0
        else:
            kk = k
        if p.cond is not None:
            if mode == 1:
                # iteration 0 of a filtered segment is its first selected element
                if any(v for v in rec["inv"]):
                    raise Unsupported("invariants over a filtered list")
                raise PathEnd()
            ctx.assume(p.c(kk))
        self.state = "head"
        self.muted = ctx.mute
        if mode == 0:
            ctx.mute = True
        self.cur = None
        self._item = lambda: p.item(kk)
        try:
            yield k
        except GeneratorExit:
            self.left()
            raise
        # only reached if the body completed: let head() see the locals
        self.state = "end"
        yield k
        raise Unsupported("loop protocol")

    def head(self, loc):
        st = self.state
        if st == "plain":
            return self.values(loc)
        if st == "head":
            return self.begin(loc)
        if st == "end":
            self.finish(loc)
        if st == "exit":
            return self.values(loc)
        raise Unsupported("loop protocol")

    def element(self):
        if self.state == "running":
            return self._item()
        return self.cur

    def tail(self, loc):
        return self.values(loc)

    def values(self, loc):
        ctx = C()
        loc, self.over = {**loc, **self.over}, {}
        vals = [loc.get(v, UNBOUND) for v in self.names]
        vals = tuple(_undef(nm) if v is UNBOUND else v for nm, v in zip(self.names, vals))
        return vals

    # -- step
    def begin(self, loc):
        ctx = C()
        self.state = "running"
        loc, self.over = {**loc, **self.over}, {}
        self.locals_ = dict(loc)
        self.pc0 = len(ctx.pc)
        self.seq0 = ctx.seq()
        self.names0 = set(ctx.names)
        self.appends = []
        self.reads = set()
        self.init = {v: loc.get(v, UNBOUND) for v in self.names}
        ctx.loops.append(self)
        self.snap = _snapshot(loc)
        self.touched = {}
        if self.mode == 2:
            self.hav = {}
            for cid in sorted(self.rec["cells"]):
                cell = ctx.cells[cid]
                self.havoc_cell(cid, cell)
            vals = tuple(self.havoc(v, loc.get(v, UNBOUND), self.k) for v in self.names)
        elif self.mode == 1:
            vals = tuple(self.init[v] for v in self.names)
        else:
            vals = tuple(self.init[v] for v in self.names)
        return tuple(_undef(nm) if v is UNBOUND else v for nm, v in zip(self.names, vals))

    def havoc_cell(self, cid, cell):
        ctx = C()
        nm = ctx.fresh("hav")
        srt = {"f": T.RS, "i": T.IS, "b": T.BS, "M": T.IS}.get(cell.kind)
        if srt is None:
            raise Unsupported("writing a quaternion array in a symbolic loop")
        f = T.fn(nm, *([T.IS] * len(cell.shape) + [srt])) if cell.shape else z3.Const(nm, srt)
        self.hav[cid] = f
        cell.set(lambda idx: f(*[T.zint(i) for i in idx]) if idx else f)

    def written(self, cell):
        """Called before a cell that existed before the loop is written."""
        ctx = C()
        if cell.seq >= self.seq0:
            return
        if self.mode == 0:
            self.rec["cells"].add(cell.seq)

    def appended(self, lst, x):
        if lst.seq >= self.seq0:
            return False
        if any(l is lst for l, _ in self.appends):
            raise Unsupported("several appends per iteration")
        self.appends.append((lst, x))
        return True

    def read(self, lst):
        if lst.seq < self.seq0:
            self.reads.add(lst.seq)
            if any(l is lst for l, _ in self.appends):
                raise Unsupported("reading a list that the loop appends to")

    def left(self):
        """The body is left by break, return or an exception: execution goes on in the state of this iteration."""
        ctx = C()
        if ctx.loops and ctx.loops[-1] is self:
            ctx.loops.pop()
            for lst, _ in self.appends:
                lst.parts = Undefined("list modified in a loop that is left early")
            for seq in self.rec["lists"]:
                if seq in ctx.lists:
                    ctx.lists[seq].parts = Undefined("list modified in a loop that is left early")
            for cid in self.rec["cells"]:
                ctx.cells[cid].f = Undefined("array modified in a loop that is left early")

    def finish(self, loc):
        ctx = C()
        ctx.loops.pop()
        _check_snapshot(self.snap, loc, self.names)
        rec = self.rec
        pc = T.land(*ctx.pc[self.pc0:])
        created = set(ctx.names) - self.names0
        if self.mode == 0:
            ctx.mute = self.muted
            for lst, x in self.appends:
                rec["lists"].setdefault(lst.seq, []).append((pc, x, self.k, created))
            rec["reads"] |= self.reads
            raise PathEnd()
        if self.mode == 1:
            self.establish(loc)
            raise PathEnd()
        # mode 2
        for v, c in rec["inv"].items():
            val = loc.get(v, UNBOUND)
            self.check_inv(v, c, val, T.add(self.k, 1))
        for cid, f in self.hav.items():
            cell = ctx.cells[cid]
            rec["writes"].setdefault(cid, []).append((pc, self.guarded(cell, f), self.k, created))
        raise PathEnd()

    # -- invariants
    def candidates(self, index):
        ctx = C()
        h = ctx.store.get("invariants")
        if h is None:
            return []
        return h(self, self.pos - 1, T.add(self.offset, index))

    def establish(self, loc):
        """Which of the candidate values does each variable have after one iteration?"""
        ctx = C()
        cands = self.candidates(1)
        typed = set()
        for v in self.names:
            if v in self.targets:
                continue
            val = loc.get(v, UNBOUND)
            if val is UNBOUND or isinstance(val, Undefined):
                continue
            if self.init.get(v, UNBOUND) is UNBOUND or isinstance(self.init[v], Undefined):
                continue        # written before it is read in every iteration
            same = val is self.init.get(v)
            found = None
            for cname, c in cands:
                g = equal_values(val, c)
                if g is False:
                    continue
                typed.add(cname)
                results = []
                for x, e in ([] if g is True else g):
                    results.append(P.prove(x, ctx.hyps() + list(e), ms=4000, want_model=False))
                    if not results[-1]:
                        break
                else:
                    found = cname
                    break
            if found:
                old = self.rec["inv"].get(v)
                if old is not None and old != found:
                    raise Unsupported("ambiguous invariant")
                self.rec["inv"][v] = found
                if not (ctx.replaying() or ctx.mute):
                    for r in results:
                        ctx.record("invariant of %s: %s" % (self.lid.split("#")[0], found), r)
            elif same:
                self.rec["same"] = self.rec.get("same", set()) | {v}
        for group in ctx.store.get("required", ()):
            group = (group,) if isinstance(group, str) else group
            if any(g in [c for c, _ in cands] for g in group) and not any(g in self.rec["inv"].values() for g in group):
                if any(g in typed for g in group):
                    ctx.fail("invariant of %s: %s" % (self.lid.split("#")[0], group[0]), "no loop variable has this value after the first iteration")
                else:
                    raise Unsupported("no loop variable of the type of the invariant %s" % group[0])

    def check_inv(self, v, cname, val, index):
        ctx = C()
        for nm, c in self.candidates(index):
            if nm == cname:
                if val is UNBOUND or isinstance(val, Undefined):
                    ctx.fail("invariant of %s: %s" % (self.lid.split("#")[0], cname), "variable unbound")
                    return
                g = equal_values(val, c)
                if g is False:
                    ctx.fail("invariant of %s: %s" % (self.lid.split("#")[0], cname), "shape or type of %s changed" % v)
                elif g is not True:
                    for x, e in g:
                        ctx.prove(x, "invariant of %s: %s" % (self.lid.split("#")[0], cname), extra=e)
                return
        raise Unsupported("invariant vanished")

    def havoc(self, v, cur, index, exit_=False):
        c = self.rec["inv"].get(v)
        if c is not None:
            for nm, val in self.candidates(index):
                if nm == c:
                    return val
        if v in self.rec.get("same", ()) and False:
            return cur
        return Undefined(v)

    # -- summaries
    def guarded(self, cell, f):
        """New content as [(concrete index, generic vars, condition, value)]."""
        out = []
        for idx, cs in S.all_indices(cell.shape, "lw"):
            e = cell.f(idx)
            h = f(*[T.zint(i) for i in idx]) if idx else f
            c, v = split_ite(e, h)
            out.append((idx, c, v))
        return out

    def apply_summaries(self, p, n, name):
        ctx = C()
        rec = self.rec
        bad = set(rec["lists"]) & rec["reads"]
        if bad:
            raise Unsupported("loop reads a list it appends to")
        for seq, entries in sorted(rec["lists"].items()):
            lst = ctx.lists[seq]
            lst._parts_append(make_seg(p, entries))
        for cid, entries in sorted(rec["writes"].items()):
            cell = ctx.cells[cid]
            last_writer(cell, p, n, entries)


def make_seg(p, entries):
    bads = set().union(*[e[3] for e in entries])

    def cond(t):
        return T.land(p.c(t), T.lor(*[sub_term(pc, k, t, bads) for pc, x, k, _ in entries]))

    def item(t):
        ctx = C()
        for n, (pc, x, k, _) in enumerate(entries):
            if n == len(entries) - 1 or ctx.branch(sub_term(pc, k, t, bads)):
                return seqs.subst(x, k, t, bads)

    always = p.cond is None and len(entries) == 1 and entries[0][0] is True
    if p.cond is None and not always:
        t = z3.Int(C().fresh("seg"))
        try:
            always = C().holds(T.zbool(cond(t)), extra=[t >= 0, t < T.zint(S.dz(p.n))])
        except Unsupported:
            pass
    return seqs.Seg(p.n, item, None if always else cond)


def sub_term(e, k, t, bads=()):
    if not T.is_z3(e):
        return e
    if bads and seqs.mentions(e, bads):
        raise Unsupported("value created inside a symbolic loop: %s" % str(e)[:200])
    return z3.substitute(e, (k, T.zint(t)))


def split_ite(e, h):
    """e as (condition, value) where the value is written and h kept otherwise."""
    if not T.is_z3(e):
        return True, e
    if e.eq(h):
        return False, 0
    if not _contains(e, h):
        return True, e
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if not _contains(c, h):
            ca, va = split_ite(a, h)
            cb, vb = split_ite(b, h)
            return T.lor(T.land(c, ca), T.land(T.lnot(c), cb)), (va if cb is False else vb if ca is False else T.ite(c, va, vb))
    raise Unsupported("array accumulated in a symbolic loop")


def _contains(e, h):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(h):
            return True
        st.extend(x.children())
    return False


def int_consts(e):
    """Free integer constants of a term."""
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == T.IS:
            out[str(x)] = x
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return [out[k] for k in sorted(out)]


def last_index(cond, n, tag="last"):
    """The last k in [0, n) with cond(k), or -1: a term with its defining facts (shared by equivalent conditions)."""
    ctx = C()
    q = z3.Int("k!" + tag)
    e = T.zbool(cond(q))
    nz = T.zint(n)
    reg = ctx.store.setdefault("lasts", [])
    for e2, n2, v in reg:
        if e2.eq(e) and n2.eq(nz):
            return v
    mine = {str(x) for x in int_consts(e)}
    for e2, n2, v in reg:
        other = {str(x) for x in int_consts(e2)}
        if mine - other and other - mine:
            continue
        if n2.eq(nz) and ctx.holds(e2 == e, extra=[q >= 0, q < nz], ms=500):
            return v
    args = [x for x in int_consts(z3.And(e, nz >= 0)) if not x.eq(q)]
    L = T.fn(ctx.fresh(tag), *([T.IS] * (len(args) + 1)))(*args) if args else z3.Int(ctx.fresh(tag))
    ctx.facts.append(z3.And(L >= -1, L < nz))
    ctx.solver.add(z3.And(L >= -1, L < nz))
    ctx.facts.append(z3.Implies(L >= 0, z3.substitute(e, (q, L))))
    ctx.facts.append(z3.ForAll([q], z3.Implies(z3.And(q > L, q < nz), z3.Not(e))))
    reg.append((e, nz, L))
    return L


def last_writer(cell, p, n, entries):
    bads = set().union(*[e[3] for e in entries])
    old = cell.f
    for pc, lst, k, created in entries:
        for idx, c, v in lst:
            for g in (c, v):
                if T.is_z3(g) and seqs.mentions(g, {x for x in created if not any(T.is_z3(i) and str(i) == x for i in idx)}):
                    raise Unsupported("value created inside a symbolic loop")

    def at(idx):
        # conditions for this index
        alts = []
        for pc, lst, k, _ in entries:
            for gi, c, v in lst:
                if all((not isinstance(a, int)) or (isinstance(b, int) and a == b) for a, b in zip(gi, idx)):
                    sub = [(a, T.zint(b)) for a, b in zip(gi, idx) if not isinstance(a, int)]
                    s = lambda e: z3.substitute(e, *sub) if T.is_z3(e) and sub else e
                    alts.append((T.land(s(pc), s(c)), s(v), k))
                    break
            else:
                raise Unsupported("symbolic index along a concrete dimension")
        put = lambda e, k, t: z3.substitute(e, (k, T.zint(t))) if T.is_z3(e) else e
        cond = lambda t: T.lor(*[put(c, k, t) for c, _, k in alts])
        L = last_index(lambda t: T.land(p.c(t), cond(t)), n)
        val = None
        for c, v, k in alts:
            x = put(v, k, L)
            val = x if val is None else T.ite(put(c, k, L), x, val)
        return T.ite(L >= 0, val, old(idx))

    cell.set(at)


def _scalars(x):
    return x if isinstance(x, tuple) else (x,)


def equal_values(a, b):
    """Obligations [(formula, hypotheses)] for a == b; True / False if decided by the type."""
    if a is b:
        return True
    if isinstance(a, S.SymArray) and isinstance(b, S.SymArray):
        if a.ndim != b.ndim or (a.dtype.kind == "q") != (b.dtype.kind == "q"):
            return False
        out = []
        for x, y in zip(a.shape, b.shape):
            if not S.same_dim(x, y):
                x, y = S.dz(x), S.dz(y)
                if isinstance(x, int) and isinstance(y, int):
                    return False
                if not C().holds(T.cmp("==", x, y)):
                    return False
        for idx, cs in S.all_indices(b.shape, "inv"):
            out.append((T.zbool(S.value_eq(a.at(idx), b.at(idx))), cs))
        return out
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool):
        return [(T.zbool(T.cmp("==", S.dz(a), S.dz(b))), [])]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            g = equal_values(x, y)
            if g is False:
                return False
            if g is not True:
                out += g
        return out
    if isinstance(a, (bool, str, type(None))) and type(a) is type(b):
        return a == b
    return False


def _snapshot(loc):
    out = []
    for v in loc.values():
        if isinstance(v, (S.SymArray, seqs.SymList, Undefined, str, int, float, type(None), tuple, type, Loop)) or callable(v) and not hasattr(v, "__dict__"):
            continue
        if isinstance(v, list):
            out.append((v, list(v)))
        elif isinstance(v, dict):
            out.append((v, dict(v)))
        elif isinstance(v, set):
            out.append((v, set(v)))
        elif hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.startswith("rigid_body_motion"):
            out.append((v, dict(vars(v))))
            for x in vars(v).values():
                if isinstance(x, (list, dict, set)):
                    out.append((x, x.copy()))
    return out


def _check_snapshot(snap, loc, names):
    for v, old in snap:
        new = v if isinstance(v, (list, dict, set)) else vars(v)
        if isinstance(v, list):
            ok = len(new) == len(old) and all(a is b for a, b in zip(new, old))
        elif isinstance(v, set):
            ok = new == old
        else:
            ok = set(new) == set(old) and all(new[k] is old[k] for k in old)
        if not ok:
            raise Unsupported("an object is modified in a symbolic loop")
