"""Symbolic sequences: lists whose length is not bounded."""
import z3

from . import terms as T
from .terms import Unsupported, PathEnd
from .engine import C, SInt, SBool, mkint, mkbool, eint, ebool, summarize
from . import symnp as S


def mentions(e, names):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def subst(obj, k, t, bad=()):
    """Instantiate a value that depends on the index constant k at t."""
    def put(e):
        if not T.is_z3(e):
            return e
        if bad and mentions(e, bad):
            raise Unsupported("value created inside a symbolic loop: %s" % str(e)[:200])
        return z3.substitute(e, (k, T.zint(t)))

    if isinstance(obj, (int, float, str, bool, type(None), T.Fraction)):
        return obj
    if T.is_z3(obj):
        return put(obj)
    if isinstance(obj, S.SymArray):
        g = obj.reader()

        def at(idx):
            v = g(idx)
            if isinstance(v, tuple):
                return tuple(sub1(c) for c in v)
            return sub1(v)

        sub1 = put
        r = S.SymArray(tuple(subst(d, k, t, bad) for d in obj.shape), obj.dtype, at)
        r.cell.owner = obj.cell.owner
        return r
    if isinstance(obj, SInt):
        return mkint(put(obj.e))
    if isinstance(obj, SBool):
        return mkbool(put(obj.e))
    if isinstance(obj, tuple):
        vals = [subst(o, k, t, bad) for o in obj]
        return type(obj)(*vals) if hasattr(obj, "_fields") else tuple(vals)
    if hasattr(obj, "sym_subst"):
        return obj.sym_subst(k, t)
    if isinstance(obj, list):
        return [subst(o, k, t, bad) for o in obj]
    raise Unsupported("instantiating a %s" % type(obj).__name__)


class Seg:
    """[item(k) for k in range(n) if cond(k)]"""

    def __init__(self, n, item, cond=None):
        self.n, self.item, self.cond = n, item, cond

    def c(self, k):
        return True if self.cond is None else self.cond(k)

    def range(self, k, c=True):
        """Index k is one of this segment."""
        return T.land(T.cmp(">=", k, 0), T.cmp("<", k, S.dz(self.n)), c)

    def length(self):
        if self.cond is None:
            return self.n
        raise Unsupported("length of a filtered list")

    def nonempty(self):
        """Formula: the segment has an element."""
        if self.cond is None:
            return T.cmp(">", S.dz(self.n), 0)
        return S.exists_over(self.cond, self.n)


class SymList:
    """A python list made of concrete items and symbolic segments."""

    _sym_seq = True
    __array_ufunc__ = None

    def __init__(self, parts=(), name=None):
        self._parts = list(parts)  # items: ("i", obj) or Seg
        ctx = C()
        self.seq = 0
        if ctx is not None:
            self.seq = ctx.seq()
            ctx.lists[self.seq] = self

    @property
    def parts(self):
        self.note_read()
        return self._parts

    @parts.setter
    def parts(self, v):
        self._mutation()
        self._parts = v

    def note_read(self):
        ctx = C()
        for l in (ctx.loops if ctx is not None else ()):
            l.read(self)

    def _mutation(self):
        ctx = C()
        for l in (ctx.loops if ctx is not None else ()):
            if self.seq < l.seq0:
                raise Unsupported("list modified in a symbolic loop")

    def _parts_append(self, p):
        self._parts.append(p)

    # -- helpers
    def concrete(self):
        return all(isinstance(p, tuple) for p in self.parts)

    def items(self):
        if not self.concrete():
            raise Unsupported("iteration over a symbolic list")
        return [p[1] for p in self.parts]

    def __iter__(self):
        return iter(self.items())

    def copy(self):
        return SymList(self.parts)

    def append(self, x):
        loops = C().loops if C() is not None else []
        for l in reversed(loops):
            if l.appended(self, x):
                if len(loops) > 1 and any(self.seq < m.seq0 for m in loops[:-1]):
                    raise Unsupported("append in nested symbolic loops")
                return
        self._parts.append(("i", x))

    def extend(self, xs):
        self._mutation()
        if isinstance(xs, SymList):
            self._parts += xs.parts
        else:
            self._parts += [("i", x) for x in xs]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, x):
        self._mutation()
        if i == 0:
            self.parts.insert(0, ("i", x))
        elif self.concrete():
            self.parts.insert(i, ("i", x))
        else:
            raise Unsupported("insert")

    def pop(self, i=-1):
        self._mutation()
        if not self.parts:
            raise IndexError("pop from empty list")
        if isinstance(self.parts[i], tuple):
            return self.parts.pop(i)[1]
        raise Unsupported("pop from a symbolic list")

    def clear(self):
        self._mutation()
        self._parts.clear()

    def remove(self, x):
        raise Unsupported("remove")

    def reverse(self):
        self.parts = reversed_seq(self).parts

    def index(self, x):
        return self.items().index(x)

    def count(self, x):
        return self.items().count(x)

    def sort(self, **k):
        raise Unsupported("sort")

    def __add__(self, o):
        r = self.copy()
        if not isinstance(o, (SymList, list, tuple)):
            return NotImplemented
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SymList([("i", x) for x in o])
        r.extend(self)
        return r

    def __mul__(self, n):
        if not isinstance(n, int):
            raise Unsupported("list repetition")
        return SymList(self.parts * n)

    __rmul__ = __mul__

    def symlen(self):
        r = 0
        for p in self.parts:
            r = r + (1 if isinstance(p, tuple) else FiltLen(p) if p.cond is not None else p.n)
        return r

    def __len__(self):
        if self.concrete():
            return len(self.parts)
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported("len of a symbolic list as a native int")

    def __bool__(self):
        for p in self.parts:
            if isinstance(p, tuple):
                return True
        for p in self.parts:
            if C().branch(p.nonempty()):
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, (SymList, list)):
            return list(self) == list(o)
        return False

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        return x in self.items()

    def first(self, rev=False):
        ctx = C()
        for p in (reversed(self.parts) if rev else self.parts):
            if isinstance(p, tuple):
                return p[1]
            if not ctx.branch(p.nonempty()):
                continue
            if p.cond is None:
                return p.item(S.izs(T.sub(S.dz(p.n), 1)) if rev else 0)
            # the first index with cond
            k = z3.Int(ctx.fresh("first" if not rev else "last"))
            n = S.dz(p.n)
            ctx.assume(z3.And(k >= 0, k < n))
            ck = p.c(k)
            ctx.assume(ck)
            q = z3.Int("q!first")
            rng = z3.And(q >= 0, q < k) if not rev else z3.And(q > k, q < n)
            ctx.facts.append(z3.ForAll([q], z3.Implies(rng, T.zbool(T.lnot(p.c(q))))))
            ctx.store.setdefault("firsts", []).append((k, p))
            return p.item(k)
        raise IndexError("list index out of range")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.concrete():
                return SymList([("i", x) for x in self.items()[i]])
            if i.start is None and i.stop is None and i.step in (None, 1):
                return self.copy()
            if i.start is None and i.stop is None and i.step == -1:
                return reversed_seq(self)
            if i.start == 1 and i.stop is None and i.step in (None, 1) and isinstance(self.parts[0], tuple):
                return SymList(self.parts[1:])
            if i.start is None and i.stop == -1 and isinstance(self.parts[-1], tuple):
                return SymList(self.parts[:-1])
            raise Unsupported("slice of a symbolic list")
        if self.concrete():
            return self.items()[i if isinstance(i, int) else i.__index__()]
        if isinstance(i, int):
            if i == 0:
                return self.first()
            if i == -1:
                return self.first(True)
        if len(self.parts) == 1 and self.parts[0].cond is None:
            p = self.parts[0]
            j = S.check_int_index(i, p.n)
            return p.item(j)
        if all(isinstance(p, tuple) or p.cond is None for p in self.parts):
            ctx = C()
            total = 0
            for p in self.parts:
                total = T.add(total, 1 if isinstance(p, tuple) else S.dz(p.n))
            j = S.check_int_index(i, mkint(total))
            for p in self.parts:
                m = 1 if isinstance(p, tuple) else S.dz(p.n)
                if p is self.parts[-1] or ctx.branch(T.cmp("<", j, m)):
                    return p[1] if isinstance(p, tuple) else p.item(j)
                j = T.sub(j, m)
        raise Unsupported("index into a symbolic list")

    def __setitem__(self, i, v):
        self._mutation()
        if self.concrete():
            self._parts[i] = ("i", v)
        else:
            raise Unsupported("item assignment in a symbolic list")

    # -- quantification (np.any / any)
    def quantify(self, forall):
        cs = []
        for p in self.parts:
            if isinstance(p, tuple):
                v = ebool_of(p[1])
                cs.append(v)
            else:
                def body(k, p=p):
                    c = p.c(k)
                    v = formula_of(lambda: p.item(k), p.range(k, c))
                    return T.lor(T.lnot(c), v) if forall else T.land(c, v)
                cs.append(S.exists_over(body, p.n, forall))
        return mkbool((T.land if forall else T.lor)(*cs))

    # -- np.max / np.min of a list of numbers
    def extremum(self, sign):
        ctx = C()
        vals = []
        op = ">=" if sign > 0 else "<="
        if not bool(self):
            raise ValueError("zero-size array to reduction operation which has no identity")
        tag = ctx.fresh("listmax" if sign > 0 else "listmin")
        kinds = []
        unit = None
        # value type from a generic element
        gens = []
        for p in self.parts:
            if isinstance(p, tuple):
                a = S.asarray(p[1])
                gens.append((None, None, True, a))
            else:
                k = z3.Int("k!" + tag)
                def member(p=p, k=k):
                    ctx.assume(z3.And(k >= 0, k < S.dz(p.n), T.zbool(p.c(k))))
                    return S.asarray(p.item(k))
                outs = summarize(member)
                terms_ = [(pc, o) for pc, o in outs]
                gens.append((p, k, None, terms_))
        rep = None
        srt = None
        for p, k, _, a in gens:
            if p is None:
                rep = rep or a
            elif a:
                rep = rep or a[0][1]
        if rep is None:
            raise Unsupported("extremum of an empty symbolic list")
        kind = rep.dtype.kind
        v = z3.Int(tag) if kind in "iM" else z3.Real(tag)
        # datetimes of any resolution are compared in nanoseconds
        r = S.scalar(v, S.DT("M", "ns") if kind == "M" else rep.dtype)
        num = lambda a: T.mul(a.at(()), S.unit_ns(a.dtype.unit)) if kind == "M" else a.at(())
        attained = []
        for p, k, _, a in gens:
            if p is None:
                e = num(a)
                ctx.assume(T.cmp(op, v, e))
                attained.append(T.cmp("==", v, e))
            else:
                conds, ats = [], []
                for pc, o in a:
                    e = num(o)
                    conds.append(z3.Implies(T.zbool(pc), T.zbool(T.cmp(op, v, e))))
                    ats.append(z3.And(T.zbool(pc), T.zbool(T.cmp("==", v, e))))
                rng = z3.And(k >= 0, k < S.dz(p.n), T.zbool(p.c(k)))
                ctx.facts.append(z3.ForAll([k], z3.Implies(rng, z3.And(*conds) if conds else z3.BoolVal(True))))
                sk = z3.Int(tag + "_at")
                attained.append(z3.substitute(z3.And(rng, z3.Or(*ats) if ats else z3.BoolVal(False)), (k, sk)))
        ctx.facts.append(T.zbool(T.lor(*attained)))
        return r

    def as_array(self):
        if self.concrete():
            return S.asarray(self.items())
        if len(self.parts) == 1 and self.parts[0].cond is None:
            p = self.parts[0]
            k0 = p.item(z3.Int(C().fresh("k!arr")))
            a0 = S.asarray(k0)
            return S.SymArray((p.n,) + a0.shape, a0.dtype, lambda idx: S.asarray(p.item(idx[0])).at(idx[1:]))
        raise Unsupported("array of a symbolic list")

    def concatenated(self, axis):
        if self.concrete():
            return S.concatenate(self.items(), axis)
        if axis != 0:
            raise Unsupported("concatenate of a symbolic list along axis %r" % axis)
        return ConcatSeq(self)


class FiltLen:
    pass


def _filtlen(p):
    """Number of elements of a filtered segment."""
    ctx = C()
    k = z3.Int("k!count")
    e = T.zbool(p.c(k))
    reg = ctx.store.setdefault("counts", [])
    rng = [k >= 0, k < S.dz(p.n)]
    for e2, n2, v in reg:
        if S.same_dim(n2, p.n) and (e2.eq(e) or ctx.holds(e2 == e, extra=rng, ms=500)):
            return v
    n = z3.Int(ctx.fresh("count"))
    reg.append((e, p.n, SInt(n)))
    ctx.assume(n >= 0)
    ctx.facts.append((n > 0) == T.zbool(p.nonempty()))
    ctx.solver.add(n <= S.dz(p.n))
    ctx.facts.append(n <= S.dz(p.n))
    return SInt(n)


def FiltLen(p):  # noqa: F811
    cached = getattr(p, "_count", None)
    ctx = C()
    if cached is None or cached[0] is not ctx.decisions:
        p._count = (ctx.decisions, _filtlen(p))
    return p._count[1]


def _member(p, k):
    """Item k of a segment, on the paths on which the segment's condition holds for k."""
    if not C().branch(T.zbool(p.c(k))):
        raise PathEnd()
    return p.item(k)


def pos_fn(tag, n, arity):
    return T.fn("%s_pos%d" % (tag, n), *([T.IS] * (arity + 1)))


class ConcatSeq:
    """np.concatenate of a symbolic list of one-dimensional arrays (only np.unique of it is modelled)."""

    ndim = 1

    def __init__(self, lst):
        self.lst = lst

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("concatenated symbolic list: .%s" % name)

    def _elements(self):
        """[(quantified vars, condition, term)]; datetimes in nanoseconds"""
        out = []

        def value(a, i):
            v = a.at((i,))
            return (T.mul(v, S.unit_ns(a.dtype.unit)), S.DT("M", "ns")) if a.dtype.kind == "M" else (v, a.dtype)
        for q, p in enumerate(self.lst.parts):
            i = z3.Int("ui!%d" % q)
            if isinstance(p, tuple):
                a = S.asarray(p[1])
                out.append(([i], z3.And(i >= 0, i < S.dz(a.shape[0]))) + value(a, i))
            else:
                k = z3.Int("uk!%d" % q)
                for pc, a in summarize(lambda: S.asarray(_member(p, k))):
                    out.append(([k, i], z3.And(k >= 0, k < S.dz(p.n), T.zbool(p.c(k)), T.zbool(pc), i >= 0, i < S.dz(a.shape[0]))) + value(a, i))
        return out

    def sym_unique(self):
        ctx = C()
        tag = ctx.fresh("uniq")
        el = self._elements()
        dt = el[0][3]
        srt = T.RS if dt.kind == "f" else T.IS
        U = T.fn(tag, T.IS, srt)
        m = z3.Int(tag + "_m")
        ctx.assume(m >= 0)
        a, b = z3.Int("ua!"), z3.Int("ub!")
        F = ctx.facts
        F.append(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < m), U(a) < U(b)), patterns=[z3.MultiPattern(U(a), U(b))]))
        src, where = [], []
        for n, (vs, c, t, _) in enumerate(el):
            where.append((len(vs), pos_fn(tag, n, len(vs))))
            pos = where[-1][1]
            pv = pos(*vs)
            F.append(z3.ForAll(vs, z3.Implies(c, z3.And(pv >= 0, pv < m, U(pv) == t)), patterns=[pv]))
            sk = [T.fn("%s_src%d_%d" % (tag, n, q), T.IS, T.IS)(a) for q in range(len(vs))]
            src.append(z3.And(z3.substitute(c, *zip(vs, sk)), U(a) == z3.substitute(t, *zip(vs, sk))))
        F.append(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < m), z3.Or(*src)), patterns=[U(a)]))
        r = S.SymArray((SInt(m),), dt, lambda idx: U(T.zint(idx[0])))
        r.prov = ("unique", self, tag, where)
        ctx.assumption("numpy.unique(numpy.concatenate(list)): the sorted set of all elements")
        return r


def formula_of(thunk, given=None):
    """Boolean formula of a thunk that may fork (`given`: a condition under which it is evaluated)."""
    outs = summarize(thunk, given)
    return T.lor(*[T.land(pc, ebool_of(v)) for pc, v in outs]) if outs else False


def ebool_of(v):
    if isinstance(v, (bool, SBool)):
        return ebool(v)
    if isinstance(v, S.SymArray):
        if v.ndim:
            raise Unsupported("truth value of an array")
        x = v.at(())
        return x if isinstance(x, bool) or z3.is_bool(x) else T.cmp("!=", x, 0)
    if isinstance(v, SInt):
        return T.cmp("!=", v.e, 0)
    return bool(v)


def reversed_seq(s):
    if isinstance(s, SymList):
        out = []
        for p in reversed(s.parts):
            if isinstance(p, tuple):
                out.append(p)
            else:
                n = S.dz(p.n)
                out.append(Seg(p.n, lambda k, p=p, n=n: p.item(S.izs(T.sub(T.sub(n, 1), k))),
                               None if p.cond is None else (lambda k, p=p, n=n: p.cond(S.izs(T.sub(T.sub(n, 1), k))))))
        return SymList(out)
    raise Unsupported("reversed")


def as_seq(x):
    """View any iterable of the program as a SymList (or None if it is a plain python iterable)."""
    if isinstance(x, SymList):
        return x
    if isinstance(x, S.SymArray):
        if x.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = x.shape[0]
        if isinstance(n, SInt):
            v = x[...]  # a view: later writes are visible
            return SymList([Seg(n, lambda k: x[mkint(k) if T.is_z3(k) else k] if False else _row(x, k))])
        return None
    if isinstance(x, SymRange):
        return x.seq()
    if hasattr(x, "sym_seq"):
        return x.sym_seq()
    return None


def _row(x, k):
    """x[k] for an index known to be in range."""
    k = k if isinstance(k, int) else k
    g = x.reader()
    a = S.SymArray(x.shape[1:], x.dtype, lambda idx: g((k,) + idx))
    a.cell.owner = x.cell.owner if a.ndim else None
    if a.ndim and x.cell.owner is None:
        a.writable = False
    return a


class SymRange:
    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def length(self):
        s, e = S.dz(self.start), S.dz(self.stop)
        n = z3.simplify(T.zint(T.sub(e, s)))
        if C().branch(z3.simplify(n < 0)):
            return 0
        return mkint(n)

    def symlen(self):
        return self.length()

    def seq(self):
        s = S.dz(self.start)
        return SymList([Seg(self.length(), lambda k: mkint(T.add(s, k)))])


def seq_len(s):
    n = s.symlen()
    return n


def zip_seqs(args):
    """zip where at least one argument is symbolic."""
    seqs = []
    for a in args:
        s = as_seq(a)
        if s is None:
            if isinstance(a, S.SymArray):
                raise Unsupported("zip of symbolic and concrete lengths")
            if isinstance(a, Count):
                seqs.append(a)
                continue
            raise Unsupported("zip of a symbolic sequence with a %s" % type(a).__name__)
        if len(s.parts) != 1 or isinstance(s.parts[0], tuple) or s.parts[0].cond is not None:
            raise Unsupported("zip of composed symbolic lists")
        seqs.append(s.parts[0])
    n = None
    for p in seqs:
        if isinstance(p, Count):
            continue
        if n is None:
            n = p.n
        elif not S.dims_equal(n, p.n):
            # zip stops at the shorter one
            n = p.n if C().branch(T.cmp("<", S.dz(p.n), S.dz(n))) else n
    return SymList([Seg(n, lambda k: tuple(p.item(k) for p in seqs))])


class Count:
    def __init__(self, start):
        self.start = start

    def item(self, k):
        return mkint(T.add(S.dz(self.start), k))
