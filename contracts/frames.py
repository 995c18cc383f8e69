"""Reference frames as symbolic families: the path between two frames of any tree.

A family is a sequence of any number of frames; frame k is static, continuous or
discrete, with its own number of samples.  Values are uninterpreted functions of
the frame and the sample, so a proof about them holds for every tree path.
"""
from contracts.common import *
from pyvc import loops as L

STATIC, CONT, DISC = 0, 1, 2


class Family:
    def __init__(self, m, name, n, kinds=(0, 1, 2), tkind="f", unit=None, valid=True):
        ctx = C()
        self.m, self.n, self.kinds, self.tkind, self.unit = m, n, kinds, tkind, unit
        srt = T.RS if tkind == "f" else T.IS
        self.K = T.fn(name + "_kind", T.IS, T.IS)
        self.N = T.fn(name + "_len", T.IS, T.IS)
        self.ts_ = T.fn(name + "_ts", T.IS, T.IS, srt)
        self.tr_ = T.fn(name + "_tr", T.IS, T.IS, T.IS, T.RS)
        self.q_ = [T.fn("nz_%s_%d" % (name, c), T.IS, T.IS, T.RS) for c in range(4)]
        k, i, j = z3.Ints("fk! fi! fj!")
        ctx.facts.append(z3.ForAll([k], z3.And(self.N(k) >= 1, z3.Or(*[self.K(k) == x for x in kinds])), patterns=[self.N(k)]))
        ctx.facts.append(z3.ForAll([k], z3.Or(*[self.K(k) == x for x in kinds]), patterns=[self.K(k)]))
        if valid:
            rng = z3.And(i >= 0, i < j, j < self.N(k))
            ctx.facts.append(z3.ForAll([k, i, j], z3.Implies(rng, self.ts_(k, i) <= self.ts_(k, j)),
                                       patterns=[z3.MultiPattern(self.ts_(k, i), self.ts_(k, j))]))
        fam = self

        class SymFrame(m.ReferenceFrame):
            translation = property(lambda s: fam.translation(s._k))
            rotation = property(lambda s: fam.rotation(s._k))
            timestamps = property(lambda s: fam.timestamps(s._k))
            discrete = property(lambda s: fam.kind(s._k) == DISC)
            name = property(lambda s: "frame %s" % s._k)
            __del__ = lambda s: None

        self.cls = SymFrame
        self.seen = {}

    # -- the program's view
    def kind(self, k):
        """The kind of frame k on this path of the execution."""
        ctx = C()
        for x in self.kinds[:-1]:
            if ctx.branch(self.K(T.zint(k)) == x):
                return x
        ctx.assume(self.K(T.zint(k)) == self.kinds[-1])
        return self.kinds[-1]

    def length(self, k):
        k = T.zint(k)
        C().assume(self.N(k) >= 1)
        return mkint(self.N(k))

    def _arr(self, k, cols, f, owner):
        k = T.zint(k)
        if self.kind(k) == STATIC:
            return S.SymArray((cols,), "f", lambda idx: f(k, z3.IntVal(0), idx[0]), owner=owner)
        return S.SymArray((self.length(k), cols), "f", lambda idx: f(k, T.zint(idx[0]), idx[1]), owner=owner)

    def translation(self, k):
        return self._arr(k, 3, lambda k, i, c: self.tr_(k, i, T.zint(c)), "stored translation")

    def rotation(self, k):
        return self._arr(k, 4, lambda k, i, c: sel([q(k, i) for q in self.q_], c), "stored rotation")

    def timestamps(self, k):
        k = T.zint(k)
        if self.kind(k) == STATIC:
            return None
        return S.SymArray((self.length(k),), S.DT(self.tkind, self.unit), lambda idx: self.ts_(k, T.zint(idx[0])), owner="stored timestamps")

    def frame(self, k):
        f = self.cls.__new__(self.cls)
        f.__dict__["_k"] = k
        return f

    def seq(self):
        return seqs.SymList([seqs.Seg(self.n, lambda k: self.frame(k))])

    # -- specification
    def ns(self, k, i):
        """Time of sample i of frame k: a number, or nanoseconds."""
        v = self.ts_(T.zint(k), T.zint(i))
        return T.mul(v, S.unit_ns(self.unit)) if self.tkind == "M" else v

    def is_kind(self, k, x):
        return self.K(T.zint(k)) == x

    def event(self, k, x):
        """Index of the event of discrete frame k in force at time x (the first one before all events)."""
        e = L.last_index(lambda i: T.cmp("<=", self.ns(k, i), x), self.N(T.zint(k)))
        return T.ite(T.cmp("<", e, 0), 0, e)

    def contribution(self, k, x):
        """(translation, rotation) that frame k contributes at time x (None: static result); lists of 3 and 4 terms."""
        k = T.zint(k)
        i0 = z3.IntVal(0)
        t = [self.tr_(k, i0, z3.IntVal(c)) for c in range(3)]
        q = [f(k, i0) for f in self.q_]
        if x is None:
            return t, q
        knd = self.kind(k)
        if knd == DISC:
            e = self.event(k, x)
            t = [self.tr_(k, T.zint(e), z3.IntVal(c)) for c in range(3)]
            q = [f(k, T.zint(e)) for f in self.q_]
        elif knd == CONT:
            xs = lambda i: T.zreal(self.ns(k, i))
            n = self.N(k)
            t = [Q.spec_lerp(xs, lambda i, c=c: self.tr_(k, T.zint(i), z3.IntVal(c)), n, x) for c in range(3)]
            q = list(Q.spec_squad(xs, lambda i: tuple(f(k, T.zint(i)) for f in self.q_), n, x))
        return t, q


def sel(xs, i):
    if isinstance(i, int):
        return xs[i]
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = T.ite(T.cmp("==", i, k), xs[k], r)
    return r


def compose(t, q, ft, fq, inverse):
    """One step along the path: the transform (t, q) followed by the frame's transform (ft, fq) or its inverse."""
    if inverse:
        qi = T.qinv(fq)
        return T.rot(qi, T.vsub(t, ft)), T.qmul(qi, q)
    return T.vadd(T.rot(fq, t), ft), T.qmul(fq, q)


class Output:
    """The output timestamps of a transformation (contract C04), as a function on the path's time axis."""

    def __init__(self, ctx, families, static, name="out"):
        self.families, self.static = families, static
        fam = families[0]
        i = z3.Int("oi!")
        if static:
            self.ts, self.n = None, None
            for f in families:
                ctx.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.dz(f.n)), f.is_kind(i, STATIC)), patterns=[f.K(i)]))
            return
        self.n = fresh_int(name + "_n", 0)
        self.ts = timestamps(name, self.n, kind=fam.tkind, unit=fam.unit, owner=False)
        w = z3.Int(name + "_w")
        some = [z3.And(w >= 0, w < S.dz(f.n), z3.Not(f.is_kind(w, STATIC))) for f in families]
        ctx.assume(z3.Or(*some))
        ctx.facts.append(z3.And(z3.Sum([S.dz(f.n) if T.is_z3(S.dz(f.n)) else z3.IntVal(f.n) for f in families] + [z3.IntVal(0)]) >= 1))
        j = z3.Int("oj!")
        for f in families:
            x = self.time(j)
            ctx.facts.append(z3.ForAll([i, j], z3.Implies(
                z3.And(i >= 0, i < S.dz(f.n), f.is_kind(i, CONT), j >= 0, j < S.dz(self.n)),
                z3.And(f.ns(i, 0) <= x, x <= f.ns(i, f.N(i) - 1)))))

    def time(self, j):
        """Output time j: a number, or nanoseconds."""
        if self.static:
            return None
        v = self.ts.at((j,))
        return T.mul(v, S.unit_ns(self.ts.dtype.unit)) if self.ts.dtype.kind == "M" else v

    def install(self, m):
        cls = m.TransformMatcher

        def get_timestamps(this, arrays_first=True):
            return self.ts

        if hasattr(cls, "get_timestamps"):
            cls.get_timestamps = get_timestamps
        return self


# ------------------------------------------------------------- single frames
class One:
    """A real ReferenceFrame with arbitrary numbers, and what it contributes at any time."""

    def __init__(self, m, name, parent, kind, tkind="f", unit=None, inverse=False, strict=True, least=2, missing=()):
        ctx = C()
        self.m, self.kind, self.tkind, self.unit = m, kind, tkind, unit
        self.n = None if kind == STATIC else fresh_int("n_" + name, least if kind == CONT else 1)
        shape = () if self.n is None else (self.n,)
        self.tr = real_array("tr_" + name, shape + (3,))
        self.q = frame_quats("q_" + name, shape)
        self.ts = None if self.n is None else timestamps("ts_" + name, self.n, kind=tkind, unit=unit, strict=strict)
        kw = {}
        if kind == DISC:
            kw["discrete"] = True
        if self.ts is not None:
            kw["timestamps"] = self.ts
        if inverse:
            kw["inverse"] = True
        if "translation" not in missing:
            kw["translation"] = self.tr
        if "rotation" not in missing:
            kw["rotation"] = self.q
        self.missing = missing
        self.rf = m.ReferenceFrame(name, parent=parent, **kw)

    def ns(self, i):
        v = self.ts.at((T.zint(i),))
        return T.mul(v, S.unit_ns(self.unit)) if self.tkind == "M" else v

    def tr_at(self, i, c):
        if "translation" in self.missing:
            return z3.RealVal(0)
        return self.tr.at((c,) if self.n is None else (T.zint(i), c))

    def q_at(self, i):
        if "rotation" in self.missing:
            return tuple(z3.RealVal(1 if c == 0 else 0) for c in range(4))
        return tuple(self.q.at((c,) if self.n is None else (T.zint(i), c)) for c in range(4))

    def sample(self, i):
        return [self.tr_at(i, c) for c in range(3)], list(self.q_at(i))

    def event(self, x):
        e = L.last_index(lambda i: T.cmp("<=", self.ns(i), x), S.dz(self.n))
        return T.ite(T.cmp("<", e, 0), 0, e)

    def contribution(self, x):
        if self.kind == STATIC:
            return self.sample(0)
        if self.kind == DISC:
            return self.sample(self.event(x))
        xs = lambda i: T.zreal(self.ns(i))
        t = [Q.spec_lerp(xs, lambda i, c=c: self.tr_at(i, c), self.n, x) for c in range(3)]
        return t, list(Q.spec_squad(xs, self.q_at, self.n, x))

    def covers(self, x):
        return T.land(T.cmp("<=", self.ns(0), x), T.cmp("<=", x, self.ns(S.izs(T.sub(S.dz(self.n), 1)))))


def frame_quats(name, shape):
    """Rotation array of a frame: no quaternion is zero (any norm)."""
    ctx = C()
    nm = ctx.fresh("nz_" + name)
    n = len(shape)
    fs = [T.fn("%s_%d" % (nm, c), *([T.IS] * n + [T.RS])) if n else z3.Real("%s_%d" % (nm, c)) for c in range(4)]
    return S.SymArray(tuple(shape) + (4,), "f", lambda idx: sel([f(*[T.zint(i) for i in idx[:-1]]) if n else f for f in fs], idx[-1]),
                      owner="argument %s" % name)


def at_samples(xs, ys, n, spec):
    """Interpolation reproduces the samples at their (distinct) times."""
    ctx = C()
    k = z3.Int("k!s")
    got, want = spec(xs, ys, n, T.zreal(xs(k))), ys(k)
    if not isinstance(got, tuple):
        got, want = (got,), (want,)
    for g, w in zip(got, want):
        ctx.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < S.dz(n)), g == w), patterns=[g]))
    ctx.assumption("interp1d and squad reproduce the samples at their (distinct) times")


def ns_of(ts):
    """Output time j of a timestamps array: a number, or nanoseconds."""
    if ts.dtype.kind == "M":
        return lambda j: T.mul(ts.at((j,)), S.unit_ns(ts.dtype.unit))
    return lambda j: ts.at((j,))
