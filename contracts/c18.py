"""C18: iterative closest point."""
import itertools

from contracts.common import *

LAY = [(2, 0), (2, 1), (2, -2), (2, -1), (3, 0), (3, 1), (3, 2), (3, -2)]


def inputs(rank, axis):
    p = axis % rank
    s1, s2 = dims(rank, fixed={p: 3}, lo=1), dims(rank, "m", fixed={p: 3}, lo=1)
    return real_array("v1", s1), real_array("v2", s2), s1, s2, p


def as_rows(ctx, a, v, shape, p, what):
    """Obligation: the rows of a are the vectors of v, in some fixed order; returns row -> vector."""
    free = [i for i in range(len(shape)) if i != p]
    if not (isinstance(a, S.SymArray) and a.ndim == 2):
        ctx.fail(what, "not a list of vectors")
        raise PathEnd()
    ctx.prove(T.cmp("==", S.dz(a.shape[0]), S.dz(S.prod([shape[i] for i in free]))), what + ": number of vectors")
    j = z3.Int("row!")
    rng = [j >= 0, j < S.dz(a.shape[0])]
    for perm in itertools.permutations(free):
        if len(perm) == 1:
            pos = lambda n: {perm[0]: n}
        else:
            fl = S.flattening(tuple(shape[i] for i in perm))
            pos = lambda n, fl=fl, perm=perm: dict(zip(perm, fl.unflatten(n)))

        def row(n, pos=pos):
            d = pos(n)
            return v_at(v, tuple(d[i] for i in free), p)

        if all(S.value_eq(a.at((j, c)), row(j)[c]) is True or ctx.holds(S.value_eq(a.at((j, c)), row(j)[c]), extra=rng, ms=500) for c in range(3)):
            for c in range(3):
                ctx.prove(S.value_eq(a.at((j, c)), row(j)[c]), what, extra=rng)
            return row
    ctx.fail(what, "rows are not the given vectors in a fixed order")
    raise PathEnd()


class ICP:
    """Specification state: V(k) the points after k iterations, E(k) the mean distance in iteration k-1 (E(0) = 0).

    V(0) are the first vectors moved by the initial transform, V(k+1) = rot(Q(k), V(k)) + T(k) where
    (T(k), Q(k)) is the best fit of V(k) to its nearest neighbours.
    """

    def __init__(self, ctx, v1, v2, s1, s2, p, init, tol, limit):
        self.v1, self.v2, self.s1, self.s2, self.p, self.init, self.tol, self.limit = v1, v2, s1, s2, p, init, tol, limit
        self.free = [i for i in range(len(s1)) if i != p]
        self.n = S.prod([s1[i] for i in self.free])
        self.V = T.fn("V", T.IS, T.IS, T.IS, T.RS)
        self.E = T.fn("E", T.IS, T.RS)
        self.Q = [T.fn("iq%d" % i, T.IS, T.RS) for i in range(4)]
        self.T = [T.fn("it%d" % i, T.IS, T.RS) for i in range(3)]
        self.final, self.calls = None, []
        ctx.store["invariants"] = self.candidates
        ctx.store["required"] = ("points", "error")
        ctx.facts.append(self.E(z3.IntVal(0)) == 0)

    # -- specification
    def given(self, perm, i):
        """Row i of the first vectors listed in this order."""
        if len(perm) == 1:
            return v_at(self.v1, (i,), self.p)
        d = dict(zip(perm, S.flattening(tuple(self.s1[x] for x in perm)).unflatten(i)))
        return v_at(self.v1, tuple(d[x] for x in self.free), self.p)

    def start(self, perm, i):
        v = self.given(perm, i)
        if self.init is None:
            return v
        t, r = self.init
        w = T.rot(r, v)
        return tuple(T.add(w[c], t[c]) for c in range(3))

    def order(self, a, f):
        """The fixed order of the rows, the same in the whole run."""
        ctx = C()
        if "order" not in ctx.records:
            i = z3.Int("row!")
            rng = [i >= 0, i < S.dz(self.n)]
            for perm in itertools.permutations(self.free):
                w = f(perm, i)
                if all(S.value_eq(a.at((i, c)), w[c]) is True or ctx.holds(S.value_eq(a.at((i, c)), w[c]), extra=rng, ms=500) for c in range(3)):
                    break
            else:
                perm = tuple(self.free)
            if ctx.replaying() or ctx.mute:
                return perm
            ctx.records["order"] = perm
        return ctx.records["order"]

    def at(self, k, i, c, perm=None):
        k = z3.simplify(T.zint(k))
        if z3.is_int_value(k) and k.as_long() == 0:
            s = self.start(perm, i)
            return s[c] if isinstance(c, int) else _sel(s, c)
        return self.V(k, T.zint(i), T.zint(c))

    def moved(self, k, i, perm=None):
        """V(k+1, i)."""
        k = z3.simplify(T.zint(k))
        w = T.rot([q(k) for q in self.Q], [self.at(k, i, c, perm) for c in range(3)])
        return [T.add(w[c], self.T[c](k)) for c in range(3)]

    def small(self, k):
        k = z3.simplify(T.zint(k))
        d = self.E(k) - self.E(z3.simplify(k + 1))
        return z3.And(d < T.zreal(self.tol), -d < T.zreal(self.tol))

    # -- loop rule
    def candidates(self, loop, pos, index):
        ctx = C()
        k = z3.simplify(T.zint(S.dz(index)))
        end = loop.state == "end"
        perm = None
        if end:
            j = z3.simplify(k - 1)
            perm = self.iteration(j)
            if ("cont", str(j)) not in ctx.store:
                ctx.store["cont", str(j)] = True
                ctx.prove(T.lnot(self.small(j)), "the iteration goes on only while the mean distance changes by the tolerance")

        def pts(idx):
            i, c = idx
            if not end:
                return self.at(k, i, c)
            s = self.moved(j, i, perm)
            return s[c] if isinstance(c, int) else _sel(s, c)

        return [("points", S.SymArray((self.n, 3), "f", pts)), ("error", S.SymArray((), "f", lambda idx: self.E(k)))]

    def iteration(self, k):
        """Obligations on iteration k, and the definition of E(k+1)."""
        ctx = C()
        if ("iter", str(k)) in ctx.store:
            return ctx.store["iter", str(k)]
        nn = ctx.store.get("nn", [])
        call = self.calls[-1] if self.calls else None
        if not nn or call is None:
            raise Unsupported("an iteration without nearest neighbours and best fit")
        call["done"] = True
        x, d, ii = nn[-1]
        perm = self.order(x, self.start)
        ctx.store["iter", str(k)] = perm
        as_rows(ctx, d, self.v2, self.s2, self.p, "neighbours are searched among all target points")
        i = z3.Int("pt!")
        rng = [i >= 0, i < S.dz(self.n)]
        ctx.prove(T.cmp("==", S.dz(x.shape[0]), S.dz(self.n)), "every moved point is matched")
        for c in range(3):
            ctx.prove(S.value_eq(x.at((i, c)), self.at(k, i, c, perm)), "every moved point is matched", extra=rng)
            ctx.prove(S.value_eq(call["a"].at((i, c)), self.at(k, i, c, perm)), "the best fit starts at the moved points", extra=rng)
            ctx.prove(S.value_eq(call["b"].at((i, c)), d.at((ii.at((i,)), c))), "the best fit goes to the nearest neighbours", extra=rng)

        def dist(j):
            y = [T.sub(x.at((j, c)), d.at((ii.at((j,)), c))) for c in range(3)]
            return T.sqrt(T.dot(y, y))

        ctx.facts.append(self.E(z3.simplify(k + 1)) == T.zreal(T.div(S.sum_over(dist, self.n), T.zreal(S.dz(self.n)))))
        return perm

    # -- contract of the fit (C17)
    def stub(self, m):
        def best_fit_transform(v1, v2, dim=None, axis=None):
            ctx = C()
            v1, v2 = S.asarray(v1), S.asarray(v2)
            if ctx.store.get("while"):
                raise Unsupported("iterations in a while loop that is not a count")
            if v1.ndim != 2 or v2.ndim != 2 or dim is not None or axis not in (None, -1, 1):
                raise Unsupported("best_fit_transform of something else than lists of vectors")
            ctx.prove(T.land(T.cmp("==", S.dz(v1.shape[0]), S.dz(v2.shape[0])), T.cmp("==", S.dz(v1.shape[1]), 3), T.cmp("==", S.dz(v2.shape[1]), 3)),
                      "as many targets as points")
            if ctx.loops:
                k = ctx.loops[-1].k
                q, t = [f(k) for f in self.Q], [f(k) for f in self.T]
                self.calls.append({"k": k, "a": _frozen(v1), "b": _frozen(v2), "done": False})
            else:
                q, t = z3.Reals("fq0 fq1 fq2 fq3"), z3.Reals("ft0 ft1 ft2")
                self.final = (_frozen(v1), _frozen(v2), q, t)
            ctx.facts.append(T.zreal(T.qnorm2(q)) == 1)
            return vec(t), vec(q)

        m.best_fit_transform = best_fit_transform

    def after(self):
        """Obligations on the fit that gives the result."""
        ctx = C()
        if self.final is None:
            ctx.fail("the result is the fit of the original first points to the moved points", "no fit after the iterations")
            raise PathEnd()
        a, b, q, t = self.final
        perm = self.order(a, self.given)
        i = z3.Int("pt!")
        rng = [i >= 0, i < S.dz(self.n)]
        if self.calls:
            # left by break in iteration k
            k = z3.simplify(self.calls[-1]["k"])
            perm = self.iteration(k)
            ctx.prove(self.small(k), "the iteration stops early only if the mean distance changes by less than the tolerance")
            want = lambda c: self.moved(k, i, perm)[c]
        else:
            lim = S.dz(self.limit)
            k = z3.IntVal(0) if ctx.holds(T.cmp("<=", lim, 0)) else T.zint(lim)
            want = lambda c: self.at(k, i, c, perm)
        for c in range(3):
            ctx.prove(S.value_eq(a.at((i, c)), self.given(perm, i)[c]), "the result starts at the original first points", extra=rng)
            ctx.prove(S.value_eq(b.at((i, c)), want(c)), "the result ends where the iterations have moved the points", extra=rng)
        return t, q


def vec(xs, owner=None):
    return S.SymArray((len(xs),), "f", lambda idx: xs[idx[0]] if isinstance(idx[0], int) else _sel(xs, idx[0]), owner=owner)


def _frozen(a):
    return S.SymArray(a.shape, a.dtype, a.reader())


def _sel(xs, i):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = T.ite(T.cmp("==", i, k), xs[k], r)
    return r


def setup(ctx, v1, v2, s1, s2, p, init):
    m = mod("estimators")
    tol = z3.Real("tol")
    limit = fresh_int("max_iterations", 0)
    t0, r0 = z3.Reals("t0_0 t0_1 t0_2"), z3.Reals("r0_0 r0_1 r0_2 r0_3")
    spec = ICP(ctx, v1, v2, s1, s2, p, None if init == "none" else (t0, r0), tol, limit)
    spec.stub(m)
    kw = {"max_iterations": limit, "tolerance": S.scalar(tol)}
    if init != "none":
        ctx.assume(T.zreal(T.qnorm2(r0)) > 0)
        t, r = vec(t0, "argument init_transform"), vec(r0, "argument init_transform")
        if init == "dataarray":
            t = data_array(t, ("cartesian_axis",), {"cartesian_axis": ["x", "y", "z"]}, name="t0")
            r = data_array(r, ("quaternion_axis",), {"quaternion_axis": ["w", "x", "y", "z"]}, name="r0")
        kw["init_transform"] = (t, r)
    return spec, m, kw


FN = ["estimators.iterative_closest_point", "estimators._nearest_neighbor", "estimators._reshape_vectors", "utils.rotate_vectors"]


@contract("C18", FN, layout=LAY, init=["none", "array"])
def iterations(ctx, layout, init):
    rank, axis = layout
    v1, v2, s1, s2, p = inputs(rank, axis)
    spec, m, kw = setup(ctx, v1, v2, s1, s2, p, init)
    res = m.iterative_closest_point(v1, v2, axis=axis, **kw)
    t, q = spec.after()
    ok(isinstance(res, tuple) and len(res) == 2, "translation and rotation are returned")
    check_shape(res[0], (3,), "translation")
    check_shape(res[1], (4,), "rotation")
    for c in range(3):
        ctx.prove(S.value_eq(res[0].at((c,)), t[c]), "the result is the final fit")
    for c in range(4):
        ctx.prove(S.value_eq(res[1].at((c,)), q[c]), "the result is the final fit")


@contract("C18", FN + ["estimators._make_transform_dataarrays"], layout=[(2, 1), (2, 0), (3, 1)], init=["none", "dataarray"], how=["dim", "axis"])
def dataarrays(ctx, layout, init, how):
    rank, p = layout
    v1, v2, s1, s2, _ = inputs(rank, p)
    names = ["k%d" % i for i in range(rank)]
    names[p] = "cartesian_axis"
    da = data_array(v1, names, {"cartesian_axis": ["x", "y", "z"]})
    db = data_array(v2, names, {"cartesian_axis": ["x", "y", "z"]}, name="v2")
    spec, m, kw = setup(ctx, v1, v2, s1, s2, p, init)
    kw.update({"dim": {"dim": "cartesian_axis"}, "axis": {"axis": p}}[how])
    res = m.iterative_closest_point(da, db, **kw)
    t, q = spec.after()
    check_da(res[0], ("cartesian_axis",), "translation", {}, "translation")
    check_da(res[1], ("quaternion_axis",), "rotation", {}, "rotation")
    check_labels(res[0], "cartesian_axis", ("x", "y", "z"), "translation labels")
    check_labels(res[1], "quaternion_axis", ("w", "x", "y", "z"), "rotation labels")
    for c in range(3):
        ctx.prove(S.value_eq(res[0]._data.at((c,)), t[c]), "the result is the final fit")
    for c in range(4):
        ctx.prove(S.value_eq(res[1]._data.at((c,)), q[c]), "the result is the final fit")


@contract("C18", ["estimators._nearest_neighbor"])
def neighbours(ctx):
    """Index and distance of a nearest target, for every point."""
    n, k = fresh_int("n", 1), fresh_int("m", 1)
    a, b = real_array("v1", (n, 3)), real_array("v2", (k, 3))
    m = mod("estimators")
    if not hasattr(m, "_nearest_neighbor"):
        return ctx.prove(True, "checked where it is used")
    idx, dist = m._nearest_neighbor(a, b)
    check_shape(idx, (n,), "indices")
    check_shape(dist, (n,), "distances")
    i, q = z3.Int("i!"), z3.Int("q!")
    rng = [i >= 0, i < S.dz(n), q >= 0, q < S.dz(k)]
    j = T.zint(idx.at((i,)))
    d2 = lambda x, y: T.qnorm2([T.sub(a.at((x, c)), b.at((y, c))) for c in range(3)])
    ctx.prove(z3.And(j >= 0, j < S.dz(k)), "a target index", extra=rng)
    ctx.prove(S.value_eq(dist.at((i,)), T.sqrt(d2(i, j))), "distance to the matched target", extra=rng)
    ctx.prove(T.cmp("<=", d2(i, j), d2(i, q)), "no target is nearer", extra=rng)


@contract("C18", ["estimators.iterative_closest_point"])
def lemma_rigid(ctx):
    """V(k) is a rigid motion of the original points for every k, so the final fit is exact (C17)."""
    p, q, v = z3.Reals("p0 p1 p2 p3"), z3.Reals("q0 q1 q2 q3"), z3.Reals("v0 v1 v2")
    t, u = z3.Reals("t0 t1 t2"), z3.Reals("u0 u1 u2")
    hyp = [T.qnorm2(p) > 0, T.qnorm2(q) > 0]
    inner = T.rot(p, v)
    lhs = T.rot(q, [inner[c] + t[c] for c in range(3)])
    r1, r2 = T.rot(T.qmul(q, p), v), T.rot(q, t)
    for c in range(3):
        ctx.prove(lhs[c] + u[c] == r1[c] + (r2[c] + u[c]), "lemma: a rigid motion after a rigid motion is a rigid motion", extra=hyp + [T.qnorm2(T.qmul(q, p)) > 0])
    ctx.prove(S.value_eq(T.qnorm2(T.qmul(q, p)), T.mul(T.qnorm2(q), T.qnorm2(p))), "lemma: the product of nonzero quaternions is not zero")


@contract("C18", ["estimators.iterative_closest_point"])
def lemma_fixed(ctx):
    """Coinciding points: the nearest target coincides, the identity fits exactly, so does the best fit, and nothing moves."""
    x, y = z3.Reals("x0 x1 x2"), z3.Reals("y0 y1 y2")
    d = T.qnorm2(T.vsub(x, y))
    for c in range(3):
        ctx.prove(x[c] == y[c], "lemma: distance zero", extra=[d <= 0])
    s, t = z3.Reals("s t")
    ctx.prove(s == 0, "lemma: the best fit is at least as good as the identity", extra=[s <= t, t == 0, s >= 0])
