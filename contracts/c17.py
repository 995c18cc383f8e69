"""C17: least-squares rotation and rigid transform (Kabsch)."""
import itertools

from contracts.common import *

LAY = [(r, a) for r in (2, 3) for a in range(-r, r)] + [(4, 1), (4, -1)]


# ------------------------------------------------------------------ spec
def inputs(rank, axis, lo=1):
    p = axis % rank
    shape = dims(rank, fixed={p: 3}, lo=lo)
    return real_array("v1", shape), real_array("v2", shape), shape, p


def sums(shape, p, body):
    """Sum over all correspondences (all index tuples without the spatial axis)."""
    free = [i for i in range(len(shape)) if i != p]

    def rec(rem, idx):
        if not rem:
            return body(tuple(idx))
        return S.sum_over(lambda k: rec(rem[1:], idx + [k]), shape[rem[0]])

    return rec(free, [])


def count(shape, p):
    return S.dz(S.prod([d for i, d in enumerate(shape) if i != p]))


def means(v, shape, p):
    n = count(shape, p)
    n = T.zreal(n)
    return [T.div(sums(shape, p, lambda i: v_at(v, i, p)[c]), n) for c in range(3)]


def spec_H(v1, v2, shape, p, centered):
    m1, m2 = (means(v1, shape, p), means(v2, shape, p)) if centered else ((0,) * 3, (0,) * 3)
    return [[sums(shape, p, lambda i: T.mul(T.sub(v_at(v1, i, p)[a], m1[a]), T.sub(v_at(v2, i, p)[b], m2[b])))
             for b in range(3)] for a in range(3)]


def det3(M):
    d = 0
    for c, (a, b) in enumerate(((1, 2), (2, 0), (0, 1))):
        d = T.add(d, T.mul(M[0][c], T.sub(T.mul(M[1][a], M[2][b]), T.mul(M[1][b], M[2][a]))))
    return d


def mat(name):
    return [[z3.Real("%s%d%d" % (name, i, j)) for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def mm(A, B):
    return [[T.add(T.add(T.mul(A[i][0], B[0][j]), T.mul(A[i][1], B[1][j])), T.mul(A[i][2], B[2][j])) for j in range(3)] for i in range(3)]


def orthogonal(A):
    G, K = mm(tr(A), A), mm(A, tr(A))
    return [T.zreal(X[i][j]) == (1 if i == j else 0) for X in (G, K) for i in range(3) for j in range(i + 1)]


# ---------------------------------------------------------------- lemmas
FN = ["estimators.best_fit_rotation", "estimators.best_fit_transform"]


@contract("C17", FN)
def lemma_products(ctx):
    """Products of orthogonal matrices are orthogonal, determinants multiply and square to one."""
    A, B, G = mat("A"), mat("B"), mat("G")
    lhs = mm(tr(mm(A, B)), mm(A, B))
    rhs = mm(mm(tr(B), mm(tr(A), A)), B)
    for i in range(3):
        for j in range(3):
            ctx.prove(S.value_eq(lhs[i][j], rhs[i][j]), "lemma: (AB)'(AB) = B'(A'A)B")
    ctx.prove(S.value_eq(det3(mm(A, B)), T.mul(det3(A), det3(B))), "lemma: determinant of a product")
    ctx.prove(S.value_eq(det3(mm(tr(A), A)), T.mul(det3(A), det3(A))), "lemma: determinant of an orthogonal matrix")
    # a matrix with orthonormal columns has orthonormal rows: A (A'A) = A  and  adj(A) A = det(A) I
    d = z3.Real("d")
    ctx.prove(z3.Or(d == 1, d == -1), "lemma: determinant of an orthogonal matrix", extra=[d * d == 1])


@contract("C17", FN)
def lemma_trace(ctx):
    """tr(Q U diag(s) Vt) <= s1 + s2 + det(U) det(Vt) s3 for every proper rotation Q."""
    U, Vt, Q = mat("U"), mat("W"), mat("Q")
    s = [z3.Real("s%d" % i) for i in range(3)]
    D = [[s[i] if i == j else 0 for j in range(3)] for i in range(3)]
    M = mm(mm(Vt, Q), U)
    QH = mm(Q, mm(mm(U, D), Vt))
    t1 = T.add(T.add(QH[0][0], QH[1][1]), QH[2][2])
    t2 = T.add(T.add(T.mul(s[0], M[0][0]), T.mul(s[1], M[1][1])), T.mul(s[2], M[2][2]))
    ctx.prove(S.value_eq(t1, t2), "lemma: trace in the singular basis")
    # M is orthogonal with determinant det(U) det(Vt) (lemma_products); bounds for such M
    m = mat("M")
    for k in range(3):
        a, b, c = (m[i][k] for i in range(3))
        x = z3.Reals("x y z")
        ctx.prove(x[0] <= 1, "lemma: entries of an orthogonal matrix are at most one", extra=[x[0] * x[0] + x[1] * x[1] + x[2] * x[2] == 1])
    a, b, c, t = z3.Reals("m11 m22 m33 t")
    hyp = [s[0] >= s[1], s[1] >= s[2], s[2] >= 0, a <= 1, b <= 1, c <= 1]
    ctx.prove(s[0] * (1 - a) >= 0, "lemma: trace bound, determinant one", extra=hyp)
    ctx.prove(s[2] * (1 - c) >= 0, "lemma: trace bound, determinant one", extra=hyp)
    ctx.prove(s[1] * (1 - b) >= 0, "lemma: trace bound, determinant one", extra=hyp)
    gap = s[0] * (1 - a) + s[1] * (1 - b) + s[2] * (-1 - c)
    split = (s[0] - s[1]) * (1 - a) + (s[1] - s[2]) * ((1 - a) + (1 - b)) + s[2] * (1 - (a + b + c))
    ctx.prove(S.value_eq(gap, split), "lemma: trace bound, determinant minus one")
    hyp += [a + b + c <= 1]
    for term in ((s[0] - s[1]) * (1 - a), (s[1] - s[2]) * ((1 - a) + (1 - b)), s[2] * (1 - (a + b + c))):
        ctx.prove(term >= 0, "lemma: trace bound, determinant minus one", extra=hyp)


@contract("C17", FN)
def lemma_trace_of_rotation(ctx):
    """An orthogonal N of determinant one has trace at least -1 (so det M = -1 gives tr M <= 1)."""
    N = mat("N")
    G = mm(N, tr(N))
    adj = tr([[T.sub(T.mul(N[(i + 1) % 3][(j + 1) % 3], N[(i + 2) % 3][(j + 2) % 3]), T.mul(N[(i + 1) % 3][(j + 2) % 3], N[(i + 2) % 3][(j + 1) % 3]))
               for j in range(3)] for i in range(3)])
    AN = mm(adj, N)
    d = det3(N)
    for i in range(3):
        for j in range(3):
            ctx.prove(S.value_eq(AN[i][j], d if i == j else 0), "lemma: adjugate")
    # adj = adj (N N') = det N' = N'
    L, R = mm(adj, G), mm(AN, tr(N))
    for i in range(3):
        for j in range(3):
            ctx.prove(S.value_eq(L[i][j], R[i][j]), "lemma: adjugate of a rotation is its transpose")
    t = T.add(T.add(N[0][0], N[1][1]), N[2][2])
    sq = T.add(T.add(G[0][0], G[1][1]), G[2][2])
    e2 = T.add(T.add(adj[0][0], adj[1][1]), adj[2][2])
    a2 = 0
    for i, j in ((2, 1), (0, 2), (1, 0)):
        x = T.sub(N[i][j], N[j][i])
        a2 = T.add(a2, T.mul(x, x))
    ctx.prove(S.value_eq(a2, T.sub(T.add(sq, T.mul(2, e2)), T.mul(t, t))), "lemma: axis length")
    tt, aa = z3.Reals("t aa")
    ctx.prove(tt >= -1, "lemma: trace of a rotation", extra=[tt <= 3, aa >= 0, aa == 3 + 2 * tt - tt * tt])


@contract("C17", FN)
def lemma_residual(ctx):
    """The sum of squared distances, for every rotation Q and translation t, over all correspondences."""
    n = fresh_int("n", 1)
    v1, v2 = real_array("v1", (n, 3)), real_array("v2", (n, 3))
    shape = (n, 3)
    Q = mat("Q")
    t = z3.Reals("t0 t1 t2")
    row = lambda v, i: v_at(v, i, 1)
    m1, m2 = means(v1, shape, 1), means(v2, shape, 1)
    mv = lambda A, v: [T.add(T.add(T.mul(A[i][0], v[0]), T.mul(A[i][1], v[1])), T.mul(A[i][2], v[2])) for i in range(3)]
    # pointwise: |b - Qa|^2 = |b|^2 + a'(Q'Q)a - 2 b.Qa
    a, b = z3.Reals("a0 a1 a2"), z3.Reals("b0 b1 b2")
    Qa = mv(Q, a)
    ctx.prove(S.value_eq(T.qnorm2(T.vsub(b, Qa)), T.sub(T.add(T.qnorm2(b), T.qnorm2(a)), T.mul(2, T.dot(b, Qa)))),
              "lemma: residual of a rotation", extra=orthogonal(Q))
    # sum over the correspondences of b.Qa is tr(QH)
    H = spec_H(v1, v2, shape, 1, False)
    lhs = sums(shape, 1, lambda i: T.dot(row(v2, i), mv(Q, row(v1, i))))
    rhs = 0
    for i in range(3):
        for j in range(3):
            rhs = T.add(rhs, T.mul(Q[i][j], H[j][i]))
    ctx.prove(S.value_eq(lhs, rhs), "lemma: correlation")
    # translation: the residual splits into the centered one and the distance of the centroids
    d = lambda i: T.vsub(T.vsub(row(v2, i), mv(Q, row(v1, i))), t)
    c = lambda i: T.vsub(T.vsub(row(v2, i), m2), mv(Q, T.vsub(row(v1, i), m1)))
    off = T.vsub(T.vsub(m2, mv(Q, m1)), t)
    for k in range(3):
        x = sums(shape, 1, lambda i: T.mul(d(i)[k], d(i)[k]))
        y = sums(shape, 1, lambda i: T.mul(c(i)[k], c(i)[k]))
        ctx.prove(S.value_eq(x, T.add(y, T.mul(T.zreal(S.dz(n)), T.mul(off[k], off[k])))), "lemma: residual of a translation",
                  extra=[T.zint(S.dz(n)) >= 1])


# ------------------------------------------------------------ obligations
def signs(M, U, Vt):
    """e with M = Vt' diag(e) U', if there is one."""
    for e in itertools.product((1, -1), repeat=3):
        good = True
        for i in range(3):
            for j in range(3):
                want = 0
                for k in range(3):
                    want = T.add(want, T.mul(e[k], T.mul(Vt[k][i], U[j][k])))
                g = S.value_eq(M[i][j], want)
                if g is True:
                    continue
                if g is False or not P.poly_equal(T.zreal(M[i][j]), T.zreal(want), [], dens=False, groebner=False):
                    good = False
                    break
            if not good:
                break
        if good:
            return e
    return None


def delta_facts(ctx, U, Vt):
    """delta = det(U) det(Vt), its square is one, and what the path knows about its sign."""
    d = z3.Real(ctx.fresh("delta"))
    poly = T.zreal(T.mul(det3(U), det3(Vt)))
    out = [d * d == 1]
    for h in ctx.pc:
        f = _abstract_sign(h, poly, d)
        if f is not None:
            out.append(f)
    return d, out


def _abstract_sign(h, poly, d):
    neg = False
    while z3.is_not(h):
        h, neg = h.arg(0), not neg
    if not (z3.is_app(h) and h.num_args() == 2 and h.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)):
        return None
    diff = T.zreal(h.arg(0)) - T.zreal(h.arg(1))
    for s in (1, -1):
        try:
            same = P.poly_equal(diff, s * poly, [], dens=False, groebner=False)
        except P.TooHard:
            same = False
        if same:
            r = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_GE: lambda x: x >= 0,
                 z3.Z3_OP_GT: lambda x: x > 0, z3.Z3_OP_EQ: lambda x: x == 0}[h.decl().kind()](s * d)
            return z3.Not(r) if neg else r
    return None


def install(ctx, v1, v2, shape, p, centered):
    """Requirement of from_rotation_matrix, established for the Kabsch matrix."""
    H0 = spec_H(v1, v2, shape, p, centered)
    n = [T.zint(count(shape, p)) >= 1]

    def hook(M):
        if not ctx.store.get("svd"):
            return False
        H, U, s, Vt = ctx.store["svd"][-1]
        flip = False
        if not _same(H, H0, n) and _same(H, tr(H0), n):
            flip = True
        for i in range(3):
            for j in range(3):
                ctx.prove(S.value_eq(H[i][j], H0[j][i] if flip else H0[i][j]),
                          "the matrix decomposed is the correlation of all corresponding %svectors" % ("centered " if centered else ""), extra=n)
        if flip:
            U, Vt = tr(Vt), tr(U)
        e = signs(M, U, Vt)
        if e is None:
            ctx.fail("the fitted matrix is a proper rotation that maximizes the correlation", "not of the form V diag(+-1) U'")
            return True
        d, fs = delta_facts(ctx, U, Vt)
        ctx.prove(e[0] * e[1] * e[2] * d == 1, "the fitted matrix is a proper rotation", only=fs)
        ctx.prove(z3.And(z3.BoolVal(e[0] == 1 and e[1] == 1), d == e[2]), "the fitted rotation maximizes the correlation", only=fs)
        return True

    ctx.store["rotation_hook"] = hook


def _same(H, K, n):
    from pyvc.engine import C
    return all(S.value_eq(H[i][j], K[i][j]) is True or C().holds(S.value_eq(H[i][j], K[i][j]), extra=n, ms=500)
               for i, j in ((0, 1), (1, 2), (2, 0)))


def check_rotation(ctx, r):
    """The result is the quaternion of the fitted matrix."""
    check_shape(r, (4,), "rotation")
    frm = ctx.store.get("frm")
    if not frm:
        ctx.fail("the result is the quaternion of the fitted matrix", "no matrix was converted")
        raise PathEnd()
    q = frm[-1][1].at(())
    for c in range(4):
        ctx.prove(S.value_eq(r.at((c,)), q[c]), "the result is the quaternion of the fitted matrix")
    rot = frm[-1][0]
    return [[rot.at((i, j)) for j in range(3)] for i in range(3)]


def check_translation(ctx, t, R, v1, v2, shape, p):
    check_shape(t, (3,), "translation")
    m1, m2 = means(v1, shape, p), means(v2, shape, p)
    for i in range(3):
        w = m2[i]
        for j in range(3):
            w = T.sub(w, T.mul(R[i][j], m1[j]))
        ctx.prove(S.value_eq(t.at((i,)), w), "the translation maps the rotated centroid onto the second centroid",
                  extra=[T.zint(count(shape, p)) >= 1])


@contract("C17", ["estimators.best_fit_rotation", "estimators._reshape_vectors", "core._maybe_unpack_dataarray"], layout=LAY)
def rotation(ctx, layout):
    rank, axis = layout
    v1, v2, shape, p = inputs(rank, axis)
    install(ctx, v1, v2, shape, p, False)
    r = mod("estimators").best_fit_rotation(v1, v2, axis=axis)
    check_rotation(ctx, r)


@contract("C17", ["estimators.best_fit_transform", "estimators._reshape_vectors", "core._maybe_unpack_dataarray"], layout=LAY)
def transform(ctx, layout):
    rank, axis = layout
    v1, v2, shape, p = inputs(rank, axis)
    install(ctx, v1, v2, shape, p, True)
    res = mod("estimators").best_fit_transform(v1, v2, axis=axis)
    ok(isinstance(res, tuple) and len(res) == 2, "translation and rotation are returned")
    R = check_rotation(ctx, res[1])
    check_translation(ctx, res[0], R, v1, v2, shape, p)


@contract("C17", ["estimators.best_fit_rotation", "estimators.best_fit_transform", "estimators._make_transform_dataarrays"],
          layout=[(2, 0), (2, 1), (3, 0), (3, 1), (3, 2)], what=["rotation", "transform"], how=["dim", "axis", "default"])
def dataarrays(ctx, layout, what, how):
    rank, p = layout
    if how == "default" and p != rank - 1:
        return ctx.prove(True, "the default is the last axis")
    v1, v2, shape, _ = inputs(rank, p)
    names = ["k%d" % i for i in range(rank)]
    names[p] = "cartesian_axis"
    co = {"cartesian_axis": ["x", "y", "z"]}
    da = data_array(v1, names, co)
    db = data_array(v2, names, co, name="v2")
    install(ctx, v1, v2, shape, p, what == "transform")
    kw = {"dim": {"dim": "cartesian_axis"}, "axis": {"axis": p}, "default": {}}[how]
    m = mod("estimators")
    if what == "rotation":
        r = m.best_fit_rotation(da, db, **kw)
    else:
        t, r = m.best_fit_transform(da, db, **kw)
    check_da(r, ("quaternion_axis",), "rotation", {}, "rotation")
    check_labels(r, "quaternion_axis", ("w", "x", "y", "z"), "rotation labels")
    R = check_rotation(ctx, r._data)
    if what == "transform":
        check_da(t, ("cartesian_axis",), "translation", {}, "translation")
        check_labels(t, "cartesian_axis", ("x", "y", "z"), "translation labels")
        check_translation(ctx, t._data, R, v1, v2, shape, p)


@contract("C17", ["estimators._reshape_vectors"], what=["rotation", "transform"])
def rejects(ctx, what):
    m = mod("estimators")
    f = m.best_fit_rotation if what == "rotation" else m.best_fit_transform
    n, k = fresh_int("n", 1), fresh_int("k", 1)
    ctx.assume(T.zint(S.dz(n)) != T.zint(S.dz(k)))
    must_raise(lambda: f(real_array("v1", (n, 3)), real_array("v2", (k, 3))), ValueError, "different numbers of vectors are rejected")
    must_raise(lambda: f(real_array("v1", (3,)), real_array("v2", (3,))), ValueError, "single vectors are rejected")
    j = fresh_int("j", 0)
    ctx.assume(T.zint(S.dz(j)) != 3)
    must_raise(lambda: f(real_array("v1", (n, j)), real_array("v2", (n, j))), ValueError, "vectors of another length are rejected")
    must_raise(lambda: f(real_array("v1", (n, 3)), real_array("v2", (n, 3)), axis=7), (ValueError, IndexError), "a missing axis is rejected")
