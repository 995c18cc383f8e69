"""C12: qmean is the dominant eigenvector of the mean outer product."""
from contracts.common import *

ASSUMES = [
]

# (rank without component axis, averaged axes argument, axes that remain)
CASES = [(1, None, ()), (1, 0, ()), (1, -1, ()), (2, None, ()), (2, 0, (1,)), (2, 1, (0,)), (2, -1, (0,)), (2, -2, (1,)), (2, (0, 1), ()),
         (2, (0,), (1,)), (3, 0, (1, 2)), (3, 1, (0, 2)), (3, 2, (0, 1)), (3, -1, (0, 1)), (3, (0, 2), (1,)), (3, (1, -1), (0,)),
         (3, (-3, -2), (2,)), (3, None, ())]


def mean_outer(at, shape, keep, lead, i, j):
    """Mean over the averaged axes of q_i q_j (spec)."""
    avg = [a for a in range(len(shape)) if a not in keep]
    n = 1
    for a in avg:
        n = T.mul(n, S.dz(shape[a]))

    def rec(k, fixed):
        if k == len(avg):
            idx = tuple(fixed[a] for a in range(len(shape)))
            q = at(idx)
            return T.mul(q[i], q[j])
        return S.sum_over(lambda m: rec(k + 1, {**fixed, avg[k]: m}), shape[avg[k]])

    return T.div(rec(0, dict(zip(keep, lead))), n)


def check_mean(ctx, res, at, shape, keep, qaxis_out, order=None):
    """res[lead] is a unit quaternion maximizing x^T A x over unit x; order: the kept axes in the order of the result."""
    out = tuple(shape[a] for a in keep)
    isq = res.dtype.kind == "q"
    order = order or range(len(keep))
    place = lambda t: tuple(t[k] for k in order)
    full = out if isq else place(out)[:qaxis_out] + (4,) + place(out)[qaxis_out:]
    check_shape(res, full, "qmean keeps the axes that are not averaged")
    dec = ctx.store.get("eigh", [])
    for lead, cs in S.all_indices(out):
        for c in cs:
            ctx.assume(c)
        m = res.at(lead) if isq else tuple(res.at(place(lead)[:qaxis_out] + (c,) + place(lead)[qaxis_out:]) for c in range(4))
        A = [[None] * 4 for _ in range(4)]
        for i in range(4):
            for j in range(4):
                A[i][j] = mean_outer(at, shape, keep, lead, min(i, j), max(i, j))
        ctx.prove(T.cmp("==", T.qnorm2(m), 1), "qmean returns a unit quaternion")
        if len(dec) != 1:
            raise Unsupported("qmean without a single eigendecomposition")
        a, V, W, tag = dec[0]
        B = a.reader()
        z = [T.zint(i) for i in lead]
        for i in range(4):
            for j in range(4):
                ctx.prove(S.value_eq(B(lead + (i, j)), A[i][j]), "decomposed matrix is the mean outer product")
        v = [V(*z, i, 3) for i in range(4)]
        for i in range(4):
            for j in range(i + 1):
                ctx.prove(S.value_eq(T.mul(m[i], m[j]), v[i] * v[j]),
                          "qmean returns the eigenvector (up to sign) of the largest eigenvalue, which maximizes by lemma_rayleigh")


@contract("C12", ["spec"])
def lemma_rayleigh(ctx):
    """A v_j = w_j v_j, orthonormal v_j, w ascending: x^T A x <= w_3 |x|^2."""
    R = range(4)
    M = [[z3.Real("A%d%d" % (min(i, j), max(i, j))) for j in R] for i in R]
    v = [[z3.Real("v%d%d" % (i, j)) for j in R] for i in R]
    w = [z3.Real("w%d" % j) for j in R]
    x = [z3.Real("x%d" % i) for i in R]
    y = [z3.Real("y%d" % i) for i in R]
    S_ = T._sum
    # y = V^T x; x = V y because V V^T = 1
    rows = [S_([v[i][k] * v[j][k] for k in R]) == (1 if i == j else 0) for i in R for j in R]
    eig = [S_([M[i][k] * v[k][j] for k in R]) == w[j] * v[i][j] for i in R for j in R]
    ydef = [S_([v[k][j] * x[k] for k in R]) for j in R]
    vy = [S_([v[i][j] * ydef[j] for j in R]) for i in R]
    # identities as explicit combinations of the hypotheses
    for i in R:
        combo = S_([x[k] * (S_([v[i][j] * v[k][j] for j in R]) - (1 if i == k else 0)) for k in R])
        ctx.prove(vy[i] - x[i] == combo, "lemma: V V^T x - x is a combination of the orthonormality equations")
    quad = S_([x[i] * M[i][j] * x[j] for i in R for j in R])
    step = S_([x[i] * M[i][j] * vy[j] for i in R for j in R])
    diff = S_([x[i] * M[i][j] * (x[j] - vy[j]) for i in R for j in R])
    ctx.prove(quad - step == diff, "lemma: substitute x = V y")
    combo = S_([x[i] * ydef[j] * (S_([M[i][k] * v[k][j] for k in R]) - w[j] * v[i][j]) for i in R for j in R])
    diag = S_([w[j] * ydef[j] * ydef[j] for j in R])
    ctx.prove(step - diag == combo, "lemma: x^T A V y is the sum of w_j y_j^2 by the eigenvalue equations")
    norm = S_([ydef[j] * ydef[j] for j in R])
    combo = S_([x[i] * x[k] * (S_([v[i][j] * v[k][j] for j in R]) - (1 if i == k else 0)) for i in R for k in R])
    ctx.prove(norm - T.qnorm2(x) == combo, "lemma: |y| = |x| by the orthonormality equations")
    # the eigenvector itself attains the bound
    vq = [v[i][3] for i in R]
    combo = S_([vq[i] * (S_([M[i][k] * v[k][3] for k in R]) - w[3] * v[i][3]) for i in R]) + w[3] * (S_([c * c for c in vq]) - 1)
    ctx.prove(S_([vq[i] * M[i][j] * vq[j] for i in R for j in R]) - w[3] == combo, "lemma: the eigenvector of w_3 attains w_3")
    asc = [w[j] <= w[j + 1] for j in range(3)]
    for j in R:
        ctx.prove(w[j] * (y[j] * y[j]) <= w[3] * (y[j] * y[j]), "lemma: w_j y_j^2 <= w_3 y_j^2", extra=asc)


@contract("C12", ["spec"])
def lemma_identical(ctx):
    """A maximizer for copies of a unit quaternion is that quaternion up to sign."""
    m = [z3.Real("m%d" % i) for i in range(4)]
    q = [z3.Real("q%d" % i) for i in range(4)]
    d = z3.Real("d")
    h = [d * d >= 1]
    u = [T.qnorm2(m) == 1, T.qnorm2(q) == 1]
    for s in (1, -1):
        e = [m[i] - s * q[i] for i in range(4)]
        ctx.prove(T.qnorm2(e) == T.qnorm2(m) + T.qnorm2(q) - 2 * s * T.dot(m, q), "lemma: |m -+ q|^2 expands")
    # with n+ = 2 - 2d >= 0 and n- = 2 + 2d >= 0, d^2 >= 1 gives n+ = 0 or n- = 0
    ctx.prove(z3.Or(2 - 2 * d == 0, 2 + 2 * d == 0), "lemma: one of the differences vanishes", extra=h + [2 - 2 * d >= 0, 2 + 2 * d >= 0])
    e = [z3.Real("e%d" % i) for i in range(4)]
    for i in range(4):
        ctx.prove(e[i] == 0, "lemma: a zero norm means equality", extra=[T.qnorm2(e) == 0])


@contract("C12", ["spec"])
def lemma_signs(ctx):
    """The outer product does not depend on the sign of the quaternion."""
    a, b = z3.Real("a"), z3.Real("b")
    ctx.prove((-a) * (-b) == a * b, "lemma: outer products are unchanged by the sign")


@contract("C12", ["utils.qmean", "core._resolve_axis"], case=CASES, kind=["quaternion", "float"])
def qmean_maximizes(ctx, case, kind):
    rank, axis, keep = case
    shape = dims(rank, lo=1)
    if kind == "quaternion":
        q = quat_array("q", shape)
        at = q.at
    else:
        q = real_array("q", shape + (4,))
        at = lambda i: q_at(q, i, -1)
    r = mod("utils").qmean(q, axis=axis)
    check_dtype(r, "q" if kind == "quaternion" else "f", "qmean")
    check_mean(ctx, r, at, shape, keep, len(keep))


@contract("C12", ["utils.qmean", "core._resolve_axis"], case=CASES, qaxis=range(-4, 4))
def qmean_qaxis(ctx, case, qaxis):
    """The quaternion axis anywhere: the means are numbered as if it were swapped with the last axis, the layout is kept."""
    rank, axis, keep = case
    if not -rank - 1 <= qaxis <= rank:
        return ctx.prove(True, "no such axis")
    shape = dims(rank, lo=1)
    pos = qaxis % (rank + 1)
    # input axis of every mean axis
    at = lambda a: rank if a == pos else a
    full = [4 if i == pos else None for i in range(rank + 1)]
    for a in range(rank):
        full[at(a)] = shape[a]
    q = real_array("q", tuple(full))

    def elem(i):
        j = [None] * (rank + 1)
        for a in range(rank):
            j[at(a)] = i[a]
        return tuple(q.at(tuple(c if k == pos else x for k, x in enumerate(j))) for c in range(4))

    r = mod("utils").qmean(q, axis=axis, qaxis=qaxis)
    order = sorted(keep, key=at)
    check_mean(ctx, r, lambda i: elem(i), shape, keep, len([a for a in keep if at(a) < pos]), [keep.index(a) for a in order])


@contract("C12", ["utils.qmean", "core._resolve_axis"], axis=[2, -3, (0, 2), (-3,)])
def qmean_rejects(ctx, axis):
    q = quat_array("q", dims(2, lo=1))
    must_raise(lambda: mod("utils").qmean(q, axis=axis), IndexError, "axes out of range are rejected")
