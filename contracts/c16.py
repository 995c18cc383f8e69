"""C16: shortest-arc rotation between directions."""
from contracts.common import *

LAY = [(r, a) for r in (1, 2, 3) for a in range(-r, r)]


def inputs(rank, axis):
    p = axis % rank
    shape = dims(rank, fixed={p: 3})
    return real_array("v1", shape), real_array("v2", shape), shape, p


def result_quat(r, i, p):
    return tuple(r.at(i[:p] + (c,) + i[p:]) for c in range(4))


def obligations(ctx, r, v1, v2, shape, p, what=""):
    out = shape[:p] + (4,) + shape[p + 1:]
    check_shape(r, out, what + "layout")
    for i, cs in S.all_indices(shape[:p] + shape[p + 1:]):
        a, b = v_at(v1, i, p), v_at(v2, i, p)
        q = result_quat(r, i, p)
        s1, s2, d = T.qnorm2(a), T.qnorm2(b), T.dot(a, b)
        n = T.sqrt(T.mul(s1, s2))
        pre = cs + [T.zreal(s1) > 0, T.zreal(s2) > 0]
        # the vectors are not opposite (up to the documented tolerance): the sum of the unit vectors is not tiny
        c = T.cross(a, b)
        raw = [T.add(n, d)] + list(c)
        m = T.sqrt(T.qnorm2(raw))
        regular = T.cmp(">", m, T.mul(T.num(1e-12), n))
        reg, opp = pre + [T.zbool(regular)], pre + [T.zbool(T.lnot(regular))]
        nd = cauchy(a, b, n)
        # q = raw / |raw|; the lemma below turns this into the rotation property
        for k in range(4):
            ctx.prove(S.value_eq(q[k], T.div(raw[k], m)), what + "rotates the first direction onto the second about the common perpendicular", extra=reg)
        ctx.prove(T.cmp(">", m, 0), what + "rotates the first direction onto the second about the common perpendicular", extra=reg)
        # opposite vectors: a half turn about an axis perpendicular to both
        ctx.prove(S.value_eq(q[0], 0), what + "opposite vectors: half turn", extra=opp)
        ctx.prove(S.value_eq(T.dot(q[1:], a), 0), what + "opposite vectors: axis perpendicular to the vectors", extra=opp)
        ctx.prove(S.value_eq(T.qnorm2(q), 1), what + "opposite vectors: unit quaternion", extra=opp)


@contract("C16", ["estimators.shortest_arc_rotation"])
def lemma_shortest_arc(ctx):
    """q = (n + d, a x b) / |(n + d, a x b)| with n = |a||b| > 0, d = a.b is the shortest-arc rotation."""
    a, b = z3.Reals("a1 a2 a3"), z3.Reals("b1 b2 b3")
    n, m = z3.Reals("n m")
    s1, s2, d, c = T.qnorm2(a), T.qnorm2(b), T.dot(a, b), T.cross(a, b)
    raw = [n + d] + list(c)
    hyp = [s1 > 0, s2 > 0, n > 0, n * n == s1 * s2, m > 0, m * m == T.qnorm2(raw)]
    q = [x / m for x in raw]
    ctx.prove(T.cmp("==", T.qnorm2(raw), 2 * n * (n + d)), "lemma: norm", extra=hyp)
    hyp += [n + d != 0]
    ctx.prove(T.cmp("==", T.qnorm2(q), 1), "lemma: unit quaternion", extra=[m > 0, m * m == T.qnorm2(raw)])
    N, D, L = z3.Reals("N D L")
    ctx.prove(N + D >= 0, "lemma: Cauchy-Schwarz", extra=[N >= 0, N * N - D * D == L, L >= 0])
    ctx.prove(S.value_eq(T.sub(T.mul(s1, s2), T.mul(d, d)), T.qnorm2(c)), "lemma: Lagrange identity")
    W = z3.Real("W")
    ctx.prove(W / m >= 0, "lemma: non-negative scalar part", extra=[m > 0, W >= 0])
    ctx.prove(T.cmp("==", T.dot(c, a), 0), "lemma: axis perpendicular to the first vector")
    ctx.prove(T.cmp("==", T.dot(c, b), 0), "lemma: axis perpendicular to the second vector")
    # rotation by raw (scale invariance is the next lemma); |raw|^2 = 2 n (n + d)
    w = T.qmul(T.qmul(raw, (0,) + tuple(a)), T.qconj(raw))
    for k in range(3):
        ctx.prove(w[k + 1] * s2 == n * b[k] * (2 * n * (n + d)), "lemma: raw rotation of the first vector", extra=[n * n == s1 * s2])
    p = z3.Reals("p0 p1 p2 p3")
    lam = z3.Real("lam")
    x, y = T.rot(p, a), T.rot([lam * t for t in p], a)
    for k in range(3):
        ctx.prove(x[k] == y[k], "lemma: scaling a quaternion does not change its rotation", extra=[lam != 0, T.qnorm2(p) > 0, T.qnorm2([lam * t for t in p]) > 0])


@contract("C16", ["estimators.shortest_arc_rotation"])
def lemma_half_turn(ctx):
    """A pure unit quaternion perpendicular to a turns a into -a."""
    a, u = z3.Reals("a1 a2 a3"), z3.Reals("u1 u2 u3")
    w = T.rot((0,) + tuple(u), a)
    for k in range(3):
        ctx.prove(w[k] == -a[k], "lemma: half turn", extra=[T.dot(u, a) == 0, T.qnorm2(u) == 1])


def cauchy(a, b, n):
    """Cauchy-Schwarz: n^2 - d^2 = |a x b|^2 >= 0 and n >= 0, so n + d >= 0 (lemma below)."""
    d = T.dot(a, b)
    c = T.cross(a, b)
    ctx = C()
    lag = S.value_eq(T.sub(T.mul(T.qnorm2(a), T.qnorm2(b)), T.mul(d, d)), T.qnorm2(c))
    ctx.prove(lag, "lemma: Lagrange identity")
    N, D, Cc = z3.Reals("N! D! C!")
    if not ctx.store.get("cs lemma"):
        ctx.store["cs lemma"] = True
        ctx.prove(z3.And(N + D >= 0, N - D >= 0), "lemma: Cauchy-Schwarz", extra=[N >= 0, N * N - D * D == Cc, Cc >= 0])
    return [T.zreal(T.add(n, d)) >= 0]


@contract("C16", ["estimators.shortest_arc_rotation"], layout=LAY)
def shortest_arc(ctx, layout):
    rank, axis = layout
    v1, v2, shape, p = inputs(rank, axis)
    r = mod("estimators").shortest_arc_rotation(v1, v2, axis=axis)
    obligations(ctx, r, v1, v2, shape, p)


@contract("C16", ["estimators.shortest_arc_rotation", "core._replace_dim", "core._make_dataarray", "core._maybe_unpack_dataarray"],
          layout=[(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)], how=["dim", "axis", "default"], second=["array", "dataarray"])
def dataarrays(ctx, layout, how, second):
    rank, p = layout
    if how == "default" and p != rank - 1:
        return ctx.prove(True, "the default is the last axis")
    v1, v2, shape, _ = inputs(rank, p)
    names = ["k%d" % i for i in range(rank)]
    names[p] = "cartesian_axis"
    co = {"cartesian_axis": ["x", "y", "z"]}
    for i in range(rank):
        if i != p:
            co["k%d" % i] = real_array("k%d" % i, (shape[i],))
            co["lab%d" % i] = ("k%d" % i, label_array("lab%d" % i, shape[i]))
    da = data_array(v1, names, co, attrs={"units": "m"})
    other = v2 if second == "array" else data_array(v2, names, co, name="v2")
    m = mod("estimators")
    r = m.shortest_arc_rotation(da, other, **{"dim": {"dim": "cartesian_axis"}, "axis": {"axis": p}, "default": {}}[how])
    want = m.shortest_arc_rotation(v1, v2, axis=p)
    check_da(r, ["quaternion_axis" if d == "cartesian_axis" else d for d in names], "nm", {"units": "m"}, "DataArrays")
    check_array(r.data, shape[:p] + (4,) + shape[p + 1:], lambda i: want.at(i), "DataArrays: same numbers as for arrays")
    check_labels(r, "quaternion_axis", ["w", "x", "y", "z"], "DataArrays: quaternion labels")
    for i in range(rank):
        if i != p:
            check_coord(r, "k%d" % i, ("k%d" % i,), (shape[i],), lambda j, i=i: da._coords["k%d" % i][1].at(j), "DataArrays: other coordinates are kept")
            check_coord(r, "lab%d" % i, ("k%d" % i,), (shape[i],), lambda j, i=i: da._coords["lab%d" % i][1].at(j), "DataArrays: other coordinates are kept")
    ok(set(r.coords) == set(da.coords) - {"cartesian_axis"} | {"quaternion_axis"}, "DataArrays: no other coordinates", str(list(r.coords)))
