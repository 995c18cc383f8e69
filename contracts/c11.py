"""C11: quaternion product, inverse and vector rotation obey their algebra."""
from contracts.common import *

UTILS = "rigid_body_motion/utils.py"


def layouts(ranks):
    out = []
    for r in ranks:
        for ax in range(-r, r):
            out.append((r, ax))
    return out


@contract("C11", ["utils.qmul"], layout=layouts((1, 2, 3)), nargs=[2, 3])
def qmul_float(ctx, layout, nargs):
    rank, ax = layout
    shape = dims(rank, fixed={ax % rank: 4})
    a = [real_array("q%d" % i, shape) for i in range(nargs)]
    r = mod("utils").qmul(*a, qaxis=ax)
    p = ax % rank

    def spec(idx):
        rest = idx[:p] + idx[p + 1:]
        q = q_at(a[0], rest, p)
        for b in a[1:]:
            q = T.qmul(q, q_at(b, rest, p))
        return q[idx[p]]

    check_array(r, shape, spec, "qmul is the Hamilton product in the given order")


@contract("C11", ["utils.qmul"], rank=[0, 1, 2], nargs=[2, 3])
def qmul_quaternion(ctx, rank, nargs):
    shape = dims(rank)
    a = [quat_array("q%d" % i, shape) for i in range(nargs)]
    r = mod("utils").qmul(*a)

    def spec(idx):
        q = a[0].at(idx)
        for b in a[1:]:
            q = T.qmul(q, b.at(idx))
        return q

    check_array(r, shape, spec, "qmul is the Hamilton product in the given order", kind="q")


@contract("C11", ["utils.qmul"])
def qmul_broadcast(ctx):
    shape = dims(1) + (4,)
    a, b = real_array("a", shape), real_array("b", (4,))
    f = mod("utils").qmul
    check_array(f(a, b), shape, lambda i: T.qmul(q_at(a, i[:1], -1), q_at(b, (), -1))[i[1]], "qmul with a single quaternion")
    check_array(f(b, a), shape, lambda i: T.qmul(q_at(b, (), -1), q_at(a, i[:1], -1))[i[1]], "qmul with a single quaternion")


@contract("C11", ["utils.qmul"])
def qmul_invalid(ctx):
    f = mod("utils").qmul
    n = fresh_int("n", 1)
    a, q = real_array("a", (n, 4)), quat_array("q", (n,))
    must_raise(lambda: f(a), ValueError, "qmul needs two quaternions")
    must_raise(lambda: f(a, q), ValueError, "qmul rejects mixed dtypes")
    must_raise(lambda: f(q, a), ValueError, "qmul rejects mixed dtypes")


@contract("C11", ["utils.qinv"], layout=layouts((1, 2, 3)))
def qinv_float(ctx, layout):
    rank, ax = layout
    shape = dims(rank, fixed={ax % rank: 4})
    q = real_array("q", shape)
    r = mod("utils").qinv(q, qaxis=ax)
    p = ax % rank
    at = lambda a, idx: q_at(a, idx[:p] + idx[p + 1:], p)
    check_shape(r, shape, "qinv")
    one = (1, 0, 0, 0)
    for idx, cs in S.all_indices(shape[:p] + shape[p + 1:]):
        i = idx[:p] + (0,) + idx[p:]
        nz = cs + [T.qnorm2(at(q, i)) != 0]
        ctx.prove(S.value_eq(T.qmul(at(q, i), at(r, i)), one), "q * qinv(q) is one", extra=nz)
        ctx.prove(S.value_eq(T.qmul(at(r, i), at(q, i)), one), "qinv(q) * q is one", extra=nz)


@contract("C11", ["utils.qinv"], rank=[0, 1, 2])
def qinv_quaternion(ctx, rank):
    shape = dims(rank)
    q = quat_array("q", shape)
    r = mod("utils").qinv(q)
    check_array(r, shape, lambda i: T.qinv(q.at(i)), "qinv is the inverse", kind="q", pre=lambda i: T.qnorm2(q.at(i)) != 0)


def _bshapes(rank):
    """Broadcast patterns between the quaternions and the vectors' leading shape."""
    out = ["same"]
    for i in range(rank):
        out += ["q1@%d" % i, "v1@%d" % i]
    return out


RV = [(r, ax, b) for r in (1, 2, 3, 4) for ax in range(-r, r) for b in _bshapes(r - 1)
      if r < 4 or b == "same"]


@contract("C11", ["utils.rotate_vectors"], layout=RV, qkind=["quaternion", "float"])
def rotate_one_to_one(ctx, layout, qkind):
    rank, ax, b = layout
    p = ax % rank
    lead = list(dims(rank - 1))
    vs, qs = list(lead), list(lead)
    if b != "same":
        (qs if b[0] == "q" else vs)[int(b[3:])] = 1
    vs.insert(p, 3)
    v = real_array("v", tuple(vs))
    if qkind == "quaternion":
        q = quat_array("q", tuple(qs))
        qat = q.at
    else:
        q = real_array("q", tuple(qs) + (4,))
        qat = lambda i: q_at(q, i, -1)
    r = mod("utils").rotate_vectors(q, v, axis=ax)
    shape = list(lead)
    shape.insert(p, 3)

    def parts(idx):
        i = idx[:p] + idx[p + 1:]
        iq = tuple(0 if d is 1 or (isinstance(d, int) and d == 1) else x for d, x in zip(qs, i))
        iv = tuple(0 if (isinstance(d, int) and d == 1) else x for d, x in zip(vs[:p] + vs[p + 1:], i))
        return qat(iq), v_at(v, iv, p)

    def spec(idx):
        a, w = parts(idx)
        return T.rot(a, w)[idx[p]]

    check_array(r, tuple(shape), spec, "rotate_vectors is q v q^-1", pre=lambda i: T.qnorm2(parts(i)[0]) != 0)


@contract("C11", ["utils.rotate_vectors"], qaxis=[0, 1, -1, -2, -3])
def rotate_qaxis(ctx, qaxis):
    n, m = fresh_int("n"), fresh_int("m")
    p = qaxis % 3
    qs = [n, m]
    qs.insert(p, 4)
    q, v = real_array("q", tuple(qs)), real_array("v", (n, m, 3))
    r = mod("utils").rotate_vectors(q, v, qaxis=qaxis)
    check_array(r, (n, m, 3), lambda i: T.rot(q_at(q, i[:2], p), v_at(v, i[:2], -1))[i[2]],
                "rotate_vectors with the quaternion components on any axis", pre=lambda i: T.qnorm2(q_at(q, i[:2], p)) != 0)


@contract("C11", ["utils.rotate_vectors"], qrank=[0, 1, 2], vrank=[1, 2, 3], axis=[-1, 0])
def rotate_all_combinations(ctx, qrank, vrank, axis):
    qs = dims(qrank, "a")
    p = axis % vrank
    vs = dims(vrank, "b", fixed={p: 3})
    q, v = quat_array("q", qs), real_array("v", vs)
    r = mod("utils").rotate_vectors(q, v, axis=axis, one_to_one=False)

    def spec(idx):
        i, j = idx[:qrank], idx[qrank:]
        return T.rot(q.at(i), v_at(v, j[:p] + j[p + 1:], p))[j[p]]

    check_array(r, qs + vs, spec, "rotate_vectors one_to_one=False computes all combinations",
                pre=lambda i: T.qnorm2(q.at(i[:qrank])) != 0)
    if qrank == 0:
        check_array(mod("utils").rotate_vectors(q, v, axis=axis), vs, spec, "a single quaternion rotates all vectors",
                    pre=lambda i: T.qnorm2(q.at(())) != 0)


@contract("C11", ["utils.rotate_vectors"])
def rotate_mismatch(ctx):
    f = mod("utils").rotate_vectors
    n, m = fresh_int("n", 2), fresh_int("m", 2)
    ctx.assume(n.e != m.e)
    must_raise(lambda: f(quat_array("q", (n,)), real_array("v", (m, 3))), ValueError, "mismatched lengths are rejected")
    must_raise(lambda: f(quat_array("q", (n,)), real_array("v", (n, m, 3))), ValueError, "mismatched ranks are rejected")
    k = fresh_int("k", 0)
    ctx.assume(k.e != 3)
    must_raise(lambda: f(quat_array("q", (n,)), real_array("v", (n, k))), ValueError, "vectors must have length 3")


# ------------------------------------------------------------- lemmas
def _sym(n, name):
    return tuple(z3.Real("%s%d" % (name, i)) for i in range(n))


@contract("C11", ["spec"])
def lemmas(ctx):
    """Consequences of the contracts above: algebra of q v q^-1."""
    p, q, v, w = _sym(4, "p"), _sym(4, "q"), _sym(3, "v"), _sym(3, "w")
    s = z3.Real("s")
    nz = [T.qnorm2(p) != 0, T.qnorm2(q) != 0, s != 0]
    for h in nz:
        ctx.assume(h)
    rv, rw = T.rot(q, v), T.rot(q, w)
    ctx.prove(T.dot(rv, rw) == T.dot(v, w), "lemma: scalar products (lengths and angles) are preserved")
    ctx.prove(S.value_eq_vec(rv, T.rot(T.qscale(q, s), v)), "lemma: scaling the quaternion changes nothing")
    ctx.prove(S.value_eq_vec(T.rot(T.qmul(p, q), v), T.rot(p, T.rot(q, v))), "lemma: rotating by a product is rotating successively")
    ctx.prove(S.value_eq_vec(T.rot(T.qinv(q), T.rot(q, v)), v), "lemma: the inverse undoes the rotation")
