"""C19: linear and angular velocity estimation."""
from contracts.common import *

UNITS = ["ns", "us", "ms", "s"]
LIN = [(1, 0, 0)] + [(r, t, a) for r in (2, 3) for t in range(r) for a in range(r) if t != a]
ANG = [(r, t, a) for r in (2, 3) for t in range(r) for a in range(r) if t != a]


def stamps(kind, n):
    """Strictly increasing timestamps and their value in seconds (or plain units)."""
    if kind == "f":
        ts = timestamps("ts", n, strict=True)
        return ts, lambda k: ts.at((k,))
    if kind == "i":
        ts = timestamps("ts", n, kind="i", strict=True)
        return ts, lambda k: T.zreal(ts.at((k,)))
    ts = timestamps("ts", n, kind="M", unit=kind, strict=True)
    f = S.unit_ns(kind)
    return ts, lambda k: T.div(T.mul(T.zreal(ts.at((k,))), f), 10 ** 9)


def order_facts(tv, n, i):
    """The stamps around sample i are different (ground instances of strict monotonicity)."""
    n = S.dz(n)
    out = []
    for a, b, c in ((T.sub(i, 1), i, T.cmp(">", i, 0)), (i, T.add(i, 1), T.cmp("<", i, T.sub(n, 1))),
                    (0, 1, True), (T.sub(n, 2), T.sub(n, 1), True)):
        a, b = S.izs(a), S.izs(b)
        out.append(z3.Implies(T.zbool(c), T.zreal(tv(a)) < T.zreal(tv(b))))
    return out


def difference(F, tv, n, i):
    """Second-order difference quotient inside, one-sided at the ends."""
    n = S.dz(n)
    nx, pv = S.izs(T.add(i, 1)), S.izs(T.sub(i, 1))
    last, l2 = S.izs(T.sub(n, 1)), S.izs(T.sub(n, 2))
    fwd = lambda a, b: T.div(T.sub(F(b), F(a)), T.sub(tv(b), tv(a)))
    h, k = T.sub(tv(i), tv(pv)), T.sub(tv(nx), tv(i))
    mid = T.div(T.add(T.mul(k, fwd(pv, i)), T.mul(h, fwd(i, nx))), T.add(h, k))
    return [(T.cmp("==", i, 0), fwd(0, 1)), (T.cmp("==", i, last), fwd(l2, last)),
            (T.land(T.cmp(">", i, 0), T.cmp("<", i, last)), mid)]


def check_linear(ctx, r, v, shape, t, tv, what=""):
    check_shape(r, shape, what + "linear velocity: layout")
    n = shape[t]
    for idx, cs in S.all_indices(shape):
        i = idx[t]
        F = lambda k: v.at(idx[:t] + (k,) + idx[t + 1:])
        facts = order_facts(tv, n, i)
        for c, w in difference(F, tv, n, i):
            ctx.prove(S.value_eq(r.at(idx), w), what + "difference quotient per unit of time", extra=list(cs) + facts + [T.zbool(c)])


@contract("C19", ["core._estimate_linear_velocity", "estimators.estimate_linear_velocity", "core._timestamps_to_float"],
          layout=LIN, ts=["f", "i"] + UNITS, sign=["positive", "negative"])
def linear(ctx, layout, ts, sign):
    rank, t, a = layout
    if sign == "negative" and ts != "f":
        return ctx.prove(True, "covered by the positive axis")
    shape = dims(rank, fixed={a: 3} if rank > 1 else {})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 2))
    v = real_array("v", shape)
    tt, tv = stamps(ts, n)
    kw = {"axis": a, "time_axis": t} if sign == "positive" else {"axis": a - rank, "time_axis": t - rank}
    if rank == 1:
        # single coordinate: there is no spatial axis, the private function is under contract
        r = mod("core")._estimate_linear_velocity(v, tt)
    else:
        r = mod("estimators").estimate_linear_velocity(v, timestamps=tt, **kw)
    check_linear(ctx, r, v, shape, t, tv)


@contract("C19", ["core._estimate_linear_velocity", "estimators.estimate_linear_velocity"], ts=["f", "ns", "s"], layout=[(2, 0, 1), (2, 1, 0), (3, 1, 2)])
def uniform_motion(ctx, ts, layout):
    """x0 + v t gives v at every sample, whatever x0 and the sampling are."""
    rank, t, a = layout
    shape = dims(rank, fixed={a: 3})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 2))
    x0, v = real_array("x0", shape[:t] + shape[t + 1:]), real_array("vel", shape[:t] + shape[t + 1:])
    tt, tv = stamps(ts, n)
    drop = lambda idx: idx[:t] + idx[t + 1:]
    pos = S.SymArray(shape, "f", lambda idx: T.add(x0.at(drop(idx)), T.mul(v.at(drop(idx)), tv(idx[t]))), owner="argument arr")
    r = mod("estimators").estimate_linear_velocity(pos, timestamps=tt, axis=a, time_axis=t)
    check_shape(r, shape, "layout")
    for idx, cs in S.all_indices(shape):
        i = idx[t]
        last = S.izs(T.sub(S.dz(n), 1))
        for c in (T.cmp("==", i, 0), T.cmp("==", i, last), T.land(T.cmp(">", i, 0), T.cmp("<", i, last))):
            ctx.prove(S.value_eq(r.at(idx), v.at(drop(idx))), "exact for uniform motion at every sample", extra=list(cs) + order_facts(tv, n, i) + [T.zbool(c)])


def retained(shape, t, norm, n, thresh):
    """Samples whose second-order differences are below the threshold (as a mask over time)."""
    last = T.sub(S.dz(n), 2)

    def at(idx):
        k = T.zint(idx[0])
        a = T.ite(T.cmp("<", k, last), norm(k), T.zreal(0))
        b = T.ite(T.land(T.cmp(">=", k, 1), T.cmp("<=", k, last)), norm(S.izs(T.sub(k, 1))), T.zreal(0))
        return T.cmp("<=", T.add(a, b), T.num(thresh))

    return S.SymArray((n,), "b", at)


def suppressed(F, tv, value):
    """The retained values, linearly interpolated over time; NaN outside of their range."""
    xs = lambda k: T.zreal(tv(F.phi(k)))
    lo, hi = xs(T.zint(0)), xs(S.izs(T.sub(S.dz(F.m), 1)))
    return lambda i: T.ite(T.land(T.cmp("<=", lo, tv(i)), T.cmp("<=", tv(i), hi)), Q.spec_lerp(xs, lambda k: value(F.phi(k)), F.m, tv(i)), S.NAN)


def quotient(F, tv, n, i):
    w = difference(F, tv, n, i)
    return T.ite(w[0][0], w[0][1], T.ite(w[1][0], w[1][1], w[2][1]))


OPTIONS = [(0.5, None), (None, 0.25), (0.5, 0.25)]


@contract("C19", ["core._estimate_linear_velocity", "estimators.estimate_linear_velocity"], layout=[(2, 0, 1), (2, 1, 0)], option=OPTIONS, ts=["f", "ms"], sign=[0, 1])
def linear_options(ctx, layout, option, ts, sign):
    """Outliers are replaced by interpolated values and velocities are low-pass filtered along the time axis, in every layout."""
    rank, t, a = layout
    thresh, cutoff = option
    if sign and ts != "f":
        return ctx.prove(True, "covered by other cases")
    shape = dims(rank, fixed={a: 3})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 25))
    v = real_array("v", shape)
    tt, tv = stamps(ts, n)
    at = lambda k, c: v.at((k, c) if t == 0 else (c, k))
    value = lambda c: lambda i: quotient(lambda k: at(k, c), tv, n, i)
    if thresh is not None:
        d2 = lambda j, c: T.sub(T.sub(at(S.izs(T.add(j, 2)), c), at(S.izs(T.add(j, 1)), c)), T.sub(at(S.izs(T.add(j, 1)), c), at(j, c)))
        F = S.filter_of(retained(shape, t, lambda j: T.sqrt(T._sum([T.mul(d2(j, c), d2(j, c)) for c in range(3)])), n, thresh))
        ctx.assume(T.cmp(">=", S.dz(F.m), 1))
        first = value
        value = lambda c: suppressed(F, tv, first(c))
    if cutoff is not None:
        raw = value
        value = lambda c: lambda i: Q.spec_lowpass(7, cutoff, raw(c), n, i)
    r = mod("estimators").estimate_linear_velocity(v, timestamps=tt, axis=a - rank * sign, time_axis=t - rank * sign, outlier_thresh=thresh, cutoff=cutoff)
    check_shape(r, shape, "layout")
    for idx, cs in S.all_indices((n,)):
        for c in range(3):
            got = r.at((idx[0], c) if t == 0 else (c, idx[0]))
            ctx.prove(S.value_eq(got, value(c)(idx[0])), "outliers and filtering along the time axis", extra=list(cs) + order_facts(tv, n, idx[0]))


# --------------------------------------------------------------- angular
def nan(x):
    from pyvc.npmod import _isnan
    return _isnan(x)


def valid(q, shape, t, a):
    """Sample k along time has no NaN."""
    others = [i for i in range(len(shape)) if i not in (t, a)]

    def any_nan(k):
        def rec(rem, idx):
            if not rem:
                return T.lor(*[nan(q.at(tuple(idx[:a]) + (c,) + tuple(idx[a + 1:]))) for c in range(4)])
            ax = rem[0]
            return S.exists_over(lambda j: rec(rem[1:], idx[:ax] + [j] + idx[ax + 1:]), shape[ax])

        idx = [None] * len(shape)
        idx[t] = k
        return rec(others, idx)

    return S.SymArray((shape[t],), "b", lambda i: T.lnot(any_nan(i[0])))


def check_angular(ctx, r, q, shape, t, a, tv, what=""):
    out = shape[:a] + (3,) + shape[a + 1:]
    check_shape(r, out, what + "angular velocity: layout")
    n = shape[t]
    ok_ = valid(q, shape, t, a)
    F = S.filter_of(ok_)
    for i, cs in S.all_indices(shape[:a] + shape[a + 1:]):
        full = i[:a] + (None,) + i[a:]
        k = full[t]
        at = lambda kk, c: q.at(tuple(c if ax == a else kk if ax == t else full[ax] for ax in range(len(shape))))
        good = T.zbool(ok_.at((k,)))
        pos = F.rank(T.zint(k))
        d = tuple(Q.spec_deriv(lambda j: tv(F.phi(j)), lambda j: at(F.phi(j), c), F.m, pos) for c in range(4))
        w = T.qmul(T.qconj(tuple(at(k, c) for c in range(4))), d)
        for c in range(3):
            got = r.at(full[:a] + (c,) + full[a + 1:])
            ctx.prove(S.value_eq(got, T.mul(2, w[c + 1])), what + "twice the vector part of the conjugate times the derivative", extra=list(cs) + [good])
            ctx.prove(_is_nan_term(got), what + "samples with NaN stay NaN", extra=list(cs) + [z3.Not(good)])


def _is_nan_term(v):
    n = nan(v)
    if n is True or n is False:
        if T.is_z3(v) and v.sort() == T.RS:
            return S.value_eq(v, S.NAN)
        return n
    return T.lor(S.value_eq(v, S.NAN), n)


@contract("C19", ["core._estimate_angular_velocity", "estimators.estimate_angular_velocity", "core._timestamps_to_float"],
          layout=ANG, ts=["f", "i"] + UNITS, sign=["positive", "negative"])
def angular(ctx, layout, ts, sign):
    rank, t, a = layout
    if sign == "negative" and ts != "f" or rank == 3 and ts not in ("f", "us"):
        return ctx.prove(True, "covered by other cases")
    shape = dims(rank, fixed={a: 4})
    q = real_array("q", shape)
    tt, tv = stamps(ts, shape[t])
    kw = {"axis": a, "time_axis": t} if sign == "positive" else {"axis": a - rank, "time_axis": t - rank}
    r = mod("estimators").estimate_angular_velocity(q, timestamps=tt, **kw)
    check_angular(ctx, r, q, shape, t, a, tv)


@contract("C19", ["core._estimate_angular_velocity", "estimators.estimate_angular_velocity"], layout=[(2, 0, 1), (2, 1, 0)], option=OPTIONS,
          mode=["quaternion", "rotation_vector"], sign=[0, 1])
def angular_options(ctx, layout, option, mode, sign):
    rank, t, a = layout
    thresh, cutoff = option
    ctx.store["no_nan"] = True
    shape = dims(rank, fixed={a: 4})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 25))
    q = real_array("q", shape)
    tt, tv = stamps("f", n)
    at = lambda k: tuple(q.at((k, c) if t == 0 else (c, k)) for c in range(4))
    rv = lambda k, c: T.rfun("logmap_%d" % c, 4)(*[T.zreal(x) for x in at(k)])
    if mode == "quaternion":
        def value(c):
            def w(i):
                d = tuple(Q.spec_deriv(tv, lambda j: at(j)[e], n, i) for e in range(4))
                return T.mul(2, T.qmul(T.qconj(at(i)), d)[c + 1])
            return w
    else:
        value = lambda c: lambda i: quotient(lambda k: rv(k, c), tv, n, i)
    if thresh is not None:
        d2 = lambda j, c: T.sub(T.sub(rv(S.izs(T.add(j, 2)), c), rv(S.izs(T.add(j, 1)), c)), T.sub(rv(S.izs(T.add(j, 1)), c), rv(j, c)))
        F = S.filter_of(retained(shape, t, lambda j: T.sqrt(T._sum([T.mul(d2(j, c), d2(j, c)) for c in range(3)])), n, thresh))
        ctx.assume(T.cmp(">=", S.dz(F.m), 1))
        first = value
        value = lambda c: suppressed(F, tv, first(c))
    if cutoff is not None:
        raw = value
        value = lambda c: lambda i: Q.spec_lowpass(7, cutoff, raw(c), n, i)
    r = mod("estimators").estimate_angular_velocity(q, timestamps=tt, axis=a - rank * sign, time_axis=t - rank * sign, mode=mode, outlier_thresh=thresh, cutoff=cutoff)
    check_shape(r, (n, 3) if t == 0 else (3, n), "layout")
    for idx, cs in S.all_indices((n,)):
        for c in range(3):
            got = r.at((idx[0], c) if t == 0 else (c, idx[0]))
            ctx.prove(S.value_eq(got, value(c)(idx[0])), "outliers and filtering along the time axis", extra=list(cs) + order_facts(tv, n, idx[0]))


@contract("C19", ["core._estimate_angular_velocity", "estimators.estimate_angular_velocity"], layout=ANG, ts=["f", "ms"])
def angular_rotation_vector(ctx, layout, ts):
    """mode rotation_vector: the time derivative of the rotation vectors, same layout."""
    rank, t, a = layout
    shape = dims(rank, fixed={a: 4})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 2))
    q = real_array("q", shape)
    tt, tv = stamps(ts, n)
    r = mod("estimators").estimate_angular_velocity(q, timestamps=tt, axis=a, time_axis=t, mode="rotation_vector")
    out = shape[:a] + (3,) + shape[a + 1:]
    check_shape(r, out, "angular velocity: layout")
    for i, cs in S.all_indices(shape[:a] + shape[a + 1:]):
        full = i[:a] + (None,) + i[a:]
        k = full[t]
        at = lambda kk: tuple(q.at(tuple(c if ax == a else kk if ax == t else full[ax] for ax in range(rank))) for c in range(4))
        for c in range(3):
            F = lambda kk: T.rfun("logmap_%d" % c, 4)(*[T.zreal(x) for x in at(kk)])
            got = r.at(full[:a] + (c,) + full[a + 1:])
            for cond, w in difference(F, tv, n, k):
                ctx.prove(S.value_eq(got, w), "derivative of the rotation vectors", extra=list(cs) + order_facts(tv, n, k) + [T.zbool(cond)])


@contract("C19", ["core._estimate_angular_velocity"])
def lemma_reference_frame(ctx):
    """A constant rotation p of the reference frame: conj(pq) (pq)' = conj(q) q' because (pq)' = p q' (the derivative is linear)."""
    p, q, d = z3.Reals("p0 p1 p2 p3"), z3.Reals("q0 q1 q2 q3"), z3.Reals("d0 d1 d2 d3")
    lhs = T.qmul(T.qconj(T.qmul(p, q)), T.qmul(p, d))
    rhs = T.qmul(T.qconj(q), d)
    for c in range(4):
        ctx.prove(S.value_eq(lhs[c], rhs[c]), "lemma: constant rotation of the reference frame", extra=[T.qnorm2(p) == 1])


# ------------------------------------------------------------ DataArrays
@contract("C19", ["estimators.estimate_linear_velocity", "core._make_dataarray", "core._maybe_unpack_dataarray"],
          layout=[(2, 0, 1), (2, 1, 0), (3, 0, 2), (3, 1, 2), (3, 2, 0)], ts=["f", "ns"], how=["dim", "axis"], tsarg=["name", "default"])
def linear_dataarray(ctx, layout, ts, how, tsarg):
    _dataarray(ctx, layout, ts, how, tsarg, "linear")


@contract("C19", ["estimators.estimate_angular_velocity", "core._make_dataarray", "core._maybe_unpack_dataarray", "core._replace_dim"],
          layout=[(2, 0, 1), (2, 1, 0), (3, 0, 2), (3, 1, 2), (3, 2, 0)], ts=["f", "ns"], how=["dim", "axis"], tsarg=["name", "default"])
def angular_dataarray(ctx, layout, ts, how, tsarg):
    _dataarray(ctx, layout, ts, how, tsarg, "angular")


def _dataarray(ctx, layout, ts, how, tsarg, what):
    rank, t, a = layout
    if tsarg == "default" and t != 0:
        return ctx.prove(True, "the default time axis is the first")
    shape = dims(rank, fixed={a: 3 if what == "linear" else 4})
    n = shape[t]
    ctx.assume(T.cmp(">=", S.dz(n), 2))
    v = real_array("v", shape)
    tt, tv = stamps(ts, n)
    names = ["k%d" % i for i in range(rank)]
    names[t], names[a] = "time", "cartesian_axis" if what == "linear" else "quaternion_axis"
    co = {"time": tt, names[a]: ["x", "y", "z"] if what == "linear" else ["w", "x", "y", "z"]}
    co["lab"] = ("time", label_array("lab", n))
    for i in range(rank):
        if i not in (t, a):
            co[names[i]] = real_array(names[i], (shape[i],))
    da = data_array(v, names, co, attrs={"units": "m"})
    kw = {"dim": names[a]} if how == "dim" else {"axis": a}
    if tsarg == "name":
        kw["timestamps"] = "time"
    m = mod("estimators")
    f = m.estimate_linear_velocity if what == "linear" else m.estimate_angular_velocity
    r = f(da, **kw)
    new = [x if i != a else "cartesian_axis" for i, x in enumerate(names)]
    check_da(r, new, "nm", {"units": "m"}, "DataArray")
    check_labels(r, "cartesian_axis", ("x", "y", "z"), "axis labels")
    check_coord(r, "time", ("time",), (n,), lambda i: tt.at(i), "time coordinate is kept")
    check_coord(r, "lab", ("time",), (n,), lambda i: co["lab"][1].at(i), "other coordinates are kept")
    if what == "linear":
        check_linear(ctx, r._data, v, shape, t, tv)
    else:
        check_angular(ctx, r._data, v, shape, t, a, tv)


@contract("C19", ["estimators.estimate_linear_velocity", "estimators.estimate_angular_velocity"])
def rejects(ctx):
    m = mod("estimators")
    n = fresh_int("n", 2)
    ts = timestamps("ts", n, strict=True)
    q = real_array("q", (n, 4))
    must_raise(lambda: m.estimate_angular_velocity(q, timestamps=ts, mode="euler"), ValueError, "unknown modes are rejected")
    must_raise(lambda: m.estimate_angular_velocity(q, timestamps=ts, axis=0, time_axis=0), ValueError, "time and space on one axis are rejected")
    must_raise(lambda: m.estimate_linear_velocity(real_array("v", (n, 3)), timestamps=ts, axis=-2), ValueError, "time and space on one axis are rejected")
