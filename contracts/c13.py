"""C13: quaternion interpolation along any axis."""
from contracts.common import *

TIMES = [("f", None, "f", None), ("M", "ns", "M", "ns"), ("M", "s", "M", "s"), ("M", "s", "M", "ms"), ("i", None, "f", None)]


def to_float(g, kind, unit):
    """Time in nanoseconds (datetimes) or as is."""
    if kind == "M":
        s = S.unit_ns(unit)
        return lambda k: T.zreal(T.mul(g((k,)), s))
    return lambda k: T.zreal(g((k,)))


def times(name, n, kind, unit, strict=True):
    a = real_array(name, (n,), kind=kind, unit=unit)
    return a, to_float(a.reader(), kind, unit)


def squad_spec(at, axis, n, ti, to, idx):
    """SQUAD of the series of quaternions at(idx) along axis, evaluated at output time idx[axis]."""
    return Q.spec_squad(ti, lambda k: at(idx[:axis] + (k,) + idx[axis + 1:]), n, to(idx[axis]))


@contract("C13", ["utils.qinterp", "core._timestamps_to_float"], layout=[(r, a) for r in (1, 2, 3) for a in range(-r, r)], tk=TIMES)
def qinterp_quaternion(ctx, layout, tk):
    rank, axis = layout
    if rank == 3 and tk[0] != "f":
        return ctx.prove(True, "covered by the float case")
    p = axis % rank
    shape = dims(rank)
    n, m = shape[p], fresh_int("m")
    q = quat_array("q", shape)
    t_in, ti = times("t_in", n, tk[0], tk[1])
    t_out, to = times("t_out", m, tk[2], tk[3])
    r = mod("utils").qinterp(q, t_in, t_out, axis=axis)
    out = shape[:p] + (m,) + shape[p + 1:]
    check_array(r, out, lambda i: squad_spec(q.at, p, n, ti, to, i), "every series is interpolated along its axis", kind="q")


LAY = [(r, a, qa) for r in (2, 3, 4) for a in range(-r, r) for qa in range(-r, r) if a % r != qa % r and (r < 4 or (a >= 0) == (qa >= 0))]


@contract("C13", ["utils.qinterp"], layout=LAY)
def qinterp_float(ctx, layout):
    rank, axis, qaxis = layout
    p, c = axis % rank, qaxis % rank
    shape = dims(rank, fixed={c: 4})
    n, m = shape[p], fresh_int("m")
    q = real_array("q", shape)
    t_in, ti = times("t_in", n, "f", None)
    t_out, to = times("t_out", m, "f", None)
    r = mod("utils").qinterp(q, t_in, t_out, axis=axis, qaxis=qaxis)
    out = shape[:p] + (m,) + shape[p + 1:]

    def spec(idx):
        rest = lambda k: idx[:p] + (k,) + idx[p + 1:]
        comp = lambda k: tuple(q.at(rest(k)[:c] + (j,) + rest(k)[c + 1:]) for j in range(4))
        return Q.spec_squad(ti, comp, n, to(idx[p]))[idx[c]]

    check_array(r, out, spec, "every series is interpolated along its axis")


@contract("C13", ["utils.qinterp"])
def qinterp_defaults(ctx):
    n, m, k = fresh_int("n"), fresh_int("m"), fresh_int("k")
    q = real_array("q", (n, k, 4))
    t_in, ti = times("t_in", n, "f", None)
    t_out, to = times("t_out", m, "f", None)
    r = mod("utils").qinterp(q, t_in, t_out)
    check_array(r, (m, k, 4), lambda i: Q.spec_squad(ti, lambda j: q_at(q, (j, i[1]), -1), n, to(i[0]))[i[2]], "defaults: time first, components last")


# ------------------------------------------------------------- accessor
def _accessor_da(rank, pos, qpos, tk):
    """DataArray with the time axis at pos, the quaternion axis at qpos and every sort of coordinate."""
    shape = dims(rank, fixed={qpos: 4})
    n = shape[pos]
    names = ["k%d" % i for i in range(rank)]
    names[pos], names[qpos] = "time", "quaternion_axis"
    q = real_array("q", shape)
    t, ti = times("t", n, tk[0], tk[1])
    num, lab, two = real_array("num", (n,)), label_array("lab", n), real_array("two", (n, 4))
    oth = real_array("oth", (4,), kind="i")
    lag = durations("lag", n)
    co = {"time": t, "quaternion_axis": ["w", "x", "y", "z"], "lag": ("time", lag), "num": ("time", num), "count": ("time", real_array("count", (n,), kind="i")), "lab": ("time", lab), "two": (("time", "quaternion_axis"), two),
          "oth": ("quaternion_axis", oth)}
    return data_array(q, names, co, attrs={"units": "u", "n": 1}), q, shape, names, t, ti, num, lab, two, oth


ACC = [(2, 0, 1), (2, 1, 0), (3, 0, 2), (3, 2, 0), (3, 1, 2), (3, 0, 1)]


@contract("C13", ["accessors.DataArrayAccessor.qinterp"], lay=ACC, tk=[TIMES[0], TIMES[3]], how=["kw", "dict"])
def accessor_qinterp(ctx, lay, tk, how):
    from pyvc import symxr as X
    rank, p, c = lay
    da, q, shape, names, t, ti, num, lab, two, oth = _accessor_da(rank, p, c, tk)
    n, m = shape[p], fresh_int("m")
    o, to = times("t_out", m, tk[2], tk[3])
    acc = mod("accessors").DataArrayAccessor(da)
    r = acc.qinterp({"time": o}) if how == "dict" else acc.qinterp(time=o)
    what = "accessor qinterp"
    check_da(r, names, "nm", {"units": "u", "n": 1}, what)
    out = shape[:p] + (m,) + shape[p + 1:]

    def spec(idx):
        rest = lambda k: idx[:p] + (k,) + idx[p + 1:]
        comp = lambda k: tuple(q.at(rest(k)[:c] + (j,) + rest(k)[c + 1:]) for j in range(4))
        return Q.spec_squad(ti, comp, n, to(idx[p]))[idx[c]]

    check_array(r.data, out, spec, what + ": same numbers as qinterp along the named dimension")
    ok(set(r.coords) == set(da.coords), what + ": coordinates are kept", str(list(r.coords)))
    check_coord(r, "time", ("time",), (m,), lambda i: o.at(i), what + ": requested coordinate")
    check_labels(r, "quaternion_axis", ["w", "x", "y", "z"], what + ": independent coordinates are kept")
    check_coord(r, "oth", ("quaternion_axis",), (4,), lambda i: oth.at(i), what + ": independent coordinates are kept")
    check_coord(r, "num", ("time",), (m,), lambda i: Q.spec_lerp(ti, lambda k: num.at((k,)), n, to(i[0])), what + ": numeric coordinates are interpolated")
    count = da._coords["count"][1]
    check_coord(r, "count", ("time",), (m,), lambda i: Q.spec_lerp(ti, lambda k: T.zreal(count.at((k,))), n, to(i[0])), what + ": numeric coordinates are interpolated")
    check_coord(r, "two", ("time", "quaternion_axis"), (m, 4), lambda i: Q.spec_lerp(ti, lambda k: two.at((k, i[1])), n, to(i[0])), what + ": numeric coordinates are interpolated")
    check_coord(r, "lab", ("time",), (m,), lambda i: lab.at((X.nearest(ti, n, to(i[0])),)), what + ": other coordinates take the nearest entry")
    lag = da._coords["lag"][1]
    check_coord(r, "lag", ("time",), (m,), lambda i: lag.at((X.nearest(ti, n, to(i[0])),)), what + ": other coordinates take the nearest entry")


@contract("C13", ["accessors.DataArrayAccessor.qinv"], lay=ACC)
def accessor_qinv(ctx, lay):
    rank, p, c = lay
    da, q, shape, names, t, ti, num, lab, two, oth = _accessor_da(rank, p, c, TIMES[0])
    r = mod("accessors").DataArrayAccessor(da).qinv()
    what = "accessor qinv"
    check_da(r, names, "nm", {"units": "u", "n": 1}, what)

    def pre(idx):
        return [T.zreal(T.qnorm2(q_at(q, idx[:c] + idx[c + 1:], c))) != 0]

    check_array(r.data, shape, lambda idx: T.qinv(q_at(q, idx[:c] + idx[c + 1:], c))[idx[c]], what + ": inverse along the named dimension", pre=pre)
    ok(set(r.coords) == set(da.coords), what + ": coordinates are kept")
    check_coord(r, "num", ("time",), (shape[p],), lambda i: num.at(i), what + ": coordinates are kept")
    check_coord(r, "time", ("time",), (shape[p],), lambda i: t.at(i), what + ": coordinates are kept")


@contract("C13", ["accessors.DataArrayAccessor.qinterp", "accessors.DataArrayAccessor.qinv"])
def accessor_rejects(ctx):
    da, q, shape, *_ = _accessor_da(2, 0, 1, TIMES[0])
    acc = mod("accessors").DataArrayAccessor(da)
    o = real_array("o", (fresh_int("m"),))
    must_raise(lambda: acc.qinterp(nope=o), ValueError, "unknown dimension")
    must_raise(lambda: acc.qinterp(time=o, qdim="nope"), ValueError, "unknown quaternion dimension")
    must_raise(lambda: acc.qinv(qdim="nope"), ValueError, "unknown quaternion dimension")
    must_raise(lambda: acc.qinterp(time=o, quaternion_axis=o), NotImplementedError, "several dimensions")
