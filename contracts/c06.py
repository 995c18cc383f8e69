"""C06: discrete frames hold their latest transform."""
from contracts.frames import *
from contracts.c05 import TIMES, ARR, chain, composed, positions, interpolation, own_values
from contracts.c04 import filtered

FN = ["core.TransformMatcher._transform_from_frame", "core.TransformMatcher.get_transformation", "core.TransformMatcher.get_range",
      "reference_frames.ReferenceFrame.lookup_transform"]


def held(f, x, j, n, what):
    """The event in force at time x(j): the latest at or before it, the first one before all events."""
    ctx = C()
    i, e = z3.Int(ctx.fresh("i")), T.zint(f.event(x(j)))
    rng = [j >= 0, j < T.zint(S.dz(n)), i >= 0, i < T.zint(S.dz(f.n))]
    le = lambda a, b: T.zbool(T.cmp("<=", a, b))
    nxt = z3.Or(i == T.zint(S.dz(f.n)) - 1, T.zbool(T.cmp("<", x(j), f.ns(i + 1))))
    ctx.prove(e == i, what + ": latest event at or before the timestamp", extra=rng + [le(f.ns(i), x(j)), nxt])
    ctx.prove(e == 0, what + ": first event before all events", extra=rng + [T.zbool(T.cmp("<", x(j), f.ns(0)))])
    ctx.prove(e == i, what + ": changes exactly at the event's timestamp", extra=rng + [T.zbool(T.cmp("==", f.ns(i), x(j)))])


@contract("C06", FN, times=["f", "M"], down=[False, True])
def own_events(ctx, times, down):
    """At its own events a discrete frame has the event's transform."""
    m, root, (f,) = chain(ctx, [DISC], times, least=1)
    t, q, ts = root.lookup_transform(f.rf) if down else f.rf.lookup_transform(root)
    n, x = ts.shape[0], ns_of(ts)
    j = z3.Int("j")
    held(f, x, j, n, "own events")
    w = lambda idx: composed([f], x(idx[0]), down)
    check_array(t, (n, 3), lambda idx: sel(w(idx)[0], idx[1]), "translation of the event in force")
    check_array(q, (n, 4), lambda idx: sel(w(idx)[1], idx[1]), "rotation of the event in force")


@contract("C06", FN + ARR + ["reference_frames.ReferenceFrame.transform_points", "reference_frames.ReferenceFrame.transform_vectors", "reference_frames.ReferenceFrame.transform_quaternions"],
          times=["f", "s/ms", "us/s"], what=["points", "vectors", "quaternions"], down=[False, True])
def array_through_frame(ctx, times, what, down):
    """Arrays at any times: before, between, at and after the events; the range is not restricted."""
    m, root, (f,) = chain(ctx, [DISC], times, least=1)
    n = fresh_int("n", 2)
    w = 4 if what == "quaternions" else 3
    arr = frame_quats("arr", (n,)) if w == 4 else real_array("arr", (n, 3))
    tk = TIMES[times]
    ts = timestamps("ts", n, kind=tk[0], unit=tk[2], strict=True)
    value = interpolation(arr, lambda i: T.zreal(ns_of(ts)(i)), n)
    src, to = (root, f.rf) if down else (f.rf, root)
    r, tso = getattr(src, "transform_" + what)(arr, to, timestamps=ts, return_timestamps=True)
    at = ns_of(ts)
    filtered(tso, S.dz(n), at, lambda i: True, "the discrete frame does not restrict the range")
    m_, x = tso.shape[0], ns_of(tso)
    held(f, x, z3.Int("j"), m_, "array times")

    def want(idx):
        ft, fq = f.contribution(x(idx[0]))
        v = value(x(idx[0]))
        if down:
            ft, fq = T.rot(T.qinv(fq), [T.neg(c) for c in ft]), T.qinv(fq)
        if what == "quaternions":
            return list(T.qmul(fq, v))
        v = T.rot(fq, v)
        return T.vadd(v, ft) if what == "points" else v

    check_array(r, (m_, w), lambda idx: sel(list(want(idx)), idx[1]), "transform in force at the array's timestamps")


@contract("C06", FN, kinds=[(CONT, DISC), (DISC, CONT), (DISC, DISC), (STATIC, DISC), (DISC, STATIC)], times=["f", "s/ms"], down=[False, True])
def with_other_frames(ctx, kinds, times, down):
    """Together with continuous or other discrete frames on the path."""
    m, root, fs = chain(ctx, kinds, times, least=2)
    t, q, ts = root.lookup_transform(fs[-1].rf) if down else fs[-1].rf.lookup_transform(root)
    n, x = ts.shape[0], ns_of(ts)
    if CONT in kinds:
        c = fs[kinds.index(CONT)]
        filtered(ts, S.dz(c.n), c.ns, lambda i: True, "the discrete frame does not restrict the range")
    for f in fs:
        if f.kind == DISC:
            held(f, x, z3.Int("j"), n, "events")
    w = lambda idx: composed(fs, x(idx[0]), down)
    check_array(t, (n, 3), lambda idx: sel(w(idx)[0], idx[1]), "translation of the event in force")
    check_array(q, (n, 4), lambda idx: sel(w(idx)[1], idx[1]), "rotation of the event in force")
