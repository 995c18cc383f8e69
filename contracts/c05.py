"""C05: resampling onto the output timestamps interpolates correctly."""
from contracts.frames import *
from contracts.c04 import filtered

ASSUMES = [
    "interpolation inside SQUAD segments is the library's: only the samples, their order and times it is called with are proved",
]

FN = ["core.TransformMatcher._transform_from_frame", "core.TransformMatcher.get_transformation", "core._timestamps_to_float",
      "reference_frames.ReferenceFrame.lookup_transform"]
ARR = ["core.TransformMatcher._resample_array", "core.TransformMatcher.get_arrays"]
TIMES = {"f": ("f", None, None), "M": ("M", "ns", "ns"), "s/ms": ("M", "s", "ms"), "us/s": ("M", "us", "s")}


def positions(ts, base, what):
    """Index in base of output timestamp j (contract C04: a selection of its samples)."""
    prov = getattr(ts, "prov", None)
    if prov is None or prov[0] != "filter":
        raise Unsupported("timestamps of unknown origin")
    b, F = prov[1], prov[2]
    i = z3.Int(C().fresh("ti"))
    C().prove(T.cmp("==", S.dz(b.shape[0]), S.dz(base.shape[0])), what + ": number of samples", extra=[])
    C().prove(T.cmp("==", ns_of(b)(i), ns_of(base)(i)), what + ": samples", extra=[i >= 0, i < S.dz(base.shape[0])])
    return lambda j: F.PHI(T.zint(j))


def chain(ctx, kinds, times, inverse=False, least=2):
    m = mod("reference_frames")
    kind, u1, u2 = TIMES[times]
    root = m.ReferenceFrame("root")
    out, parent = [], root
    for k, knd in enumerate(kinds):
        f = One(m, "f%d" % k, parent, knd, kind, (u1, u2)[k % 2], least=least)
        out.append(f)
        parent = f.rf
    return m, root, out


def composed(frames, x, down, t=None, q=None):
    """Composition of the contributions at time x, from the last frame to the root (or down from it)."""
    t, q = t or [z3.RealVal(0)] * 3, q or [z3.RealVal(1)] + [z3.RealVal(0)] * 3
    first = True
    for f in (frames if down else frames[::-1]):
        ft, fq = f.contribution(x)
        if first and not down:
            t, q = ft, fq
        else:
            t, q = compose(t, q, ft, fq, down)
        first = False
    return t, q


def interpolation(arr, xs, n):
    """Interpolation of the rows of arr, as a function of time; reproduces the rows at their own times."""
    w = arr.shape[-1]
    if w == 4:
        row = lambda i: tuple(arr.at((T.zint(i), c)) for c in range(4))
        at_samples(xs, row, n, Q.spec_squad)
        return lambda x: list(Q.spec_squad(xs, row, n, x))
    cols = [lambda i, c=c: arr.at((T.zint(i), c)) for c in range(w)]
    for f in cols:
        at_samples(xs, f, n, Q.spec_lerp)
    return lambda x: [Q.spec_lerp(xs, f, n, x) for f in cols]


def own_values(value, arr, x, pos, n, what):
    j = z3.Int(C().fresh("j"))
    for c, v in enumerate(value(x(j))):
        C().prove(T.cmp("==", v, arr.at((pos(j), c))), what, extra=[j >= 0, j < T.zint(S.dz(n))])


@contract("C05", FN, times=["f", "M"], down=[False, True])
def own_samples(ctx, times, down):
    """A continuous frame's own samples are reproduced exactly."""
    m, root, (f,) = chain(ctx, [CONT], times)
    xs = lambda i: T.zreal(f.ns(i))
    for c in range(3):
        at_samples(xs, lambda i, c=c: f.tr_at(i, c), f.n, Q.spec_lerp)
    at_samples(xs, f.q_at, f.n, Q.spec_squad)
    t, q, ts = root.lookup_transform(f.rf) if down else f.rf.lookup_transform(root)
    pos = positions(ts, f.ts, "own timestamps")
    n = ts.shape[0]

    x = ns_of(ts)
    j = z3.Int("j")
    got, own = f.contribution(x(j)), f.sample(pos(j))
    for c in range(7):
        ctx.prove(T.cmp("==", (got[0] + got[1])[c], (own[0] + own[1])[c]), "the frame's own sample", extra=[j >= 0, j < T.zint(S.dz(n))])
    w = lambda idx: composed([f], x(idx[0]), down)
    check_array(t, (n, 3), lambda idx: sel(w(idx)[0], idx[1]), "translations at the frame's own timestamps")
    check_array(q, (n, 4), lambda idx: sel(w(idx)[1], idx[1]), "rotations at the frame's own timestamps")


@contract("C05", FN, kinds=[(CONT, CONT), (STATIC, CONT), (CONT, STATIC), (STATIC, STATIC)], times=["f", "s/ms", "us/s"], down=[False, True])
def two_frames(ctx, kinds, times, down):
    m, root, fs = chain(ctx, kinds, times)
    t, q, ts = root.lookup_transform(fs[-1].rf) if down else fs[-1].rf.lookup_transform(root)
    if CONT not in kinds:
        ok(ts is None, "static frames: static result")
        w = composed(fs, None, down)
        check_array(t, (3,), lambda idx: sel(w[0], idx[0]), "static translation")
        return check_array(q, (4,), lambda idx: sel(w[1], idx[0]), "static rotation")
    n, x = ts.shape[0], ns_of(ts)
    w = lambda idx: composed(fs, x(idx[0]), down)
    check_array(t, (n, 3), lambda idx: sel(w(idx)[0], idx[1]), "interpolated translations")
    check_array(q, (n, 4), lambda idx: sel(w(idx)[1], idx[1]), "interpolated rotations")


@contract("C05", FN + ARR + ["reference_frames.ReferenceFrame.transform_points", "reference_frames.ReferenceFrame.transform_vectors", "reference_frames.ReferenceFrame.transform_quaternions"],
          kind=[CONT, STATIC], times=["f", "s/ms", "us/s"], what=["points", "vectors", "quaternions"], down=[False, True])
def array_through_frame(ctx, kind, times, what, down):
    """An array's own samples are kept and the frame is interpolated at their times."""
    m, root, (f,) = chain(ctx, [kind], times)
    n = fresh_int("n", 2)
    w = 4 if what == "quaternions" else 3
    arr = frame_quats("arr", (n,)) if w == 4 else real_array("arr", (n, 3))
    tk = TIMES[times]
    ts = timestamps("ts", n, kind=tk[0], unit=tk[2], strict=True)
    xs = lambda i: T.zreal(ns_of(ts)(i))
    value = interpolation(arr, xs, n)
    src, to = (root, f.rf) if down else (f.rf, root)
    r, tso = getattr(src, "transform_" + what)(arr, to, timestamps=ts, return_timestamps=True)
    pos = positions(tso, ts, "timestamps of the array")
    m_, x = tso.shape[0], ns_of(tso)
    own_values(value, arr, x, pos, m_, "the array's own sample")

    def want(idx):
        ft, fq = f.contribution(x(idx[0]))
        v = value(x(idx[0]))
        if down:
            ft, fq = T.rot(T.qinv(fq), [T.neg(c) for c in ft]), T.qinv(fq)
        if what == "quaternions":
            return list(T.qmul(fq, v))
        v = T.rot(fq, v)
        return T.vadd(v, ft) if what == "points" else v

    check_array(r, (m_, w), lambda idx: sel(list(want(idx)), idx[1]), "transform interpolated at the array's timestamps")


@contract("C05", FN + ARR, times=["f", "s/ms"], what=["points", "vectors", "quaternions"], rank=[1, 2, 3])
def repeated_vector(ctx, times, what, rank):
    """A vector or an array without timestamps is repeated at every output timestamp."""
    m, root, (f,) = chain(ctx, [CONT], times)
    w = 4 if what == "quaternions" else 3
    tail = tuple(fresh_int("k%d" % i, 1) for i in range(rank - 1))
    v = frame_quats("v", tail) if w == 4 else real_array("v", tail + (w,))
    r, ts = getattr(f.rf, "transform_" + what)(v, root, return_timestamps=True)
    n, x = ts.shape[0], ns_of(ts)

    def want(idx):
        ft, fq = f.contribution(x(idx[0]))
        u = [v.at(tuple(idx[1:-1]) + (c,)) for c in range(w)]
        if what == "quaternions":
            return list(T.qmul(fq, u))
        u = T.rot(fq, u)
        return T.vadd(u, ft) if what == "points" else u

    check_array(r, (n,) + tail + (w,), lambda idx: sel(list(want(idx)), idx[-1]), "the array at every timestamp")


@contract("C05", ARR + ["reference_frames.ReferenceFrame._match_arrays"], times=["f", "M", "s/ms", "us/s"], tail=[(3,), (4,), ("k", 3), ("k", 4), ("k", "l", 3), (1,)])
def resampled_array(ctx, times, tail):
    """The second array is interpolated at the timestamps of the first."""
    m = mod("reference_frames")
    kind, u1, u2 = TIMES[times]
    n1, n2 = fresh_int("n1", 2), fresh_int("n2", 2)
    tail = tuple(fresh_int(d, 1) if isinstance(d, str) else d for d in tail)
    a1 = real_array("a1", (n1, 3))
    quat = tail[-1] == 4
    a2 = frame_quats("a2", (n2,) + tail[:-1]) if quat else real_array("a2", (n2,) + tail)
    t1, t2 = timestamps("t1", n1, kind=kind, unit=u1, strict=True), timestamps("t2", n2, kind=kind, unit=u2, strict=True)
    xs1, xs2 = (lambda i: T.zreal(ns_of(t1)(i))), (lambda i: T.zreal(ns_of(t2)(i)))
    value = interpolation(a1, xs1, n1)
    r1, r2, ts = m.ReferenceFrame._match_arrays([(a1, t1), (a2, t2)])
    pos = positions(ts, t1, "first array's timestamps")
    n, x = ts.shape[0], ns_of(ts)
    own_values(value, a1, x, pos, n, "own samples of the first array")
    check_array(r1, (n, 3), lambda idx: sel(value(x(idx[0])), idx[1]), "values of the first array")

    def want(idx):
        if quat:
            return sel(list(Q.spec_squad(xs2, lambda k: tuple(a2.at((T.zint(k),) + tuple(idx[1:-1]) + (c,)) for c in range(4)), n2, x(idx[0]))), idx[-1])
        return Q.spec_lerp(xs2, lambda k: a2.at((T.zint(k),) + tuple(idx[1:])), n2, x(idx[0]))

    check_array(r2, (n,) + tail, want, "interpolation of the second array")


@contract("C05", ARR + ["reference_frames.ReferenceFrame._match_arrays"], width=[3, 4], rank=[1, 2, 3])
def unstamped_array(ctx, width, rank):
    m = mod("reference_frames")
    n = fresh_int("n", 2)
    a, t = real_array("a", (n, 3)), timestamps("t", n, strict=True)
    shape = tuple(fresh_int("k%d" % i, 1) for i in range(rank - 1)) + (width,)
    v = real_array("v", shape)
    r1, r2, ts = m.ReferenceFrame._match_arrays([(a, t), (v, None)])
    check_array(r2, (ts.shape[0],) + shape, lambda idx: v.at(idx[1:]), "an array without timestamps is repeated")
    r1, r2, ts = m.ReferenceFrame._match_arrays([(v, None), (a, t)])
    check_array(r1, (ts.shape[0],) + shape, lambda idx: v.at(idx[1:]), "an array without timestamps is repeated (first)")
    b = real_array("b", (width,))
    r1, r2, ts = m.ReferenceFrame._match_arrays([(v, None), (b, None)])
    check_array(r1, shape, lambda idx: v.at(idx), "static arrays are unchanged")
    check_array(r2, (width,), lambda idx: b.at(idx), "static arrays are unchanged")
