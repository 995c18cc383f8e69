"""C02: transforming data applies the looked-up transformation."""
from contracts.transforms import *
from contracts.c05 import One, composed, chain, own_values, interpolation

ASSUMES = [
    'the looked-up transform is arbitrary where the contract starts from a lookup (contracts C01, C04-C06)',
    'a single vector on a moving path has no timestamps of its own',
]

FN = METHODS + AXES + ARRAYS + ["utils.rotate_vectors"]
WRAP = ["__init__.transform_points", "__init__.transform_vectors", "__init__.transform_quaternions", "core._transform",
        "core._maybe_unpack_dataarray", "core._resolve_rf"]


@contract("C02", FN, what=WHAT, rank=[1, 2, 3, 4], named=[False, True])
def static_transform(ctx, what, rank, named):
    """r = rotation * v (+ translation), with and without the default arguments."""
    m = mod("reference_frames")
    p = Path(ctx, m, False, named=named)
    arr, w = data(ctx, what, rank, -1)
    r = getattr(p.a, "transform_" + what)(arr, p.to, **({"return_timestamps": True} if named else {}))
    if named:
        ok(isinstance(r, tuple) and len(r) == 2 and r[1] is None, "static result: no timestamps")
        r = r[0]
    ok(len(p.lookups) == 1, "one lookup")
    t, q, _ = p.lookups[-1]
    check_static(r, arr, what, -1, [t.at((c,)) for c in range(3)], [q.at((c,)) for c in range(4)], w, "transformed data")


@contract("C02", FN, what=WHAT, rank=[2, 3], times=["f", "s/ms", "M"], named=[False, True])
def moving_transform(ctx, what, rank, times, named):
    m = mod("reference_frames")
    p = Path(ctx, m, True, times=times, named=named)
    n = fresh_int("n", 2)
    arr, w = data(ctx, what, rank, -1, n=n, time_axis=0)
    kind, _, unit = TIMES[times]
    ts = timestamps("ts", n, kind=kind, unit=unit, strict=True)
    r = getattr(p.a, "transform_" + what)(arr, p.to, timestamps=ts, return_timestamps=named)
    tso = p.lookups[-1][2]
    if named:
        ok(r[1] is tso, "the output timestamps are returned")
        r = r[0]
    check_moving(r, tso, arr, ts, what, -1, 0, p, w, "transformed data")


@contract("C02", FN, what=WHAT, times=["f", "s/ms"])
def moving_frames(ctx, what, times):
    """A single vector is transformed at every output timestamp."""
    m = mod("reference_frames")
    p = Path(ctx, m, True, times=times)
    arr, w = data(ctx, what, 1, -1)
    r, ts = getattr(p.a, "transform_" + what)(arr, p.to, return_timestamps=True)
    t, q, tso = p.lookups[-1]
    ok(ts is tso, "the output timestamps are returned")
    v = [arr.at((c,)) for c in range(w)]
    check_array(r, (tso.shape[0], w), lambda idx: sel(transformed(what, [t.at((idx[0], c)) for c in range(3)], [q.at((idx[0], c)) for c in range(4)], v), idx[1]),
                "the vector transformed at every timestamp")


@contract("C02", FN, rank=[1, 2, 3], moving=[False, True])
def lengths(ctx, rank, moving):
    """Vector lengths and quaternion ratios are preserved."""
    m = mod("reference_frames")
    p = Path(ctx, m, moving)
    n = fresh_int("n", 2)
    v, w = data(ctx, "vectors", rank, -1, n=n, time_axis=0 if moving and rank > 1 else None)
    kw = {"timestamps": timestamps("ts", n, strict=True)} if moving and rank > 1 else {}
    if not moving:
        r = p.a.transform_vectors(v, p.to)
        for idx, cs in S.all_indices(tuple(v.shape[:-1])):
            sq = lambda a: (lambda v: T.dot(v, v))([a.at(tuple(idx) + (c,)) for c in range(3)])
            ctx.prove(T.cmp("==", sq(r), sq(v)), "the length of a vector is preserved", extra=list(cs))
        return
    r, ts = p.a.transform_vectors(v, p.to, return_timestamps=True, **kw)
    sq = lambda cs: T.dot(cs, cs)
    for idx, cs in S.all_indices((ts.shape[0],) + tuple(v.shape[1:-1])):
        if rank == 1:
            u = [v.at((c,)) for c in range(3)]
        else:
            rows = fibre(v, list(idx) + [0], rank - 1, 0, 3)
            u = [Q.spec_lerp(lambda i: T.zreal(kw["timestamps"].at((T.zint(i),))), lambda i, c=c: rows(T.zint(i))[c], n, ns_of(ts)(idx[0])) for c in range(3)]
        ctx.prove(T.cmp("==", sq([r.at(tuple(idx) + (c,)) for c in range(3)]), sq(u)), "the length of a vector is preserved", extra=list(cs))


@contract("C02", FN, what=WHAT, rank=[1, 2, 3], moving=[False, True])
def same_frame(ctx, what, rank, moving):
    """A transformation of a frame into itself changes nothing."""
    m, root, (f,) = chain(ctx, [CONT if moving else STATIC], "f")
    n = fresh_int("n", 2)
    stamped = moving and rank > 1
    arr, w = data(ctx, what, rank, -1, n=n, time_axis=0 if stamped else None)
    if not stamped:
        r, ts = getattr(f.rf, "transform_" + what)(arr, f.rf, return_timestamps=True)
        ok(ts is None, "no timestamps")
        return check_array(r, arr.shape, lambda idx: arr.at(idx), "the data is unchanged")
    ts = timestamps("ts", n, strict=True)
    r, tso = getattr(f.rf, "transform_" + what)(arr, f.rf, timestamps=ts, return_timestamps=True)
    pos = positions(tso, ts, "timestamps")
    i = z3.Int(ctx.fresh("i"))
    ctx.prove(T.zbool(tso.prov[2].mask((i,))), "every sample is kept", extra=[i >= 0, i < S.dz(n)])
    idx, cs = next(iter(S.all_indices((tso.shape[0],) + tuple(arr.shape[1:-1]))))
    rows = fibre(arr, list(idx) + [0], rank - 1, 0, w)
    x = lambda i: T.zreal(ts.at((T.zint(i),)))
    for v, u in zip(interpolated(rows, w, x, n)(tso.at((idx[0],))), rows(pos(idx[0]))):
        ctx.prove(T.cmp("==", v, u), "own samples", extra=list(cs))

    def want(idx):
        rows = fibre(arr, idx, rank - 1, 0, w)
        if w == 4:
            return sel(list(Q.spec_squad(x, lambda i: tuple(rows(T.zint(i))), n, tso.at((idx[0],)))), idx[-1])
        return Q.spec_lerp(x, lambda i: arr.at((T.zint(i),) + tuple(idx[1:])), n, tso.at((idx[0],)))

    check_array(r, (tso.shape[0],) + tuple(arr.shape[1:]), want, "the data is unchanged")


def tree(ctx, kinds):
    """Two frames a and b under a common root."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    return root, One(m, "a", root, kinds[0]), One(m, "b", root, kinds[1])


@contract("C02", FN, what=WHAT, rank=[1, 2, 3])
def there_and_back(ctx, what, rank):
    """Going to another frame and back gives the data again."""
    root, a, b = tree(ctx, (STATIC, STATIC))
    arr, w = data(ctx, what, rank, -1)
    f = "transform_" + what
    for x, y in ((a.rf, root), (root, a.rf), (a.rf, b.rf)):
        r = getattr(y, f)(getattr(x, f)(arr, y), x)
        check_array(r, arr.shape, lambda idx: arr.at(idx), "there and back")


@contract("C02", FN, what=WHAT, rank=[1, 2, 3])
def intermediate_frame(ctx, what, rank):
    """Through an intermediate frame is the same as the direct route."""
    root, a, b = tree(ctx, (STATIC, STATIC))
    arr, w = data(ctx, what, rank, -1)
    f = "transform_" + what
    for x, y, z in ((a.rf, root, b.rf), (a.rf, b.rf, root), (root, a.rf, b.rf)):
        r1 = getattr(y, f)(getattr(x, f)(arr, y), z)
        r2 = getattr(x, f)(arr, z)
        check_array(r1, arr.shape, lambda idx: r2.at(idx), "direct and indirect route")


@contract("C02", FN, what=["points", "quaternions"], route=[((CONT, STATIC), True), ((STATIC, CONT), False)], budget=200)
def moving_routes(ctx, what, route):
    """There and back, and through the root, for moving frames and data with timestamps."""
    kinds, back = route
    root, a, b = tree(ctx, kinds)
    n = fresh_int("n", 2)
    arr, w = data(ctx, what, 2, -1, n=n, time_axis=0)
    ts = timestamps("ts", n, strict=True)
    f = "transform_" + what
    r1, t1 = getattr(a.rf, f)(arr, root, timestamps=ts, return_timestamps=True)
    ctx.assume(T.cmp(">=", S.dz(t1.shape[0]), 2))
    r2, t2 = getattr(root, f)(r1, a.rf if back else b.rf, timestamps=t1, return_timestamps=True)
    x1, x2 = (lambda i: T.zreal(ns_of(t1)(i))), ns_of(t2)
    p1, p2 = positions(t1, ts, "first timestamps"), positions(t2, t1, "second timestamps")
    inter = interpolation(r1, x1, t1.shape[0])
    own_values(inter, r1, x2, p2, t2.shape[0], "own samples of the intermediate result")
    j = z3.Int("j")
    rng = [j >= 0, j < T.zint(S.dz(t2.shape[0]))]
    x = x2(j)
    ctx.prove(T.cmp("==", ns_of(t1)(p2(j)), x), "the time of the intermediate sample", extra=rng)
    last = a if back else b

    def down(frame, v):
        t, q = frame.contribution(x)
        q = T.qinv(q)
        return transformed(what, T.rot(q, [T.neg(c) for c in t]), q, v)

    for g, u in zip([r2.at((j, c)) for c in range(w)], down(last, inter(x))):
        ctx.prove(T.cmp("==", g, u), "the second step", extra=rng)
    # the two steps together: the data again
    u = [z3.Real(ctx.fresh("u")) for _ in range(w)]
    if back:
        for g, d in zip(down(a, transformed(what, *a.contribution(x), u)), u):
            ctx.prove(T.cmp("==", g, d), "there and back", extra=rng)


@contract("C02", WRAP + METHODS, what=WHAT, mode=["none", "ts", "auto"], moving=[True, False])
def wrappers(ctx, what, mode, moving):
    """The module-level functions pass plain arrays on to the frame's methods."""
    m, rf = mod(""), mod("reference_frames")
    cls = rf.ReferenceFrame
    a, b = cls.__new__(cls), cls.__new__(cls)
    for f, nm in ((a, "a"), (b, "b")):
        f.__dict__["name"] = nm
        rf._registry[nm] = f
    n = fresh_int("n", 1)
    w = 4 if what == "quaternions" else 3
    arr = real_array("arr", (fresh_int("k", 1), w, n))
    out = real_array("out", (fresh_int("k", 1), w, n))
    ts, tso = (timestamps("ts", n), timestamps("tso", n)) if moving else (None, None)
    calls = []
    flag = {"none": False, "ts": True, "auto": None}[mode]

    def stub(name):
        def method(this, arr, to_frame, axis=-1, time_axis=0, timestamps=None, return_timestamps=False):
            calls.append((name, this, arr, to_frame, axis, time_axis, timestamps))
            return (out, tso) if return_timestamps else out
        return method

    for x in WHAT:
        setattr(cls, "transform_" + x, stub(x))
    for into, outof in ((b, a), ("b", "a")):
        del calls[:]
        r = getattr(m, "transform_" + what)(arr, into=into, outof=outof, axis=-2, timestamps=ts, time_axis=2 if moving else None, return_timestamps=flag)
        if len(calls) != 1:
            return ctx.fail("one transformation", "%d calls" % len(calls))
        name, this, x, to, axis, ta, t = calls[0]
        ok(name == what and this is a and rf._resolve_rf(to) is b, "the transformation from outof into the target")
        check_array(x, arr.shape, lambda idx: arr.at(idx), "the data is passed on", kind=None)
        ok(axis % 3 == 1 and (not moving or ta % 3 == 2), "the axes are passed on")
        if moving:
            check_array(t, ts.shape, lambda idx: ts.at(idx), "the timestamps are passed on", kind=None)
        else:
            ok(t is None, "no timestamps")
        pair = flag is True or (flag is None and moving)
        if pair:
            ok(isinstance(r, tuple) and len(r) == 2 and r[1] is tso, "the timestamps are returned")
            r = r[0]
        check_array(r, out.shape, lambda idx: out.at(idx), "the result is returned", kind=None)


@contract("C02", WRAP)
def defaults(ctx):
    """Without axes: the last axis is the spatial axis and the first one the time axis."""
    m, rf = mod(""), mod("reference_frames")
    cls = rf.ReferenceFrame
    a, b = cls.__new__(cls), cls.__new__(cls)
    for f, nm in ((a, "a"), (b, "b")):
        f.__dict__["name"] = nm
        rf._registry[nm] = f
    for what in WHAT:
        calls = []
        n = fresh_int("n", 1)
        arr, ts = real_array("arr", (n, 4 if what == "quaternions" else 3)), timestamps("ts", n)

        def method(this, arr, to_frame, axis=-1, time_axis=0, timestamps=None, return_timestamps=False):
            calls.append((axis, time_axis))
            return (arr, timestamps) if return_timestamps else arr

        setattr(cls, "transform_" + what, method)
        getattr(m, "transform_" + what)(arr, b, a, timestamps=ts)
        ok(len(calls) == 1 and calls[0][0] % 2 == 1 and calls[0][1] % 2 == 0, "default axes")
