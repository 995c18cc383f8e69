"""The transform methods against the contracts of the lookup (C01) and of the output timestamps (C04)."""
from contracts.frames import *
from contracts.c05 import TIMES, positions

METHODS = ["reference_frames.ReferenceFrame.transform_points", "reference_frames.ReferenceFrame.transform_vectors",
           "reference_frames.ReferenceFrame.transform_quaternions"]
AXES = ["reference_frames.ReferenceFrame._validate_input", "reference_frames.ReferenceFrame._swap_spatial_axis",
        "reference_frames.ReferenceFrame._restore_axes", "reference_frames.ReferenceFrame._expand_singleton_axes"]
ARRAYS = ["core.TransformMatcher.add_array", "core.TransformMatcher.get_arrays", "core.TransformMatcher._resample_array",
          "reference_frames.ReferenceFrame._get_matcher"]
WHAT = ["points", "vectors", "quaternions"]


class Path:
    """Two frames of any tree; the lookup between them gives any transform at the output timestamps."""

    def __init__(self, ctx, m, moving, times="f", named=False):
        self.ctx, self.m, self.moving, self.times = ctx, m, moving, times
        cls = m.ReferenceFrame
        self.a, self.b = cls.__new__(cls), cls.__new__(cls)
        for f, nm in ((self.a, "a"), (self.b, "b")):
            f.__dict__["name"] = nm
        self.to = "b" if named else self.b
        m._registry["a"], m._registry["b"] = self.a, self.b
        self.lookups = []

        def walk(x, y):
            ok(x is self.a and y is self.b, "the path from the frame to the target")
            return (), None, ()

        ctx.store["walk"] = walk
        path = self

        def get_timestamps(this, arrays_first=True):
            return path.out(this)

        def get_transformation(this, timestamps=None, arrays_first=True):
            ts = path.out(this)
            if timestamps is not None and timestamps is not ts:
                raise Unsupported("lookup at given timestamps")
            shape = () if ts is None else (ts.shape[0],)
            path.t, path.q = real_array("t", shape + (3,)), frame_quats("q", shape)
            path.lookups.append((path.t, path.q, ts))
            return path.t, path.q, ts

        m.TransformMatcher.get_timestamps = get_timestamps
        m.TransformMatcher.get_transformation = get_transformation

    def out(self, matcher):
        """Output timestamps: a selection of the array's timestamps, those of the frames, or none."""
        known = self.ctx.store.setdefault("out", [])
        for mt, ts in known:
            if mt is matcher:
                return ts
        if len(matcher.arrays) != 1:
            raise Unsupported("a transformation of %d arrays" % len(matcher.arrays))
        given = matcher.arrays[0].timestamps
        if given is not None:
            ts = given[real_array("inside", given.shape, kind="b", owner=False)]
        elif self.moving:
            n = fresh_int("n_out", 0)
            ts = timestamps("ts_out", n, kind=TIMES[self.times][0], unit=TIMES[self.times][1], owner=False)
        else:
            ts = None
        known.append((matcher, ts))
        return ts


def transformed(what, t, q, v):
    if what == "quaternions":
        return list(T.qmul(q, v))
    r = T.rot(q, v)
    return list(T.vadd(r, t)) if what == "points" else list(r)


def fibre(arr, idx, axis, time_axis, w):
    """k -> the w components of the data at sample k, at the other positions of idx."""
    def at(k):
        def put(c):
            i = list(idx)
            if time_axis is not None:
                i[time_axis] = k
            i[axis] = c
            return arr.at(tuple(i))
        return [put(c) for c in range(w)]
    return at


def interpolated(rows, w, xs, n):
    """Interpolation of the rows, a function of time; reproduces the rows at their own times."""
    if w == 4:
        row = lambda i: tuple(rows(T.zint(i)))
        at_samples(xs, row, n, Q.spec_squad)
        return lambda x: list(Q.spec_squad(xs, row, n, x))
    cols = [lambda i, c=c: rows(T.zint(i))[c] for c in range(w)]
    for f in cols:
        at_samples(xs, f, n, Q.spec_lerp)
    return lambda x: [Q.spec_lerp(xs, f, n, x) for f in cols]


def data(ctx, what, rank, axis, name="arr", least=1, n=None, time_axis=None):
    """An array of any shape with the spatial axis at this position."""
    w = 4 if what == "quaternions" else 3
    others = [n if n is not None and i == time_axis else fresh_int("%s_d%d" % (name, i), least) for i in range(rank) if i != axis % rank]
    if w == 3:
        return real_array(name, tuple(others[:axis % rank]) + (3,) + tuple(others[axis % rank:])), w
    base = frame_quats(name, tuple(others))
    ax = axis % rank
    return S.SymArray(tuple(others[:ax]) + (4,) + tuple(others[ax:]), "f",
                      lambda idx: base.at(tuple(idx[:ax]) + tuple(idx[ax + 1:]) + (idx[ax],)), owner="argument %s" % name), w


def check_static(r, arr, what, axis, t, q, w, msg):
    ax = axis % arr.ndim

    def want(idx):
        v = fibre(arr, idx, ax, None, w)(0)
        return sel(transformed(what, t, q, v), idx[ax])

    check_array(r, arr.shape, want, msg)


def check_moving(r, tso, arr, ts, what, axis, time_axis, path, w, msg):
    """The array interpolated to the output timestamps and transformed there, in its own layout."""
    ax, ta = axis % arr.ndim, time_axis % arr.ndim
    pos = positions(tso, ts, msg + ": timestamps")
    n0, n, x = ts.shape[0], tso.shape[0], ns_of(tso)
    xs = lambda i: T.zreal(ns_of(ts)(i))
    t, q, _ = path.lookups[-1]
    idx, cs = next(iter(S.all_indices(tuple(n if i == ta else d for i, d in enumerate(arr.shape) if i != ax))))
    full = list(idx[:ax]) + [0] + list(idx[ax:])
    rows = fibre(arr, full, ax, ta, w)
    j = full[ta]
    for v, u in zip(interpolated(rows, w, xs, n0)(x(j)), rows(pos(j))):
        C().prove(T.cmp("==", v, u), msg + ": own samples", extra=list(cs))

    def want(idx):
        j = idx[ta]
        rows = fibre(arr, idx, ax, ta, w)
        if w == 4:
            v = list(Q.spec_squad(xs, lambda i: tuple(rows(T.zint(i))), n0, x(j)))
        else:
            v = [Q.spec_lerp(xs, lambda i, c=c: rows(T.zint(i))[c], n0, x(j)) for c in range(3)]
        tj, qj = [t.at((j, c)) for c in range(3)], [q.at((j, c)) for c in range(4)]
        return sel(transformed(what, tj, qj, v), idx[ax])

    check_array(r, tuple(n if i == ta else d for i, d in enumerate(arr.shape)), want, msg)
