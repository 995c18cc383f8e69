"""The velocity transforms against the contracts of the lookups (C01, C21) and of transform_vectors (C02, C07)."""
from contracts.transforms import *

VEL = ["reference_frames.ReferenceFrame.transform_angular_velocity", "reference_frames.ReferenceFrame.transform_linear_velocity",
       "reference_frames.ReferenceFrame._validate_input", "reference_frames.ReferenceFrame._swap_spatial_axis",
       "reference_frames.ReferenceFrame._restore_axes", "reference_frames.ReferenceFrame._expand_singleton_axes",
       "reference_frames.ReferenceFrame._match_arrays", "core.TransformMatcher.add_array", "core.TransformMatcher.get_timestamps",
       "core.TransformMatcher.get_range", "core.TransformMatcher.get_arrays", "core.TransformMatcher._resample_array", "core._resolve_rf"]


class Kinematics:
    """Frames with arbitrary relative velocities, positions and rotations.

    moving: set of frozensets of two frame names in relative motion."""

    def __init__(self, ctx, m, names, moving, tk="f", twists=True):
        self.ctx, self.m, self.moving, self.tk = ctx, m, moving, tk
        cls = m.ReferenceFrame
        self.frames = {}
        for nm in names:
            f = cls.__new__(cls)
            f.__dict__["name"] = nm
            m._registry[nm] = f
            self.frames[nm] = f
        self.memo, self.rotated, self.options = {}, [], []
        k = self

        def twist(this, reference=None, represent_in=None, outlier_thresh=None, cutoff=None, mode="quaternion", allow_static=False, return_timestamps=False):
            self.options.append(("twist", outlier_thresh, cutoff, mode))
            lin, ang, ts = k.velocity(this, reference, represent_in, allow_static)
            return (lin, ang, ts) if return_timestamps else (lin, ang)

        def linear(this, reference=None, represent_in=None, outlier_thresh=None, cutoff=None, allow_static=False, return_timestamps=False):
            self.options.append(("linear", outlier_thresh, cutoff))
            lin, ang, ts = k.velocity(this, reference, represent_in, allow_static)
            return (lin, ts) if return_timestamps else lin

        def angular(this, reference=None, represent_in=None, outlier_thresh=None, cutoff=None, mode="quaternion", allow_static=False, return_timestamps=False):
            self.options.append(("angular", outlier_thresh, cutoff, mode))
            lin, ang, ts = k.velocity(this, reference, represent_in, allow_static)
            return (ang, ts) if return_timestamps else ang

        def transform(this, to_frame):
            return k.transform(this, to_frame)

        def vectors(this, arr, to_frame, axis=-1, time_axis=0, timestamps=None, return_timestamps=False):
            out, ts = k.rotate(this, arr, to_frame, axis, time_axis, timestamps)
            return (out, ts) if return_timestamps else out

        if twists:
            cls.lookup_twist, cls.lookup_linear_velocity, cls.lookup_angular_velocity = twist, linear, angular
        else:
            self.stub_estimators(m)
        cls.lookup_transform, cls.transform_vectors = transform, vectors

    def stub_estimators(self, m):
        """Contract of the velocity estimators (C19): any array over the same timestamps, a function of the arguments."""
        self.estimates = []

        def linear(translation, timestamps, axis=-1, time_axis=0, outlier_thresh=None, cutoff=None):
            return self.estimate("linear", translation, timestamps, time_axis, 3, (outlier_thresh, cutoff))

        def angular(rotation, timestamps, axis=-1, time_axis=0, mode="quaternion", outlier_thresh=None, cutoff=None):
            if axis % rotation.ndim != rotation.ndim - 1:
                raise Unsupported("velocity of a transposed array")
            return self.estimate("angular", rotation, timestamps, time_axis, 4, (outlier_thresh, cutoff, mode))

        m._estimate_linear_velocity, m._estimate_angular_velocity = linear, angular
        core = mod("core")
        core._estimate_linear_velocity, core._estimate_angular_velocity = linear, angular

    def estimate(self, kind, x, ts, time_axis, w, opts):
        if time_axis % x.ndim != 0 or x.ndim != 2:
            raise Unsupported("velocity of a transposed array")
        out = real_array(kind, (x.shape[0], 3), owner=False)
        self.estimates.append((kind, x.copy(), ts, opts, out))
        return out.copy()

    def estimated(self, kind, x, ts, opts, what):
        """The estimate from this array, its timestamps and options."""
        for k, y, t, o, out in self.estimates:
            if k == kind and o == opts and S.same_dim(x.shape[0], y.shape[0]):
                n = x.shape[0]
                j = z3.Int(self.ctx.fresh("j"))
                rng = [j >= 0, j < S.dz(n)]
                same = T.land(*[T.cmp("==", x.at((j, c)), y.at((j, c))) for c in range(3 if kind == "linear" else 4)] + [T.cmp("==", ns_of(t)(j), ns_of(ts)(j))])
                if same is True or self.ctx.holds(same, extra=rng, ms=900):
                    return out
        self.ctx.fail(what, "no %s velocity is estimated from the looked-up transform with these options" % kind)
        raise PathEnd()

    def nm(self, f):
        if f is None:
            raise TypeError("Expected frame to be str or ReferenceFrame, got NoneType")
        if isinstance(f, str):
            return f
        return next(n for n, g in self.frames.items() if g is f)

    def moves(self, a, b):
        return frozenset((a, b)) in self.moving

    def stamps(self, name):
        n = fresh_int("n_" + name, 2)
        kind, u1, _ = TIMES[self.tk]
        return n, timestamps("ts_" + name, n, kind=kind, unit=u1, strict=True, owner="looked-up (possibly stored) timestamps")

    def velocity(self, frame, reference, rep, allow_static):
        key = tuple(self.nm(f) for f in (frame, reference, rep))
        if not self.moves(key[0], key[1]):
            if not allow_static:
                raise ValueError("Velocity cannot be estimated for static transforms")
            zero = lambda: S.SymArray((3,), "f", lambda idx: z3.RealVal(0))
            return zero(), zero(), None
        if key not in self.memo:
            n, ts = self.stamps("vel")
            self.memo[key] = real_array("lin", (n, 3)), real_array("ang", (n, 3)), ts
        return self.new(key)

    def transform(self, frame, to):
        key = tuple(self.nm(f) for f in (frame, to))
        if key not in self.memo:
            n, ts = self.stamps("tr") if self.moves(*key) else (None, None)
            shape = () if n is None else (n,)
            self.memo[key] = real_array("pos", shape + (3,)), frame_quats("rot", shape), ts
        return self.new(key)

    def new(self, key):
        """The result of a call: new arrays, but possibly the timestamps of a frame."""
        x, y, ts = self.memo[key]
        return x.copy(), y.copy(), ts

    def rotate(self, frame, arr, to, axis, time_axis, ts):
        key = tuple(self.nm(f) for f in (frame, to))
        nd = arr.ndim
        axis, time_axis = axis % nd, time_axis % nd
        if key[0] == key[1]:
            return arr, ts
        if ts is not None:
            n, tso = self.stamps("rot")
            shape = tuple(n if i == time_axis else d for i, d in enumerate(arr.shape))
        elif self.moves(*key):
            n, tso = self.stamps("rot")
            shape, time_axis = (n,) + tuple(arr.shape), 0
        else:
            tso, shape = None, arr.shape
        out = real_array("rotated", shape, owner=False)
        self.rotated.append((key, arr.copy(), axis, time_axis, ts, out, tso))
        return out.copy(), tso

    # -- specification
    def rotated_of(self, a, b, arr, axis, time_axis, ts, what):
        """(axes, spatial axis, time axis, data, timestamps) of the rotation of arr from a into b."""
        if a == b:
            return list(range(arr.ndim)), axis, time_axis, arr, ts
        for key, x, ax, ta, t, out, tso in self.rotated:
            if key != (a, b) or x.ndim != arr.ndim or (t is None) != (ts is None):
                continue
            perm = self.axes(arr, axis, time_axis if ts is not None else None, x, ax, ta if ts is not None else None)
            if perm is None:
                continue
            idx, cs = next(iter(S.all_indices(tuple(arr.shape))))
            same = T.cmp("==", x.at(tuple(idx[p] for p in perm)), arr.at(idx))
            if not (same is True or self.ctx.holds(same, extra=list(cs), ms=900)):
                continue
            if ts is not None:
                j = z3.Int(self.ctx.fresh("j"))
                self.ctx.prove(T.cmp("==", t.at((j,)), ts.at((j,))), what + ": timestamps of the rotated data", extra=[j >= 0, j < S.dz(ts.shape[0])])
                if t.dtype.unit != ts.dtype.unit:
                    raise Unsupported("another time unit")
            return perm, ax, ta, out, tso
        self.ctx.fail(what, "the data is not rotated from %s into %s" % (a, b))
        raise PathEnd()

    def axes(self, arr, axis, ta, x, ax, tx):
        """perm: axis p of x is axis perm[p] of arr."""
        perm, used = [None] * arr.ndim, {axis}
        perm[ax] = axis
        if ta is not None:
            if tx == ax:
                return None
            perm[tx] = ta
            used.add(ta)
        for p in range(arr.ndim):
            if perm[p] is None:
                c = [i for i in range(arr.ndim) if i not in used and S.same_dim(arr.shape[i], x.shape[p])]
                if not c:
                    return None
                perm[p] = c[0]
                used.add(c[0])
        return perm


def sampled(arr, ts):
    """(x) -> 3 components of a (n, 3) array at time x, or of a constant (3,) array."""
    if ts is None:
        return lambda x: [arr.at((c,)) for c in range(3)]
    xs = lambda i: T.zreal(ns_of(ts)(i))
    return lambda x: [Q.spec_lerp(xs, lambda i, c=c: arr.at((T.zint(i), c)), ts.shape[0], x) for c in range(3)]


def velocity_transform(ctx, kind, what, layout, stamped, moving, tk="f", named=False, opts=True):
    """The result is the rotated data plus the velocity of the frames, at common timestamps."""
    m = mod("reference_frames")
    K = Kinematics(ctx, m, "abcd", moving, tk)
    rank, axis, time_axis = layout
    ax, tx = axis % rank, time_axis % rank
    n = fresh_int("n", 2)
    arr, _ = data(ctx, "vectors", rank, axis, n=n, time_axis=tx if stamped else None)
    ts = timestamps("ts", n, kind=TIMES[tk][0], unit=TIMES[tk][2], strict=True) if stamped else None
    f = lambda x: x if named else K.frames[x]
    kw = dict(what=what, axis=axis, time_axis=time_axis, timestamps=ts, return_timestamps=True)
    if opts:
        kw["cutoff"] = 0.25
    if kind == "linear":
        kw.update(moving_frame=f("c"), reference_frame=f("d"))
        if opts:
            kw["outlier_thresh"] = 1.5
    r, tso = getattr(K.frames["a"], "transform_%s_velocity" % kind)(arr, f("b"), **kw)
    if opts:
        for o in K.options:
            ok(o[2] == 0.25 and (kind == "angular" or o[0] == "angular" or o[1] == 1.5), "the filter options are passed on", str(o))
    msg = "%s velocity, %s" % (kind, what)
    perm, pax, pta, rot, rot_ts = K.rotated_of("a", "b", arr, ax, tx, ts, msg)
    terms = [(rot, rot_ts)]
    lin = ang = lever = (None, None)
    if what == "representation_frame":
        if len(K.rotated) != 1:
            raise Unsupported("more than one rotation")
        ok(tso is rot_ts, "the timestamps of the rotated data")
        return check_array(r, tuple(rot.shape), lambda idx: rot.at(idx), msg)
    if kind == "angular":
        frame, ref = ("a", "b") if what == "reference_frame" else ("b", "a")
        _, w, wts = K.velocity(frame, ref, "b", True)
        ang = (w, wts)
    elif what == "reference_frame":
        v, w, vts = K.velocity("a", "b", "b", True)
        lin, ang = (v, vts), (w, vts)
        p, _, pts = K.transform("c", "a")
    else:
        v, _, vts = K.velocity("b", "a", "b", True)
        _, w, wts = K.velocity("a", "d", "b", True)
        lin, ang = (v, vts), (w, wts)
        p, _, pts = K.transform("b", "a")
    if kind == "linear":
        pperm, _, _, lever_rot, lever_ts = K.rotated_of("a", "b", p, p.ndim - 1, 0, pts, "lever arm")
        lever = (lever_rot, lever_ts)
    elements = [rot_ts] + [x[1] for x in (lin, ang, lever)]
    stamps = [t for t in elements if t is not None]
    if not stamps:
        ok(tso is None, "static result: no timestamps")
        x = None
    else:
        if tso is None:
            return ctx.fail(msg, "no timestamps are returned")
        base = getattr(tso, "prov", (None, None))[1]
        cand = [t for t in stamps if base is not None and base.cell is t.cell] or stamps[:1]
        if rot_ts is not None:
            cand = [rot_ts]
        positions(tso, cand[0], msg + ": common timestamps")
        x = ns_of(tso)

    def added(t):
        if kind == "angular":
            return sampled(*ang)(t)
        return T.vadd(sampled(*lin)(t), T.cross(sampled(*ang)(t), sampled(*lever)(t)))

    if ts is None and x is not None:
        # an array without timestamps, between moving frames: a time axis in front of its own
        shape = (tso.shape[0],) + tuple(arr.shape)

        def want(idx):
            t = x(idx[0])
            pos = [idx[1:][perm[p]] for p in range(rank)]

            def comp(c, *k):
                q = list(pos)
                q[pax] = c
                return rot.at(k + tuple(q))

            if rot_ts is None:
                v = [comp(c) for c in range(3)]
            else:
                xs = lambda i: T.zreal(ns_of(rot_ts)(i))
                v = [Q.spec_lerp(xs, lambda i, c=c: comp(c, T.zint(i)), rot_ts.shape[0], t) for c in range(3)]
            return sel(T.vadd(v, added(t)), idx[1 + ax])
    else:
        shape = tuple(tso.shape[0] if x is not None and i == tx else d for i, d in enumerate(arr.shape))

        def want(idx):
            pos = [idx[perm[p]] for p in range(rank)]
            def comp(c, k=None):
                q = list(pos)
                q[pax] = c
                if k is not None:
                    q[pta] = k
                return rot.at(tuple(q))
            if x is None:
                v, t = [comp(c) for c in range(3)], None
            else:
                t = x(idx[tx])
                xs = lambda i: T.zreal(ns_of(rot_ts)(i))
                v = [Q.spec_lerp(xs, lambda i, c=c: comp(c, T.zint(i)), rot_ts.shape[0], t) for c in range(3)]
            return sel(T.vadd(v, added(t)), idx[ax])

    check_array(r, shape, want, msg)
