"""C22: inconsistent inputs are rejected instead of giving numbers."""
from contracts.velocities import *

CTOR = ["reference_frames.ReferenceFrame.__init__", "reference_frames.ReferenceFrame._init_arrays", "reference_frames.ReferenceFrame._verify_root"]
USE = ["core.TransformMatcher._check_timestamps", "core.TransformMatcher.add_reference_frame", "core.TransformMatcher.add_array",
       "reference_frames.ReferenceFrame._get_matcher", "reference_frames.ReferenceFrame.lookup_transform"]
VALID = ["reference_frames.ReferenceFrame._validate_input"] + METHODS + VEL[:2]
NAMES = ["core._resolve_rf", "reference_frames._deregister", "reference_frames.deregister_frame", "reference_frames.register_frame"]


def frame_args(ctx, times, n):
    return {} if times == "static" else {"timestamps": timestamps("ts", n, kind=times, unit="ns" if times == "M" else None)}


@contract("C22", CTOR, which=["translation", "rotation"], times=["static", "f", "M"], rank=[0, 1, 2, 3], inverse=[False, True], other=[False, True], how=["object", "register"])
def shapes(ctx, which, times, rank, inverse, other, how):
    """Arrays that are not (3,), (4,), (n, 3) or (n, 4) are rejected."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    n = fresh_int("n", 0)
    kw = frame_args(ctx, times, n)
    w = 3 if which == "translation" else 4
    shape = dims(rank, "d")
    want = (w,) if times == "static" else (n, w)
    arr = real_array("arr", shape)
    if len(want) == rank:
        good = T.land(*[T.cmp("==", S.dz(a), S.dz(b)) for a, b in zip(shape, want)])
        ctx.assume(T.lnot(good))
    kw[which] = arr
    if other:
        v = 7 - w
        kw["translation" if w == 4 else "rotation"] = real_array("other", want[:-1] + (v,)) if v == 3 else frame_quats("other", want[:-1])
    make = m.ReferenceFrame if how == "object" else m.register_frame
    must_raise(lambda: make("f", parent=root, inverse=inverse, **kw), ValueError, "arrays of another shape are rejected")


@contract("C22", CTOR, times=["static", "f", "M"], given=[(), ("translation",), ("rotation",), ("translation", "rotation")], inverse=[False, True], discrete=[False, True])
def consistent(ctx, times, given, inverse, discrete):
    """Consistent arguments are not rejected."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    n = fresh_int("n", 0)
    kw = frame_args(ctx, times, n)
    shape = () if times == "static" else (n,)
    if "translation" in given:
        kw["translation"] = real_array("tr", shape + (3,))
    if "rotation" in given:
        kw["rotation"] = frame_quats("q", shape)
    if discrete and times == "static":
        return must_raise(lambda: m.ReferenceFrame("f", root, discrete=True, **kw), ValueError, "discrete frames need timestamps")
    must_not_raise(lambda: m.ReferenceFrame("f", root, inverse=inverse, discrete=discrete, **kw), "consistent arguments are accepted")


@contract("C22", CTOR, rank=[0, 2, 3], kind=["f", "M"], given=[(), ("translation",), ("rotation",)])
def timestamp_rank(ctx, rank, kind, given):
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    shape = dims(rank, "d")
    ts = real_array("ts", shape, kind=kind, unit="ns" if kind == "M" else None)
    kw = {}
    if "translation" in given:
        kw["translation"] = real_array("tr", shape[:1] + (3,))
    if "rotation" in given:
        kw["rotation"] = frame_quats("q", shape[:1])
    must_raise(lambda: m.ReferenceFrame("f", root, timestamps=ts, **kw), ValueError, "timestamps that are not one-dimensional are rejected")


@contract("C22", CTOR, given=[("translation",), ("rotation",), ("timestamps",), ("translation", "rotation"), ("translation", "rotation", "timestamps")], how=["object", "register"])
def root_frames(ctx, given, how):
    m = mod("reference_frames")
    n = fresh_int("n", 0)
    shape = (n,) if "timestamps" in given else ()
    kw = {}
    for g in given:
        kw[g] = real_array("tr", shape + (3,)) if g == "translation" else frame_quats("q", shape) if g == "rotation" else timestamps("ts", n)
    make = m.ReferenceFrame if how == "object" else m.register_frame
    must_raise(lambda: make("root", **kw), ValueError, "a transform without a parent is rejected")
    ok("root" not in m._registry, "nothing is registered")


@contract("C22", CTOR)
def discrete_root(ctx):
    m = mod("reference_frames")
    must_raise(lambda: m.ReferenceFrame("root", discrete=True), ValueError, "discrete frames need timestamps")
    must_raise(lambda: m.register_frame("root", discrete=True), ValueError, "discrete frames need timestamps")


def decreasing(ctx, name, n, kind, unit=None):
    """Timestamps with a later sample before an earlier one."""
    ts = timestamps(name, n, kind=kind, unit=unit, sorted_=False)
    k = z3.Int(ctx.fresh("dec"))
    ctx.assume(z3.And(k >= 0, k + 1 < S.dz(n), ts.at((k + 1,)) < ts.at((k,))))
    return ts


@contract("C22", CTOR + USE + METHODS, kind=["f", "M"], discrete=[False, True], use=["up", "down", "inner", "points", "vectors", "quaternions"])
def monotonic_frames(ctx, kind, discrete, use):
    """A frame whose timestamps go backwards is rejected at the latest when it is used."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    n = fresh_int("n", 2)
    ts = decreasing(ctx, "ts", n, kind, "ms" if kind == "M" else None)

    def run():
        f = m.ReferenceFrame("f", root, real_array("tr", (n, 3)), frame_quats("q", (n,)), ts, discrete=discrete)
        if use == "up":
            return f.lookup_transform(root)
        if use == "down":
            return root.lookup_transform(f)
        if use == "inner":
            g = m.ReferenceFrame("g", f, real_array("tg", (3,)), frame_quats("qg", ()))
            return g.lookup_transform(root)
        v = frame_quats("v", ()) if use == "quaternions" else real_array("v", (3,))
        return getattr(f, "transform_" + use)(v, root)

    must_raise(run, ValueError, "timestamps must be monotonic")


@contract("C22", USE + VALID, kind=["f", "M"], what=WHAT + ["angular", "linear"], path=["static", "same"])
def monotonic_arrays(ctx, kind, what, path):
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    f = m.ReferenceFrame("f", root, real_array("tr", (3,)), frame_quats("q", ()))
    n = fresh_int("n", 2)
    ts = decreasing(ctx, "ts", n, kind, "ms" if kind == "M" else None)
    v = frame_quats("v", (n,)) if what == "quaternions" else real_array("v", (n, 3))
    name = "transform_" + what + ("_velocity" if what in ("angular", "linear") else "")
    kw = {"moving_frame": f, "reference_frame": root} if what == "linear" else {}
    must_raise(lambda: getattr(f, name)(v, f if path == "same" else root, timestamps=ts, **kw), ValueError, "timestamps must be monotonic")


def static_frame():
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    return m, root, m.ReferenceFrame("f", root, real_array("tr", (3,)), frame_quats("q", ()))


def call(f, root, what, v, **kw):
    name = "transform_" + what + ("_velocity" if what in ("angular", "linear") else "")
    if what == "linear":
        kw.update(moving_frame=f, reference_frame=root)
    return getattr(f, name)(v, root, **kw)


@contract("C22", VALID, what=WHAT + ["angular", "linear"], layout=[(r, a - r * s) for r in (1, 2, 3) for a in range(r) for s in (0, 1)], stamped=[False, True])
def spatial_axis(ctx, what, layout, stamped):
    """Arrays with another length along the spatial axis are rejected."""
    rank, axis = layout
    m, root, f = static_frame()
    n, k = fresh_int("n", 2), fresh_int("k", 0)
    ctx.assume(T.cmp("!=", S.dz(k), 4 if what == "quaternions" else 3))
    shape = [fresh_int("d", 1) for _ in range(rank)]
    shape[axis] = k
    kw = {"axis": axis}
    if stamped:
        if rank == 1:
            return ctx.prove(True, "no time axis")
        ta = next(i for i in range(rank) if i != axis % rank)
        shape[ta] = n
        kw.update(timestamps=timestamps("ts", n, strict=True), time_axis=ta)
    must_raise(lambda: call(f, root, what, real_array("v", tuple(shape)), **kw), ValueError, "another length of the spatial axis is rejected")


@contract("C22", VALID + USE, what=WHAT + ["angular", "linear"], layout=[(2, -1, 0), (2, 0, 1), (2, 0, -1), (3, 1, 0), (3, -1, 1), (3, 0, -1)], kind=["f", "M"])
def time_axis(ctx, what, layout, kind):
    """Timestamps that do not match the time axis are rejected."""
    rank, axis, ta = layout
    m, root, f = static_frame()
    n = fresh_int("n", 0)
    shape = [fresh_int("d", 1) for _ in range(rank)]
    shape[axis] = 4 if what == "quaternions" else 3
    ctx.assume(T.cmp("!=", S.dz(shape[ta]), S.dz(n)))
    ts = timestamps("ts", n, kind=kind, unit="ns" if kind == "M" else None)
    must_raise(lambda: call(f, root, what, real_array("v", tuple(shape)), axis=axis, time_axis=ta, timestamps=ts), ValueError,
               "timestamps that do not match the time axis are rejected")


@contract("C22", VALID, what=WHAT + ["angular", "linear"], rank=[0, 2])
def array_timestamp_rank(ctx, what, rank):
    m, root, f = static_frame()
    n = fresh_int("n", 1)
    ts = real_array("ts", (n, fresh_int("k", 1))[:rank])
    v = real_array("v", (n, 4 if what == "quaternions" else 3))
    must_raise(lambda: call(f, root, what, v, timestamps=ts), ValueError, "timestamps that are not one-dimensional are rejected")


WRONG = {"name": ("nowhere", ValueError), "number": (5, TypeError), "list": (["f"], TypeError)}


@contract("C22", NAMES, bad=list(WRONG), where=["object", "module"])
def unknown_frames(ctx, bad, where):
    """Unknown names are a ValueError, objects that are not frames a TypeError."""
    from pyvc.runner import reraise_internal
    r, m = mod(""), mod("reference_frames")
    root = m.ReferenceFrame("root")
    f = m.ReferenceFrame("f", root, real_array("tr", (3,)), frame_quats("q", ()))
    for x in (root, f):
        m._registry[x.name] = x
    value, exc = WRONG[bad]
    v, q = real_array("v", (3,)), frame_quats("v", ())
    if where == "object":
        uses = {
            "lookup_transform": lambda: f.lookup_transform(value),
            "transform_vectors": lambda: f.transform_vectors(v, value),
            "transform_points": lambda: f.transform_points(v, value),
            "transform_quaternions": lambda: f.transform_quaternions(q, value),
            "transform_angular_velocity": lambda: f.transform_angular_velocity(v, value, what="representation_frame"),
            "transform_angular_velocity (moving)": lambda: f.transform_angular_velocity(v, value, what="moving_frame"),
            "transform_linear_velocity": lambda: f.transform_linear_velocity(v, value, what="moving_frame", reference_frame=root),
            "parent": lambda: m.ReferenceFrame("g", value),
        }
    else:
        uses = {
            "register_frame": lambda: m.register_frame("g", parent=value),
            "lookup_transform into": lambda: r.lookup_transform("f", value),
            "lookup_transform outof": lambda: r.lookup_transform(value, "f"),
            "lookup_pose": lambda: r.lookup_pose(value, "f"),
            "lookup_pose reference": lambda: r.lookup_pose("f", value),
            "lookup_twist": lambda: r.lookup_twist(value),
            "lookup_twist reference": lambda: r.lookup_twist("f", value),
            "lookup_linear_velocity": lambda: r.lookup_linear_velocity("f", represent_in=value),
            "lookup_angular_velocity": lambda: r.lookup_angular_velocity(value, "root"),
            "transform_vectors": lambda: r.transform_vectors(v, value, "f"),
            "transform_points outof": lambda: r.transform_points(v, "f", value),
            "transform_quaternions": lambda: r.transform_quaternions(q, value, "root"),
            "transform_angular_velocity": lambda: r.transform_angular_velocity(v, "f", value),
            "transform_linear_velocity": lambda: r.transform_linear_velocity(v, value, "f"),
        }
        if bad == "name":
            uses["deregister_frame"] = lambda: m.deregister_frame(value)
    for k, u in uses.items():
        must_raise(u, exc, "%s is rejected in %s" % (bad, k))
    ok(sorted(m._registry) == ["f", "root"] and [c for c in root.children] == [f] and not f.children, "nothing has changed")


@contract("C22", NAMES)
def known_frames(ctx):
    r, m = mod(""), mod("reference_frames")
    m.register_frame("root")
    m.register_frame("f", parent="root", translation=real_array("tr", (3,)), rotation=frame_quats("q", ()))
    must_not_raise(lambda: r.lookup_transform("f", "root"), "registered names are accepted")
    must_not_raise(lambda: r.lookup_transform(m._registry["f"], m._registry["root"]), "frames are accepted")
    must_not_raise(lambda: r.transform_points(real_array("v", (3,)), "root", "f"), "registered names are accepted")
    must_raise(lambda: r.transform_points(real_array("v", (3,)), "root"), ValueError, "the source of an array must be given")
    must_raise(lambda: m.register_frame(None), ValueError, "a name is required")


# ------------------------------------ shapes of quaternion and vector arrays
def compatible(q, v):
    return T.land(*[T.lor(T.cmp("==", S.dz(a), S.dz(b)), T.cmp("==", S.dz(a), 1), T.cmp("==", S.dz(b), 1)) for a, b in zip(q, v)])


@contract("C22", ["utils.rotate_vectors"], rank=[1, 2, 3], axis=[0, 1, -1, -2], dtype=["quaternion", "float"])
def rotated_shapes(ctx, rank, axis, dtype):
    """Arrays of quaternions and vectors that do not match one-to-one are rejected."""
    if not -rank - 1 <= axis <= rank:
        return ctx.prove(True, "no such axis")
    f = mod("utils").rotate_vectors
    q = tuple(fresh_int("q", 0) for _ in range(rank))
    v = tuple(fresh_int("v", 0) for _ in range(rank))
    ctx.assume(T.lnot(compatible(q, v)))
    ax = axis % (rank + 1)
    qa = quat_array("q", q) if dtype == "quaternion" else frame_quats("q", q)
    must_raise(lambda: f(qa, real_array("v", v[:ax] + (3,) + v[ax:]), axis=axis), ValueError, "arrays that do not match one-to-one are rejected")


@contract("C22", ["utils.rotate_vectors"], ranks=[(a, b) for a in (1, 2, 3) for b in (0, 1, 2, 3) if a != b], axis=[0, -1], dtype=["quaternion", "float"])
def rotated_ranks(ctx, ranks, axis, dtype):
    f = mod("utils").rotate_vectors
    q = tuple(fresh_int("q", 1) for _ in range(ranks[0]))
    v = [fresh_int("v", 1) for _ in range(ranks[1])]
    v.insert(0 if axis == 0 else len(v), 3)
    qa = quat_array("q", q) if dtype == "quaternion" else frame_quats("q", q)
    must_raise(lambda: f(qa, real_array("v", tuple(v)), axis=axis), ValueError, "another number of dimensions is rejected")


@contract("C22", ["utils.rotate_vectors"], rank=[1, 2, 3], dtype=["quaternion", "float"], one=[False, True])
def rotated_vector_length(ctx, rank, dtype, one):
    f = mod("utils").rotate_vectors
    k = fresh_int("k", 0)
    ctx.assume(T.cmp("!=", S.dz(k), 3))
    shape = tuple(fresh_int("n", 1) for _ in range(rank))
    qa = quat_array("q", shape) if dtype == "quaternion" else frame_quats("q", shape)
    for axis in range(rank + 1):
        must_raise(lambda: f(qa, real_array("v", shape[:axis] + (k,) + shape[axis:]), axis=axis), ValueError, "vectors have three components")


@contract("C22", ["utils.rotate_vectors"], rank=[0, 1, 2, 3], axis=[0, -1], dtype=["quaternion", "float"])
def matching_shapes(ctx, rank, axis, dtype):
    """Matching shapes (also of length one) are accepted."""
    f = mod("utils").rotate_vectors
    q = tuple(fresh_int("q", 1) for _ in range(rank))
    v = tuple(fresh_int("v", 1) for _ in range(rank))
    ctx.assume(compatible(q, v))
    qa = quat_array("q", q, nonzero=True) if dtype == "quaternion" else frame_quats("q", q)
    must_not_raise(lambda: f(qa, real_array("v", v + (3,) if axis else (3,) + v), axis=axis), "matching shapes are accepted")


@contract("C22", ["utils.qmul"])
def quaternion_products(ctx):
    f = mod("utils").qmul
    n, k = fresh_int("n", 2), fresh_int("k", 2)
    ctx.assume(T.cmp("!=", S.dz(n), S.dz(k)))
    for a, b in (((n,), (k,)), ((n, 2), (k, 2)), ((2, n), (k,))):
        must_raise(lambda: f(quat_array("a", a), quat_array("b", b)), ValueError, "quaternions that cannot be matched are rejected")
        must_raise(lambda: f(frame_quats("a", a), frame_quats("b", b)), ValueError, "quaternions that cannot be matched are rejected")


FITS = ["estimators.best_fit_rotation", "estimators.best_fit_transform", "estimators._reshape_vectors"]


@contract("C22", FITS, what=["rotation", "transform"], rank=[2, 3], axis=[-1, 0])
def fitted_shapes(ctx, what, rank, axis):
    f = getattr(mod("estimators"), "best_fit_" + what)
    a, b = [fresh_int("a", 1) for _ in range(rank - 1)], [fresh_int("b", 1) for _ in range(rank - 1)]
    ctx.assume(T.lnot(T.land(*[T.cmp("==", S.dz(x), S.dz(y)) for x, y in zip(a, b)])))
    for s in (a, b):
        s.insert(0 if axis == 0 else rank - 1, 3)
    must_raise(lambda: f(real_array("v1", tuple(a)), real_array("v2", tuple(b)), axis=axis), ValueError, "vectors that do not match one-to-one are rejected")
    must_raise(lambda: f(real_array("v1", tuple(a)), real_array("v2", tuple(a[1:] if axis else a[:-1])), axis=axis), ValueError, "another number of dimensions is rejected")


@contract("C22", FITS, what=["rotation", "transform"], rank=[1, 2, 3])
def fitted_length(ctx, what, rank):
    f = getattr(mod("estimators"), "best_fit_" + what)
    shape = tuple(fresh_int("n", 1) for _ in range(rank - 1))
    if rank == 1:
        return must_raise(lambda: f(real_array("v1", (3,)), real_array("v2", (3,))), ValueError, "single vectors are rejected")
    k = fresh_int("k", 0)
    ctx.assume(T.cmp("!=", S.dz(k), 3))
    must_raise(lambda: f(real_array("v1", shape + (k,)), real_array("v2", shape + (k,))), ValueError, "vectors have three components")


@contract("C22", VALID + USE, what=WHAT, layout=[(2, -1, 0), (2, 0, 1), (2, 0, -1), (3, 1, 0), (3, -1, 1), (3, 0, -1), (3, -3, 2), (3, 2, 0)], kind=["f", "M"])
def accepted(ctx, what, layout, kind):
    """Arrays and timestamps that match are not rejected."""
    rank, axis, ta = layout
    m, root, f = static_frame()
    n = fresh_int("n", 2)
    arr, w = data(ctx, what, rank, axis, n=n, time_axis=ta % rank)
    ts = timestamps("ts", n, kind=kind, unit="ns" if kind == "M" else None)
    r = must_not_raise(lambda: call(f, root, what, arr, axis=axis, time_axis=ta, timestamps=ts), "matching arrays are accepted")
    ok(r.ndim == rank, "the result has the dimensions of the input")
