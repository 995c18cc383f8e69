"""C20: velocity transforms follow the kinematic change-of-frame formulas."""
from contracts.velocities import *

ASSUMES = [
    'lookup_transform, transform_vectors, the twist lookups and the estimators are replaced by their contracts (C01, C02, C21, C19)',
]

KINDS = ["reference_frame", "moving_frame", "representation_frame"]
AB, CA, AD = frozenset("ab"), frozenset("ca"), frozenset("ad")
MOVING = {"none": [], "ab": [AB], "all": [AB, CA, AD]}


@contract("C20", VEL, what=KINDS, moving=["none", "ab"], stamped=[False, True], named=[False, True])
def angular(ctx, what, moving, stamped, named):
    layout = (2, -1, 0) if stamped else (1, -1, 0)
    velocity_transform(ctx, "angular", what, layout, stamped, MOVING[moving], named=named, opts=not named)


@contract("C20", VEL, what=KINDS, moving=["none", "ab", "c", "d", "all"], stamped=[False, True], named=[False, True], budget=120)
def linear(ctx, what, moving, stamped, named):
    layout = (2, -1, 0) if stamped else (1, -1, 0)
    velocity_transform(ctx, "linear", what, layout, stamped, {"c": [CA], "d": [AD]}.get(moving) or MOVING[moving], named=named, opts=not named)


@contract("C20", VEL, kind=["angular", "linear"], what=KINDS[:2], times=["M", "s/ms", "us/s"], budget=120)
def datetimes(ctx, kind, what, times):
    velocity_transform(ctx, kind, what, (2, -1, 0), True, MOVING["all" if kind == "linear" else "ab"], tk=times)


@contract("C20", VEL, kind=["angular", "linear"], what=KINDS, moving=["none", "ab"], layout=[(3, -1, 0), (3, 0, 1), (4, 2, 1)])
def more_dimensions(ctx, kind, what, moving, layout):
    velocity_transform(ctx, kind, what, layout, True, MOVING[moving])


@contract("C20", VEL, kind=["angular", "linear"])
def unknown_kind(ctx, kind):
    m = mod("reference_frames")
    K = Kinematics(ctx, m, "ab", [])
    must_raise(lambda: getattr(K.frames["a"], "transform_%s_velocity" % kind)(real_array("v", (3,)), K.frames["b"], what="frame"), ValueError, "unknown kind of transformation")


WRAP = ["__init__.transform_angular_velocity", "__init__.transform_linear_velocity", "core._transform", "core._maybe_unpack_dataarray"]


@contract("C20", WRAP, kind=["angular", "linear"], what=[None] + KINDS, mode=["none", "ts", "auto"], stamped=[True, False])
def wrappers(ctx, kind, what, mode, stamped):
    """The module-level functions pass plain arrays and all options on to the frame's methods."""
    m, rf = mod(""), mod("reference_frames")
    K = Kinematics(ctx, rf, "abcd", [])
    n = fresh_int("n", 1)
    arr, out = real_array("arr", (3, n)), real_array("out", (3, n))
    ts, tso = (timestamps("ts", n), timestamps("tso", n)) if stamped else (None, None)
    flag = {"none": False, "ts": True, "auto": None}[mode]
    calls = []

    def method(this, arr, to_frame, what="reference_frame", moving_frame=None, reference_frame=None, axis=-1, time_axis=0, timestamps=None,
               return_timestamps=False, outlier_thresh=None, cutoff=None):
        calls.append((this, arr, to_frame, what, moving_frame, reference_frame, axis, time_axis, timestamps, outlier_thresh, cutoff))
        return (out, tso) if return_timestamps else out

    def other(this, *a, **k):
        calls.append(None)
        return out

    for x in ("angular", "linear"):
        setattr(rf.ReferenceFrame, "transform_%s_velocity" % x, method if x == kind else other)
    kw = dict(axis=0, timestamps=ts, time_axis=1 if stamped else None, cutoff=0.5, return_timestamps=flag)
    if what:
        kw["what"] = what
    if kind == "linear":
        kw.update(moving_frame="c", reference_frame="d", outlier_thresh=2.0)
    f = getattr(m, "transform_%s_velocity" % kind)
    r = f(arr, "b", "a", **kw)
    if len(calls) != 1 or calls[0] is None:
        return ctx.fail("one transformation", "%d calls" % len(calls))
    this, x, to, wh, mf, rfr, axis, ta, t, out_t, cut = calls[0]
    ok(this is K.frames["a"] and rf._resolve_rf(to) is K.frames["b"], "the transformation from outof into the target")
    ok(wh == (what or "reference_frame"), "what is transformed")
    ok(cut == 0.5 and (kind == "angular" or (out_t == 2.0 and rf._resolve_rf(mf) is K.frames["c"] and rf._resolve_rf(rfr) is K.frames["d"])), "the options are passed on")
    ok(axis % 2 == 0 and (not stamped or ta % 2 == 1), "the axes are passed on")
    check_array(x, arr.shape, lambda idx: arr.at(idx), "the data is passed on", kind=None)
    if stamped:
        check_array(t, ts.shape, lambda idx: ts.at(idx), "the timestamps are passed on", kind=None)
    else:
        ok(t is None, "no timestamps")
    if flag is True or (flag is None and stamped):
        ok(isinstance(r, tuple) and len(r) == 2 and r[1] is tso, "the timestamps are returned")
        r = r[0]
    check_array(r, out.shape, lambda idx: out.at(idx), "the result is returned", kind=None)
