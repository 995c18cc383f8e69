"""C21: twist lookups give the estimated velocity in the requested frame."""
from contracts.velocities import *

ASSUMES = [
    'lookup_transform, transform_vectors and the estimators are replaced by their contracts (C01, C02, C19)',
]

LOOK = ["reference_frames.ReferenceFrame.lookup_twist", "reference_frames.ReferenceFrame.lookup_linear_velocity",
        "reference_frames.ReferenceFrame.lookup_angular_velocity"]
MATCH = ["reference_frames.ReferenceFrame._match_arrays", "core.TransformMatcher.get_arrays", "core.TransformMatcher._resample_array",
         "core.TransformMatcher.get_timestamps", "core.TransformMatcher.get_range", "core._resolve_rf"]
AB, AC, BC = frozenset("ab"), frozenset("ac"), frozenset("bc")
WHICH = ["twist", "linear", "angular"]


def world(ctx, moving, tk="f", parent="p"):
    m = mod("reference_frames")
    K = Kinematics(ctx, m, "abcp", moving, tk, twists=False)
    for f in K.frames.values():
        f.__dict__["_NodeMixin__parent"] = None
    if parent:
        K.frames["a"].__dict__["_NodeMixin__parent"] = K.frames[parent]
    return m, K


def expected(ctx, K, frame, ref, rep, opts, which):
    """[(array, timestamps)] of the linear and the angular velocity, represented in rep."""
    t, q, ts = K.transform(frame, ref)
    out = []
    if which != "angular":
        lin = K.estimated("linear", t, ts, (opts.get("outlier_thresh"), opts.get("cutoff")), "linear velocity")
        _, _, _, x, xts = K.rotated_of(ref, rep, lin, 1, 0, ts, "linear velocity is represented in the requested frame")
        out.append((x, xts))
    if which != "linear":
        th = opts.get("outlier_thresh") if which == "angular" else None
        ang = K.estimated("angular", q, ts, (th, opts.get("cutoff"), opts.get("mode", "quaternion")), "angular velocity")
        _, _, _, x, xts = K.rotated_of(frame, rep, ang, 1, 0, ts, "angular velocity is represented in the requested frame")
        out.append((x, xts))
    return out


def check_values(ctx, got, gts, want, what):
    """got at its timestamps is want interpolated there (or want itself at its own timestamps)."""
    x, xts = want
    if gts is xts or gts.cell is xts.cell and getattr(gts, "prov", None) is None:
        return check_array(got, x.shape, lambda idx: x.at(idx), what)
    f = sampled(x, xts)
    t = ns_of(gts)
    check_array(got, (gts.shape[0], 3), lambda idx: sel(f(t(idx[0])), idx[1]), what)


@contract("C21", LOOK + MATCH, which=WHICH, ref=["b", None, "p"], rep=["c", "b", "a", None], named=[False, True])
def lookups(ctx, which, ref, rep, named):
    m, K = world(ctx, [frozenset(x) for x in ("ab", "ap")])
    a = K.frames["a"]
    arg = lambda n: None if n is None else n if named else K.frames[n]
    kw = {k: v for k, v in (("reference", arg(ref)), ("represent_in", arg(rep))) if v is not None}
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    r = getattr(a, name)(return_timestamps=True, **kw)
    ts = r[-1]
    w = expected(ctx, K, "a", ref or "p", rep or "p", {}, which)
    ok(len(r) == len(w) + 1, "the velocities and their timestamps")
    if which == "twist":
        cand = [x[1] for x in w]
        base = getattr(ts, "prov", (None, None))[1]
        cand = [t for t in cand if base is not None and base.cell is t.cell] or cand[:1]
        positions(ts, cand[0], "common timestamps")
    else:
        check_array(ts, w[0][1].shape, lambda idx: w[0][1].at(idx), "timestamps of the velocity")
    for v, x in zip(r, w):
        if which == "twist":
            f = sampled(*x)
            check_array(v, (ts.shape[0], 3), lambda idx: sel(f(ns_of(ts)(idx[0])), idx[1]), "twist in the requested frame")
        else:
            check_array(v, x[0].shape, lambda idx: x[0].at(idx), "velocity in the requested frame")


@contract("C21", LOOK + MATCH, which=WHICH, opts=[("outlier_thresh", 0.5), ("cutoff", 0.25), ("mode", "rotation_vector"), ("all", None)], times=["f", "M"])
def options(ctx, which, opts, times):
    """The estimator options are passed on; without return_timestamps only the velocities are returned."""
    m, K = world(ctx, [AB], tk=times)
    kw = {"outlier_thresh": 0.5, "cutoff": 0.25, "mode": "rotation_vector"} if opts[0] == "all" else dict([opts])
    if which == "linear":
        kw.pop("mode", None)
    a = K.frames["a"]
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    r = getattr(a, name)(K.frames["b"], K.frames["c"], **kw)
    w = expected(ctx, K, "a", "b", "c", kw, which)
    if which == "twist":
        ok(isinstance(r, tuple) and len(r) == 2, "two velocities")
        full = getattr(a, name)(K.frames["b"], K.frames["c"], return_timestamps=True, **kw)
        ok(len(full) == 3, "the timestamps on request")
        for x in r:
            ok(isinstance(x, S.SymArray) and x.ndim == 2, "velocities over time")
    else:
        check_array(r, w[0][0].shape, lambda idx: w[0][0].at(idx), "velocity in the requested frame")


@contract("C21", LOOK, which=WHICH, allow=[False, True], rep=["c", "b", None])
def static(ctx, which, allow, rep):
    m, K = world(ctx, [AC, BC])
    a = K.frames["a"]
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    f = lambda: getattr(a, name)("b", rep, allow_static=allow, return_timestamps=True)
    if not allow:
        return must_raise(f, ValueError, "the velocity of a static transform is rejected")
    r = must_not_raise(f, "static transforms are allowed")
    ok(len(r) == (3 if which == "twist" else 2) and r[-1] is None, "no timestamps")
    for v in r[:-1]:
        check_array(v, (3,), lambda idx: z3.RealVal(0), "zero velocity")


@contract("C21", LOOK, which=WHICH)
def without_parent(ctx, which):
    m, K = world(ctx, [AB], parent=None)
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    must_raise(lambda: getattr(K.frames["a"], name)(), ValueError, "a frame without a parent has no default reference")
    must_raise(lambda: getattr(K.frames["a"], name)("b"), ValueError, "a frame without a parent has no default representation")
    must_not_raise(lambda: getattr(K.frames["a"], name)("b", "c"), "explicit frames")


WRAP = ["__init__.lookup_twist", "__init__.lookup_linear_velocity", "__init__.lookup_angular_velocity", "core._make_twist_dataset", "core._make_velocity_dataarray"]


@contract("C21", WRAP, which=WHICH, ref=["b", None], rep=["c", None], mode=["tuple", "timestamps", "labelled"], named=[False, True], opts=[False, True])
def wrappers(ctx, which, ref, rep, mode, named, opts):
    r, m = mod(""), mod("reference_frames")
    K = Kinematics(ctx, m, "abcp", [frozenset("ab"), frozenset("ap")])
    a = K.frames["a"]
    a.__dict__["_NodeMixin__parent"] = K.frames["p"]
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    arg = lambda n: n if named else K.frames[n]
    kw = {k: arg(v) for k, v in (("reference", ref), ("represent_in", rep)) if v}
    if opts:
        kw.update(outlier_thresh=0.5, cutoff=0.25)
        if which != "linear":
            kw["mode"] = "rotation_vector"
    kw.update({"tuple": {}, "timestamps": {"return_timestamps": True}, "labelled": {"as_dataset" if which == "twist" else "as_dataarray": True}}[mode])
    got = getattr(r, name)(arg("a"), **kw)
    rf, rp = ref or "p", rep or ref or "p"
    ok(len(K.memo) == 1 and (("a", rf, rp) in K.memo), "the velocity of the frame in the reference, represented in the requested frame", str(list(K.memo)))
    if opts:
        want = {"twist": ("twist", 0.5, 0.25, "rotation_vector"), "linear": ("linear", 0.5, 0.25), "angular": ("angular", 0.5, 0.25, "rotation_vector")}[which]
        ok(K.options == [want], "the options are passed on", str(K.options))
    lin, ang, ts = K.memo[("a", rf, rp)]
    vals = {"twist": [lin, ang], "linear": [lin], "angular": [ang]}[which]
    same = lambda x, y, what: check_array(x, y.shape, lambda idx: y.at(idx), what, kind=None)
    if mode != "labelled":
        out = got if isinstance(got, tuple) else (got,)
        want = vals + ([ts] if mode == "timestamps" else [])
        ok(len(out) == len(want), "number of results")
        for x, y in zip(out, want):
            same(x, y, "the looked-up velocity is returned")
        return
    das = {"linear_velocity": lin, "angular_velocity": ang}
    items = [(k, got[k]) for k in das] if which == "twist" else [("%s_velocity" % which, got)]
    if which != "twist":
        ok(got.name == which + "_velocity", "name of the DataArray")
    for k, da in items:
        ok(tuple(da.dims) == ("time", "cartesian_axis"), "dimensions of %s" % k)
        same(da.data, das[k], "values of %s" % k)
        check_labels(da, "cartesian_axis", ["x", "y", "z"], "axis labels")
        check_coord(da, "time", ("time",), (ts.shape[0],), lambda idx: ts.at(idx), "timestamps", kind=None)
        at = da.attrs
        ok((at.get("moving_frame"), at.get("reference_frame"), at.get("representation_frame")) == ("a", rf, rp), "frames of %s" % k, str(dict(at)))
        ok(at.get("motion_type") == k, "motion type")


@contract("C21", WRAP, which=WHICH)
def static_wrappers(ctx, which):
    r, m = mod(""), mod("reference_frames")
    K = Kinematics(ctx, m, "ab", [])
    name = "lookup_twist" if which == "twist" else "lookup_%s_velocity" % which
    must_raise(lambda: getattr(r, name)("a", "b"), ValueError, "the velocity of a static transform is rejected")
