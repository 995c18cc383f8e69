"""C08: transforming a DataArray = transforming its data, with the labels kept right."""
from contracts.frames import *
from pyvc import symquat as Q
from pyvc import symxr as X

ASSUMES = [
    'the transform methods of ReferenceFrame on plain arrays are replaced by their contracts (C02, C07, C20)',
    'xarray is replaced by a DataArray class with its documented behaviour for isel, transpose, interp, sel, assign_coords and the constructor (pyvc/symxr.py)',
]

FUNCS = {"points": "transform_points", "vectors": "transform_vectors", "quaternions": "transform_quaternions",
         "angular": "transform_angular_velocity", "linear": "transform_linear_velocity"}
METHODS = ["__init__." + f for f in FUNCS.values()]
CORE = ["core._transform", "core._maybe_unpack_dataarray", "core._make_dataarray", "core._resolve_rf"]
FN = METHODS + CORE
WHATS = ["reference_frame", "moving_frame", "representation_frame"]


class Stage:
    """Frames a and b whose transform methods are replaced by their contracts (C01-C07, C20)."""

    def __init__(self, ctx, out):
        self.m, self.rf = mod(""), mod("reference_frames")
        cls = self.rf.ReferenceFrame
        self.frames, self.calls, self.out = {}, [], out
        for nm in "abc":
            f = cls.__new__(cls)
            f.__dict__["name"] = nm
            self.rf._registry[nm] = f
            self.frames[nm] = f
        for x in FUNCS.values():
            setattr(cls, x, self.stub(x))

    def stub(self, name):
        def method(this, arr, to_frame, what="reference_frame", moving_frame=None, reference_frame=None, axis=-1, time_axis=0,
                   cutoff=None, outlier_thresh=None, timestamps=None, return_timestamps=False):
            self.calls.append(dict(name=name, frame=this, arr=arr, to=to_frame, axis=axis, time_axis=time_axis, ts=timestamps, what=what,
                                   moving_frame=moving_frame, reference_frame=reference_frame, cutoff=cutoff, outlier_thresh=outlier_thresh))
            r, t = self.out(timestamps)
            return (r, t) if return_timestamps else r
        return method

    def call(self):
        if len(self.calls) != 1:
            C().fail("one transformation", "%d calls" % len(self.calls))
            raise PathEnd()
        return self.calls[0]


def same(x, y, what):
    check_array(x, y.shape, lambda idx: y.at(idx), what, kind=None)


# (dimension names in order); "axis" is spatial, "time" holds the timestamps
LAYOUTS = [("time", "axis"), ("axis", "time"), ("time", "u", "axis"), ("u", "axis", "time"), ("axis", "time", "u"), ("time", "axis", "u", "v"), ("u", "time", "v", "axis")]


def coordinates(ctx, dims, sizes, ts, kinds=True):
    """Coordinates of every kind; (dims, array)."""
    co = {}
    if "time" in dims:
        n = sizes["time"]
        co["time"] = (("time",), ts)
        if kinds:
            co["num"] = (("time",), real_array("num", (n,)))
            co["count"] = (("time",), real_array("count", (n,), kind="i"))
            co["lab"] = (("time",), label_array("lab", n))
            co["lag"] = (("time",), durations("lag", n))
            co["clock"] = (("time",), timestamps("clock", n, kind="M"))
    for d in dims:
        if d not in ("time", "axis"):
            co[d] = ((d,), real_array("co_" + d, (sizes[d],)))
            co["extra_" + d] = ((d,), label_array("extra_" + d, sizes[d]))
            if "time" in dims:
                dd = ("time", d) if d == "u" else (d, "time")
                co["grid_" + d] = (dd, real_array("grid_" + d, tuple(sizes[x] for x in dd)))
    co["axis"] = (("axis",), label_array("co_axis", sizes["axis"]))
    co["scalar"] = ((), real_array("scalar", ()))
    return co


def taken(old, ax, at):
    """Reader of coordinate values at the samples that are left in the output."""
    g = old.reader()
    return lambda i: g(i[:ax] + (at(i[ax]),) + i[ax + 1:])


def at_own_samples(old, ax, ts, at):
    """The output times are samples of the input (C04), where looking up the nearest entry and interpolating give that entry."""
    x, n, g = ns_of(ts), ts.shape[0], old.reader()
    xs = lambda k: T.zreal(x(k))

    def pre(i):
        k = at(i[ax])
        r = [k >= 0, k < S.dz(n), X.nearest(xs, n, xs(k)) == k]
        if old.dtype.kind in "fi":
            ys = lambda k: T.zreal(g(i[:ax] + (k,) + i[ax + 1:]))
            r.append(Q.spec_lerp(xs, ys, n, xs(k)) == ys(k))
        return r
    return pre


@contract("C08", FN, layout=LAYOUTS, out=["same", "equal", "fewer"], tk=["f", "M"], named=[True, False])
def labels_and_numbers(ctx, layout, out, tk, named):
    fixed = {layout.index("axis"): 3}
    shape = dims(len(layout), fixed=fixed)
    sizes = dict(zip(layout, shape))
    n = sizes["time"]
    ts = timestamps("ts", n, kind=tk, unit="ns", strict=True)
    n2 = n if out != "fewer" else fresh_int("n2", 1)
    at = lambda i: z3.Function("sample!", T.IS, T.IS)(T.zint(i))
    tso = ts.copy()
    if out == "fewer":
        # some of the samples of the array (C04)
        ctx.assume(T.cmp("<", S.dz(n2), S.dz(n)))
        g = ts.reader()
        tso = S.SymArray((n2,), ts.dtype, lambda i: g((at(i[0]),)))
    ax, tx = layout.index("axis"), layout.index("time")
    res = real_array("res", tuple(n2 if d == "time" else sizes[d] for d in layout))
    st = Stage(ctx, lambda t: (res, t if out == "same" else tso))
    co = coordinates(ctx, layout, sizes, ts)
    arr = real_array("arr", shape)
    name = "nm" if tk == "f" else None
    da = data_array(arr, layout, dict(co), name=name, attrs={"units": "m", "note": "x"})
    kw = {"timestamps": "time"} if named else {"time_axis": tx}
    r = st.m.transform_points(da, "b", "a", dim="axis", **kw)
    c = st.call()
    ok(c["name"] == "transform_points" and c["frame"] is st.frames["a"] and st.rf._resolve_rf(c["to"]) is st.frames["b"], "the same transformation")
    same(c["arr"], arr, "the data of the DataArray is transformed")
    ok(c["axis"] % len(layout) == ax and c["time_axis"] % len(layout) == tx, "the axes belong to the named dimensions")
    same(X.sdata(c["ts"]), ts, "the time coordinate gives the timestamps")
    check_da(r, layout, name, {"units": "m", "note": "x", "reference_frame": "b", "representation_frame": "b"}, "DataArray")
    same(r._data, res, "the same numbers as for the plain array")
    ok(set(r._coords) == set(co), "no coordinate is added or lost", str(set(r._coords) ^ set(co)))
    changed = out == "fewer"
    same(r._coords["time"][1], tso if changed else ts, "time coordinate")
    for k, (d, a) in co.items():
        if k == "time":
            continue
        if "time" in d and changed:
            i = d.index("time")
            check_coord(r, k, d, tuple(n2 if x == "time" else sizes[x] for x in d), taken(a, i, at), "time-dependent coordinate", pre=at_own_samples(a, i, ts, at))
        else:
            check_coord(r, k, d, a.shape, lambda idx: a.at(idx), "coordinate is kept")


@contract("C08", FN, layout=LAYOUTS, space=["dim", "axis", "negative", "default"], time=["name", "axis", "negative", "default", "off"], what=["points", "vectors", "quaternions"])
def selection(ctx, layout, space, time, what):
    """dim / axis and timestamps / time_axis select the axes."""
    w = 4 if what == "quaternions" else 3
    nd = len(layout)
    ax, tx = layout.index("axis"), layout.index("time")
    if space == "default" and ax != nd - 1 or time == "default" and tx != 0:
        return ctx.prove(True, "defaults are the last and the first axis")
    shape = dims(nd, fixed={ax: w})
    sizes = dict(zip(layout, shape))
    ts = timestamps("ts", sizes["time"])
    arr = real_array("arr", shape)
    st = Stage(ctx, lambda t: (arr, t))
    da = data_array(arr, layout, coordinates(ctx, layout, sizes, ts, kinds=False))
    kw = {"dim": {"dim": "axis"}, "axis": {"axis": ax}, "negative": {"axis": ax - nd}, "default": {}}[space]
    kw.update({"name": {"timestamps": "time"}, "axis": {"time_axis": tx}, "negative": {"time_axis": tx - nd}, "default": {}, "off": {"timestamps": False}}[time])
    r = getattr(st.m, FUNCS[what])(da, "b", "a", **kw)
    c = st.call()
    ok(c["name"] == FUNCS[what] and c["frame"] is st.frames["a"] and st.rf._resolve_rf(c["to"]) is st.frames["b"], "the same transformation")
    same(c["arr"], arr, "the data of the DataArray is transformed")
    ok(c["axis"] % nd == ax, "spatial axis")
    if time == "off":
        ok(c["ts"] is None, "no timestamps")
    else:
        ok(c["time_axis"] % nd == tx, "time axis")
        same(X.sdata(c["ts"]), ts, "the time coordinate gives the timestamps")
    ok(is_da(r) and tuple(r.dims) == layout, "dimension names")
    same(r._coords["time"][1], ts, "time coordinate")
    same(r._data, arr, "the same numbers as for the plain array")


@contract("C08", FN, what=list(FUNCS), moving=[False, True], extra=[False, True], layout=[("axis",), ("u", "axis"), ("axis", "u"), ("u", "axis", "v")])
def unstamped(ctx, what, moving, extra, layout):
    """A single vector or an array without timestamps: between moving frames the result gets a time dimension."""
    w = 4 if what == "quaternions" else 3
    nd, ax = len(layout), layout.index("axis")
    shape = dims(nd, fixed={ax: w})
    sizes = dict(zip(layout, shape))
    arr = real_array("arr", shape)
    if moving:
        n = fresh_int("n", 1)
        ts = timestamps("ts", n)
        res = real_array("res", (n,) + shape)
    else:
        ts, res = None, real_array("res", shape)
    st = Stage(ctx, lambda t: (res, ts))
    co = {"axis": (("axis",), label_array("lab", w))}
    if nd > 1:
        co["u"] = (("u",), label_array("lab_u", sizes["u"]))
    if extra:
        co["scalar"] = ((), real_array("scalar", ()))
        co["second"] = (layout, real_array("second", shape))
    kw = {} if nd == 1 else {"timestamps": False, "dim": "axis"}
    r = getattr(st.m, FUNCS[what])(data_array(arr, layout, dict(co)), "b", "a", **kw)
    c = st.call()
    same(c["arr"], arr, "the data of the DataArray is transformed")
    ok(c["ts"] is None and c["axis"] % nd == ax, "no timestamps")
    new = ("time",) * moving + layout
    ok(is_da(r) and tuple(r.dims) == new, "dimension names", str(getattr(r, "dims", None)))
    same(r._data, res, "the same numbers as for the plain array")
    ok(set(r._coords) == set(co) | ({"time"} if moving else set()), "coordinates")
    for k, (d, a) in co.items():
        check_coord(r, k, d, a.shape, lambda idx: a.at(idx), "coordinate is kept")
    if moving:
        check_coord(r, "time", ("time",), (n,), lambda idx: ts.at(idx), "time coordinate")


STATES = ["absent", "matching", "other", "unknown"]


@contract("C08", FN, what=list(FUNCS), kind=WHATS + [None], state=STATES, rep=["absent", "a", "c"], given=[True, False], named=[True, False])
def attributes(ctx, what, kind, state, rep, given, named):
    velocity = what in ("angular", "linear")
    if not velocity and kind is not None:
        return ctx.prove(True, "only velocities have a choice of frames")
    key = kind or ("representation_frame" if what == "vectors" else "reference_frame")
    at = {"units": "m", "motion_type": "x"}
    if rep != "absent":
        at["representation_frame"] = rep
    if state != "absent":
        at[key] = {"matching": "a", "other": "c", "unknown": "nowhere"}[state]
    rec = at.get(key)
    w = 4 if what == "quaternions" else 3
    n = fresh_int("n", 1)
    arr, ts = real_array("arr", (n, w)), timestamps("ts", n)
    st = Stage(ctx, lambda t: (arr, t))
    da = data_array(arr, ("time", "axis"), {"time": (("time",), ts)}, attrs=dict(at))
    src, dst = ("a", "b") if named else (st.frames["a"], st.frames["b"])
    kw = {} if kind is None else {"what": kind}
    opts = {}
    if velocity:
        opts = {"cutoff": 0.25}
        if what == "linear":
            opts.update(outlier_thresh=0.5, moving_frame="c", reference_frame="a")
    f = lambda: getattr(st.m, FUNCS[what])(da, dst, src if given else None, **kw, **opts)
    if not given and (rec is None or rec == "nowhere"):
        must_raise(f, ValueError, "an unknown source frame is rejected")
        return
    r = must_not_raise(f, "valid call")
    c = st.call()
    source = "a" if given else rec
    ok(c["frame"] is st.frames[source], "the source frame is the given or the recorded one", str(c["frame"].__dict__["name"]))
    ok(c["name"] == FUNCS[what] and st.rf._resolve_rf(c["to"]) is st.frames["b"], "the same transformation")
    if velocity:
        ok(c["what"] == key, "the frame to transform", str(c["what"]))
        for k, v in opts.items():
            ok(c[k] == v, "options are passed on", k)
    want = dict(at)
    want[key] = "b"
    want["representation_frame"] = "b"
    check_da(r, ("time", "axis"), "nm", want, "DataArray")
    warned = len(ctx.store.get("warnings", []))
    contradicts = given and rec is not None and rec != "a"
    ok((warned > 0) == contradicts, "a contradicting source frame is reported, and only that", str(ctx.store.get("warnings")))


@contract("C08", FN, what=list(FUNCS))
def rejects(ctx, what):
    w = 4 if what == "quaternions" else 3
    n = fresh_int("n", 1)
    arr, ts = real_array("arr", (n, w)), timestamps("ts", n)
    st = Stage(ctx, lambda t: (arr, t))
    f = getattr(st.m, FUNCS[what])
    da = data_array(arr, ("time", "axis"), {"time": (("time",), ts)})
    must_raise(lambda: f(da, "b", "a", dim="axis", axis=-1), ValueError, "dim and axis exclude each other")
    must_raise(lambda: f(da, "b", "a", dim="time"), ValueError, "space and time are different axes")
    must_raise(lambda: f(da, "b", "a", dim="axis", timestamps="axis"), ValueError, "space and time are different axes")
    must_raise(lambda: f(da, "b", "a", dim="other"), ValueError, "an unknown dimension")
    must_raise(lambda: f(da, "b", "a", timestamps="other"), ValueError, "an unknown time dimension")
    must_raise(lambda: f(arr, "b", "a", dim="axis"), ValueError, "a dimension name needs a DataArray")
    must_raise(lambda: f(da, "nowhere", "a"), ValueError, "an unknown target frame")
    must_raise(lambda: f(da, "b", "nowhere"), ValueError, "an unknown source frame")
    must_raise(lambda: f(arr, "b"), ValueError, "arrays need a source frame")
    ok(not st.calls, "nothing is transformed")
