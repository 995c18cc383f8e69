"""C23: ROS messages, transform broadcaster, transformer, bags.

ROS itself is replaced by message classes with the fields of the real definitions and transports that record what
they are given (rosstub.py); pandas by its contract for an index of timestamps; ReferenceFrame.lookup_transform and
lookup_twist by arbitrary results (their contracts are C01 and C20); anytree.PreOrderIter by a sequence that contains
every frame of a tree of any size once.
"""
import types as _types

from contracts.frames import *
import rosstub

ASSUMES = [
    'ROS message classes are records with the fields of the real definitions, publishers/buffers/bags record what they are given (rosstub.py)',
    "pandas.Index.get_indexer(method='nearest') and pandas.to_datetime by their contracts",
    'anytree.PreOrderIter yields every frame of the tree exactly once',
    'lookup_transform and lookup_twist are replaced by arbitrary results (contracts C01, C21)',
    'seconds are exact reals (floats lose sub-microsecond precision for current dates)',
]

MSG = ["ros.msg." + f for f in ("make_transform_msg", "unpack_transform_msg", "make_pose_msg", "unpack_pose_msg", "make_twist_msg", "unpack_twist_msg",
                                "make_vector_msg", "unpack_vector_msg", "make_point_msg", "unpack_point_msg", "make_quaternion_msg", "unpack_quaternion_msg")]
TRF = ["ros.transformer.Transformer." + f for f in ("__init__", "from_reference_frame", "set_transform_static", "set_transforms", "can_transform", "lookup_transform",
                                                    "transform_vector", "transform_point", "transform_quaternion", "transform_pose")]
BRO = ["ros.transformer.ReferenceFrameTransformBroadcaster." + f for f in ("__init__", "publish", "handle_incoming_msg", "_spin_blocking", "spin", "stop")]
BAG = ["ros.io.RosbagWriter." + f for f in ("__init__", "__enter__", "__exit__", "write_transform_stamped", "write_transform_stamped_dataset")]
READ = ["ros.io.RosbagReader." + f for f in ("__init__", "__enter__", "__exit__", "_get_msg_type", "get_topics_and_types", "load_messages", "load_dataset")]


# ------------------------------------------------------------------ pandas
TO_NS = T.fn("pd_to_ns", T.RS, T.IS)


class Stamp:
    """pd.Timestamp of a time in seconds."""

    def __init__(self, sec):
        self.sec = sec

    def sym_subst(self, k, t):
        return Stamp(seqs.subst(self.sec, k, t))


class PdIndex:
    def __new__(cls, a):
        if isinstance(a, PdIndex):
            a = a.values
        r = object.__new__(PdDatetimeIndex if S.asarray(a).dtype.kind == "M" else PdIndex)
        r.values = S.asarray(a)
        for m in ("nearest", "pad", "backfill"):
            nearest_of(r.values, m, declare=m != "nearest")
        return r

    dtype = property(lambda s: s.values.dtype)

    def symlen(self):
        return self.values.symlen()

    def __getitem__(self, i):
        return PdIndex(self.values[i]) if isinstance(i, slice) else self.values[i]

    def __array__(self, *a, **k):
        raise Unsupported("native conversion of an index")

    def __symarray__(self):
        return self.values

    def get_indexer(self, targets, method=None, **k):
        if method not in ("nearest", "pad", "ffill", "backfill", "bfill") or k:
            raise Unsupported("get_indexer(method=%r)" % (method,))
        out = [nearest(self.values, x, isinstance(self, PdDatetimeIndex), method) for x in targets]
        return S.asarray([S.scalar(i, "i") for i in out])


class PdDatetimeIndex(PdIndex):
    pass


def seconds(a, i):
    """Spec: time of sample i in seconds."""
    v = a.at((i,))
    return T.mul(v, T.Fraction(S.unit_ns(a.dtype.unit), 10**9)) if a.dtype.kind == "M" else v


def nearest_of(a, method="nearest", declare=False):
    """Assumed contract of get_indexer(method=...): time -> index of a nearest, the last earlier or the first later sample (or -1)."""
    ctx = C()
    near = ctx.store.setdefault("nearest", {})
    method = {"ffill": "pad", "bfill": "backfill"}.get(method, method)
    key = (id(a.cell), method)
    if key not in near:
        near[key] = [T.fn(ctx.fresh("index_" + method), T.RS, T.IS), False]
    f, known = near[key]
    if not known and not declare:
        near[key][1] = True
        t, i = z3.Real("nt!"), z3.Int("ni!")
        n = S.dz(a.shape[0])
        sec = lambda j: T.zreal(seconds(a, j))
        if method == "nearest":
            d = lambda j: z3.If(sec(j) >= t, sec(j) - t, t - sec(j))
            ctx.facts.append(z3.ForAll([t], z3.And(f(t) >= 0, f(t) < n), patterns=[f(t)]))
            rel = d(f(t)) <= d(i)
        else:
            back = method == "backfill"
            ctx.facts.append(z3.ForAll([t], z3.And(f(t) >= -1, f(t) < n), patterns=[f(t)]))
            good = sec(i) >= t if back else sec(i) <= t
            rel = z3.And(z3.Implies(good, z3.And(f(t) >= 0, f(t) <= i if back else f(t) >= i)), z3.Implies(f(t) >= 0, sec(f(t)) >= t if back else sec(f(t)) <= t))
        ctx.facts.append(z3.ForAll([t, i], z3.Implies(z3.And(i >= 0, i < n), rel), patterns=[z3.MultiPattern(f(t), a.at((i,)))]))
    return f


def nearest(a, x, datetimes, method="nearest"):
    """Index of a sample that is nearest to x (which one of several is open)."""
    if datetimes != isinstance(x, Stamp):
        raise TypeError("index and target have different types")
    x = x.sec if datetimes else x
    x = T.zreal(x.item_term() if isinstance(x, S.SymArray) else x)
    ctx, f = C(), nearest_of(a, method)
    ctx.assume(z3.And(f(x) >= (0 if method == "nearest" else -1), f(x) < T.zint(S.dz(a.shape[0]))))
    return f(x)


def to_datetime(x, unit=None, **k):
    if unit != "s" or k:
        raise Unsupported("to_datetime")
    a = S.asarray(x)
    if a.ndim == 0:
        return Stamp(a)
    g = a.reader()
    return S.SymArray(a.shape, S.DT("M", "ns"), lambda idx: TO_NS(T.zreal(g(idx))))


class Ros:
    """The modules of ROS and pandas as the program sees them; what they are asked and what they answer."""

    def __init__(self, ctx):
        self.bags, self.quit, self.slept, self.asked, self.answers = [], [], [], [], {}
        mods, self.made = rosstub.modules(log=seqs.SymList, world=self)
        pd = _types.ModuleType("pandas")
        pd.Index, pd.DatetimeIndex, pd.to_datetime = PdIndex, PdDatetimeIndex, to_datetime
        mods["pandas"] = pd
        ctx.store["preorder"] = lambda root: self.preorder(root)
        ctx.store["shims"] = mods
        self.msg = mod("ros.msg")

    def preorder(self, root):
        raise Unsupported("no tree")

    def shutdown(self):
        return self.quit.pop(0) if self.quit else True

    def sleep(self, dt):
        self.slept.append(dt)

    def lookup(self, target, source, time):
        self.asked.append(("lookup", target, source, time))
        return self.transform

    def can(self, target, source, time):
        self.asked.append(("can", target, source, time))
        return self.possible

    def do(self, what, m, t):
        self.asked.append((what, m, t))
        return self.answers[what]

    def read(self, bag, topics):
        ok(topics == self.topic and bag is self.bags[-1] and not bag.closed, "messages of the requested topic are read")
        return self.messages

    def info(self, bag):
        return self.types


# ------------------------------------------------------------------ messages
def term(x):
    """Value of a number in a message."""
    a = S.asarray(x) if not isinstance(x, (int, float)) else None
    return T.Fraction(x) if a is None else T.zreal(a.item_term()) if T.is_z3(a.item_term()) else a.item_term()


def same(x, v, what, extra=()):
    if isinstance(x, (str, type(None))):
        return ok(False, what, "%r" % (x,))
    C().prove(T.cmp("==", term(x), term(v) if not T.is_z3(v) else v), what, extra=list(extra))


def fields(msg, names, values, what, extra=()):
    for nm, v in zip(names, values):
        same(getattr(msg, nm), v, "%s: field %s" % (what, nm), extra)


def header(msg, frame, time, what, extra=()):
    ok(isinstance(msg.header.stamp, rosstub.Time), what + ": stamp is a time")
    same(msg.header.stamp.to_sec(), time, what + ": stamp", extra)
    ok(msg.header.frame_id == frame, what + ": frame id", "%r instead of %r" % (msg.header.frame_id, frame))


def is_transform(msg, t, r, frame, child, time, what, extra=()):
    ok(type(msg) is rosstub.TransformStamped, what + ": type", type(msg).__name__)
    header(msg, frame, time, what, extra)
    ok(msg.child_frame_id == child, what + ": child frame id", repr(msg.child_frame_id))
    fields(msg.transform.translation, "xyz", t, what + ": translation", extra)
    fields(msg.transform.rotation, "wxyz", r, what + ": rotation", extra)


def is_pose(msg, t, r, frame, time, what, extra=()):
    ok(type(msg) is rosstub.PoseStamped, what + ": type", type(msg).__name__)
    header(msg, frame, time, what, extra)
    fields(msg.pose.position, "xyz", t, what + ": position", extra)
    fields(msg.pose.orientation, "wxyz", r, what + ": orientation", extra)


def is_twist(msg, v, w, frame, time, what, extra=()):
    ok(type(msg) is rosstub.TwistStamped, what + ": type", type(msg).__name__)
    header(msg, frame, time, what, extra)
    fields(msg.twist.linear, "xyz", v, what + ": linear", extra)
    fields(msg.twist.angular, "xyz", w, what + ": angular", extra)


def vec(name, n, how="array"):
    a = real_array(name, (n,))
    v = [a.at((i,)) for i in range(n)]
    if how == "tuple":
        return tuple(a[i] for i in range(n)), v
    return a, v


def number(name):
    return S.scalar(z3.Real(C().fresh(name)), "f")


def tup(x, v, what):
    ok(isinstance(x, tuple) and len(x) == len(v), what + ": a tuple of %d" % len(v), repr(type(x)))
    if isinstance(x, tuple):
        for i, (a, b) in enumerate(zip(x, v)):
            same(a, b, "%s: component %d" % (what, i))


@contract("C23", MSG, how=["array", "tuple"], stamped=[True, False], timed=[True, False])
def messages(ctx, how, stamped, timed):
    """Every component in its field; unpacking restores the values."""
    ros = Ros(ctx)
    m = ros.msg
    t, tv = vec("t", 3, how)
    r, rv = vec("r", 4, how)
    w, wv = vec("w", 3, how)
    time = number("time")
    k = {"time": time} if timed else {}
    when = time.item_term() if timed else 0

    a = m.make_transform_msg(t, r, "f", "c", **k)
    is_transform(a, tv, rv, "f", "c", when, "make_transform_msg")
    p, o = m.unpack_transform_msg(a, stamped=True) if stamped else m.unpack_transform_msg(a.transform)
    tup(p, tv, "unpack_transform_msg: translation"), tup(o, rv, "unpack_transform_msg: rotation")

    a = m.make_pose_msg(t, r, "f", **k)
    is_pose(a, tv, rv, "f", when, "make_pose_msg")
    p, o = m.unpack_pose_msg(a, stamped=True) if stamped else m.unpack_pose_msg(a.pose)
    tup(p, tv, "unpack_pose_msg: position"), tup(o, rv, "unpack_pose_msg: orientation")

    a = m.make_twist_msg(t, w, "f", **k)
    is_twist(a, tv, wv, "f", when, "make_twist_msg")
    p, o = m.unpack_twist_msg(a, stamped=True) if stamped else m.unpack_twist_msg(a.twist)
    tup(p, tv, "unpack_twist_msg: linear"), tup(o, wv, "unpack_twist_msg: angular")

    for nm, field, cls, names, x, v in (("vector", "vector", rosstub.Vector3Stamped, "xyz", t, tv), ("point", "point", rosstub.PointStamped, "xyz", t, tv),
                                        ("quaternion", "quaternion", rosstub.QuaternionStamped, "wxyz", r, rv)):
        a = getattr(m, "make_%s_msg" % nm)(x, "f", **k)
        what = "make_%s_msg" % nm
        ok(type(a) is cls, what + ": type", type(a).__name__)
        header(a, "f", when, what)
        fields(getattr(a, field), names, v, what)
        un = getattr(m, "unpack_%s_msg" % nm)
        tup(un(a, stamped=True) if stamped else un(getattr(a, field)), v, "unpack_%s_msg" % nm)


# --------------------------------------------------------------- transformer
UNITS = [("f", None), ("M", "ns"), ("M", "s")]


def frame_of(m, name, parent, **kw):
    f = object.__new__(m.ReferenceFrame)
    f.__dict__.update(name=name, translation=None, rotation=None, timestamps=None, discrete=False)
    f.__dict__.update(kw)
    f.__dict__["_NodeMixin__parent"] = parent
    return f


@contract("C23", TRF[2:4] + ["ros.msg.static_rf_to_transform_msg", "core._timestamps_to_sec"], unit=UNITS + [("M", "ms"), ("i", None)])
def set_transforms(ctx, unit):
    """Every sample of a frame is passed on once, with its time in seconds."""
    ros = Ros(ctx)
    tr = mod("ros.transformer")
    rf = mod("reference_frames")
    rf.ReferenceFrame.__del__ = lambda s: None
    n = fresh_int("n", 1)
    t, r = real_array("t", (n, 3), owner="stored translation"), real_array("r", (n, 4), owner="stored rotation")
    ts = timestamps("ts", n, kind=unit[0], unit=unit[1], owner="stored timestamps")
    par = frame_of(rf, "p", frame_of(rf, "top", None))
    f = frame_of(rf, "f", par, translation=t, rotation=r, timestamps=ts)
    s = tr.Transformer()
    s.set_transforms(f)
    sent(s._buffer.sent, n, lambda m, i, e: is_transform(m, v_at(t, (i,), 1), q_at(r, (i,), 1), "p", "f", seconds(ts, i), "set_transforms", e))
    ok(len(s._buffer.static) == 0, "no static transforms")
    g = frame_of(rf, "g", par, translation=real_array("gt", (3,)), rotation=real_array("gr", (4,)))
    s = tr.Transformer()
    s.set_transform_static(g)
    ok(len(s._buffer.static) == 1 and len(s._buffer.sent) == 0, "one static transform")
    m = s._buffer.static[0]
    gt, gr = [g.translation.at((c,)) for c in range(3)], [g.rotation.at((c,)) for c in range(4)]
    is_transform(m, gt, gr, "p", "g", 0, "set_transform_static")
    x = number("time")
    is_transform(ros.msg.static_rf_to_transform_msg(g, time=x), gt, gr, "p", "g", x, "static_rf_to_transform_msg")


def sent(lst, n, check):
    """Obligation: lst has one message for each of n samples, in order."""
    ctx = C()
    parts = lst.parts
    if len(parts) == 1 and not isinstance(parts[0], tuple) and parts[0].cond is None:
        ctx.prove(T.cmp("==", S.dz(parts[0].n), S.dz(n)), "one message per sample")
        i = z3.Int(ctx.fresh("i"))
        check(parts[0].item(i), i, [i >= 0, i < S.dz(n)])
        return
    # any other structure: the number of messages and the i-th of them
    ctx.prove(T.cmp("==", S.dz(lst.symlen()), S.dz(n)), "one message per sample")
    i = fresh_int("i", 0)
    ctx.assume(i.e < S.dz(n))
    check(lst[i], i.e, [])


@contract("C23", TRF[:2], unit=UNITS)
def from_reference_frame(ctx, unit):
    """Every frame but the root is passed on once, by the method for its kind; the buffer keeps the whole recording."""
    ros = Ros(ctx)
    tr = mod("ros.transformer")
    rf = mod("reference_frames")
    tr.Transformer.set_transform_static = lambda s, f: s._buffer.static.append(mkint(f._k))
    tr.Transformer.set_transforms = lambda s, f: s._buffer.sent.append(mkint(f._k))
    n = fresh_int("nframes", 1)
    fam = Family(rf, "tree", n, kinds=(STATIC, CONT, DISC), tkind=unit[0], unit=unit[1])
    ctx.assume(fam.K(z3.IntVal(0)) == STATIC)
    top = frame_of(rf, "top", None)
    fam.cls.parent = property(lambda s: None if ctx.branch(T.zint(s._k) == 0) else top)
    fam.cls.root = property(lambda s: fam.frame(z3.IntVal(0)))
    fam.cls.__hash__ = object.__hash__

    def preorder(root):
        ok(isinstance(root, fam.cls) and ctx.holds(T.zint(root._k) == 0), "the tree is traversed from its root")
        return fam.seq()

    ros.preorder = preorder
    j = fresh_int("start", 0)
    ctx.assume(j.e < n.e)
    got = tr.Transformer.from_reference_frame(fam.frame(j.e))
    once(got._buffer.static, n, lambda k: z3.And(k >= 1, fam.is_kind(k, STATIC)), "static frames are passed on once")
    once(got._buffer.sent, n, lambda k: z3.And(k >= 1, z3.Not(fam.is_kind(k, STATIC))), "moving frames are passed on once")
    a, b = z3.Ints("a! b!")
    moving = [a >= 1, a < n.e, z3.Not(fam.is_kind(a, STATIC)), b >= 1, b < n.e, z3.Not(fam.is_kind(b, STATIC)), fam.N(a) >= 1, fam.N(b) >= 1]
    cache = got._buffer.cache_time
    if cache is None:
        ctx.prove(z3.BoolVal(False), "default cache only without moving frames", extra=moving)
    else:
        sec = lambda k, i: T.mul(fam.ts_(k, i), T.Fraction(S.unit_ns(unit[1]), 10**9)) if unit[0] == "M" else fam.ts_(k, i)
        ctx.prove(T.cmp(">=", term(cache.to_sec()), T.sub(sec(a, fam.N(a) - 1), sec(b, z3.IntVal(0)))), "the buffer keeps the whole recording", extra=moving)


def once(lst, n, want, what):
    ctx = C()
    parts = lst.parts
    k = z3.Int(ctx.fresh("k"))
    rng = [k >= 0, k < n.e]
    segs = [p for p in parts if not isinstance(p, tuple)]
    items = [p[1] for p in parts if isinstance(p, tuple)]
    if items or len(segs) > 1:
        raise Unsupported("messages in several groups")
    if not segs:
        ctx.prove(T.lnot(want(k)), what, extra=rng)
        return
    p = segs[0]
    ctx.prove(T.cmp("==", S.dz(p.n), n.e), what + ": range")
    ctx.prove(T.zbool(p.c(k)) == want(k), what, extra=rng)
    v = p.item(k)
    ctx.prove(T.cmp("==", v.e if isinstance(v, SInt) else v, k), what + ": the frame itself", extra=rng + [want(k)])


@contract("C23", TRF[:1] + TRF[4:])
def queries(ctx):
    """Lookups ask the buffer for the given frames and time, and pass its answer on."""
    ros = Ros(ctx)
    tr = mod("ros.transformer")
    t, tv = vec("t", 3)
    r, rv = vec("r", 4)
    a, av = vec("a", 3)
    b, bv = vec("b", 4)
    ros.transform = ros.msg.make_transform_msg(t, r, "tt", "ss")
    vm, pm, om = rosstub.Vector3Stamped(), rosstub.PointStamped(), rosstub.PoseStamped()
    vm.vector, pm.point = rosstub.Vector3(*a), rosstub.Point(*a)
    om.pose.position, om.pose.orientation = rosstub.Point(*a), rosstub.Quaternion(b[1], b[2], b[3], b[0])
    ros.answers = {"vector": vm, "point": pm, "pose": om}
    ros.possible = object()
    time = number("time")
    s = tr.Transformer(cache_time=number("cache"))
    x, xv = vec("x", 3)
    q, qv = vec("q", 4)

    def asked(what, k=None, check=None):
        calls, ros.asked = ros.asked, []
        look = [c for c in calls if c[0] in ("lookup", "can")]
        ok(len(look) == 1 and look[0][1:3] == ("T", "S"), what + ": frames", repr(look))
        if len(look) == 1:
            same(look[0][3].to_sec(), time, what + ": time")
        if k:
            do = [c for c in calls if c[0] == k]
            ok(len(do) == 1 and do[0][2] is ros.transform, what + ": the transform of the buffer is applied")
            if len(do) == 1:
                header(do[0][1], "S", time, what + ": message")
                check(do[0][1])

    ok(s.can_transform("T", "S", time) is ros.possible, "can_transform: answer")
    asked("can_transform")
    p, o = s.lookup_transform("T", "S", time)
    tup(p, tv, "lookup_transform: translation"), tup(o, rv, "lookup_transform: rotation")
    asked("lookup_transform")
    tup(s.transform_vector(x, "T", "S", time), av, "transform_vector")
    asked("transform_vector", "vector", lambda m: fields(m.vector, "xyz", xv, "transform_vector: message"))
    tup(s.transform_point(x, "T", "S", time), av, "transform_point")
    asked("transform_point", "point", lambda m: fields(m.point, "xyz", xv, "transform_point: message"))
    tup(s.transform_quaternion(q, "T", "S", time), bv, "transform_quaternion")
    asked("transform_quaternion", "pose", lambda m: fields(m.pose.orientation, "wxyz", qv, "transform_quaternion: message"))
    p, o = s.transform_pose(x, q, "T", "S", time)
    tup(p, av, "transform_pose: position"), tup(o, bv, "transform_pose: orientation")

    def both(m):
        fields(m.pose.position, "xyz", xv, "transform_pose: message"), fields(m.pose.orientation, "wxyz", qv, "transform_pose: message")
    asked("transform_pose", "pose", both)


# --------------------------------------------------------------- broadcaster
class Setup:
    def __init__(self, ctx, unit, base="default", pose=False, twist=False, subscribe=False, by_name=False):
        self.ros = Ros(ctx)
        self.tr = mod("ros.transformer")
        rf = mod("reference_frames")
        rf.ReferenceFrame.__del__ = lambda s: None
        self.unit = unit
        self.par, self.other = frame_of(rf, "par", None), frame_of(rf, "other", None)
        self.f = frame_of(rf, "f", self.par)
        rf._registry.update({"f": self.f, "other": self.other, "par": self.par})
        self.base = {"default": self.par, "other": self.other}[base]
        if unit is None:
            self.t, self.r, self.ts = real_array("t", (3,)), real_array("r", (4,)), None
        else:
            self.n = fresh_int("n", 1)
            self.t, self.r = real_array("t", (self.n, 3)), real_array("r", (self.n, 4))
            self.ts = timestamps("ts", self.n, kind=unit[0], unit=unit[1])
            self.v, self.w = real_array("v", (self.n, 3)), real_array("w", (self.n, 3))

        def lookup_transform(f, outof=None, into=None):
            to = outof if outof is not None else f.parent
            ok(f is self.f and (to is self.base or to == self.base.name) and into is None, "the transform of the frame in its base is looked up")
            return self.t, self.r, self.ts

        def lookup_twist(f, reference=None, represent_in=None, outlier_thresh=None, cutoff=None, mode="quaternion", allow_static=False):
            ref = reference if reference is not None else f.parent
            rep = represent_in if represent_in is not None else f.parent
            ok(f is self.f and (ref is self.base or ref == self.base.name), "the twist of the frame with respect to its base is looked up", repr(ref))
            ok(rep is self.f or rep == "f", "the twist is represented in the frame")
            self.twist_args = (cutoff, outlier_thresh)
            return self.v, self.w

        rf.ReferenceFrame.lookup_transform = lookup_transform
        rf.ReferenceFrame.lookup_twist = lookup_twist
        kw = {}
        if base == "other":
            kw["base"] = "other" if by_name else self.other
        self.b = self.tr.ReferenceFrameTransformBroadcaster("f" if by_name else self.f, publish_pose=pose, publish_twist=twist, subscribe=subscribe, **kw)

    def publisher(self, topic):
        got = [r for r in self.ros.made if r.args and r.args[0] == topic]
        ok(len(got) == 1, "one publisher or subscriber for " + topic, repr([r.args for r in self.ros.made]))
        if len(got) != 1:
            raise PathEnd()
        return got[0]

    def sample(self, i):
        """(translation, rotation, time) of sample i."""
        if self.unit is None:
            return [self.t.at((c,)) for c in range(3)], [self.r.at((c,)) for c in range(4)], 0
        return v_at(self.t, (i,), 1), q_at(self.r, (i,), 1), seconds(self.ts, i)

    def check(self, i, pose, twist, k=-1, count=1):
        t, r, s = self.sample(i)
        tf = [x for x in self.ros.made if not x.args]
        ok(len(tf) == 1 and len(tf[0].sent) == count, "one transform is broadcast")
        is_transform(tf[0].sent[k], t, r, self.base.name, "f", s, "broadcast")
        if pose:
            p = self.publisher("/f/pose")
            ok(len(p.sent) == count, "one pose is published")
            is_pose(p.sent[k], t, r, self.base.name, s, "pose")
        if twist:
            p = self.publisher("/f/twist")
            ok(len(p.sent) == count, "one twist is published")
            is_twist(p.sent[k], v_at(self.v, (i,), 1), v_at(self.w, (i,), 1), "f", s, "twist")


MOVING = [u for u in UNITS] + [("M", "us")]


@contract("C23", BRO[:2] + MSG[:1] + ["core._resolve_rf", "core._timestamps_to_sec"], unit=MOVING + [None], base=["default", "other"], extra=["none", "pose", "twist", "both"], index=["int", "array", "zero", "own"])
def publish(ctx, unit, base, extra, index):
    """publish(idx) sends exactly the sample idx of the transform in the base."""
    pose, twist = extra in ("pose", "both"), extra in ("twist", "both")
    if unit is None and (twist or index != "own"):
        return ctx.prove(True, "not applicable")
    st = Setup(ctx, unit, base, pose, twist, by_name=extra == "both")
    if unit is None:
        st.b.publish()
        return st.check(None, pose, False)
    i = fresh_int("i", 0)
    ctx.assume(i.e < st.n.e)
    if index == "int":
        st.b.publish(i)
        st.check(i.e, pose, twist)
    elif index == "array":
        st.b.publish(S.scalar(i.e, "i"))
        st.check(i.e, pose, twist)
    elif index == "zero":
        st.b.idx = i
        st.b.publish(0)
        st.check(z3.IntVal(0), pose, twist)
    else:
        st.b.idx = i
        st.b.publish()
        st.check(i.e, pose, twist)


class Word:
    """A string of which only equality with the awaited frame id is of interest."""

    _sym_str = True

    def __init__(self, is_it, name):
        self.is_it, self.name = is_it, name

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        ok(o == self.name, "messages are compared with the awaited frame", repr(o))
        return E.mkbool(self.is_it)

    def __ne__(self, o):
        return E.mkbool(T.lnot(self.is_it))

    __hash__ = None


@contract("C23", BRO[:3] + ["core._timestamps_to_sec"], unit=UNITS + [None], subscribe=[True, "name"], pose=[False, True])
def incoming(ctx, unit, subscribe, pose):
    """For every incoming transform of the awaited frame the sample nearest in time is published."""
    st = Setup(ctx, unit, "other", pose=pose, subscribe=subscribe)
    sub = st.publisher("/tf")
    ok(sub.args[1] is rosstub.tfMessage, "type of the subscribed messages")
    callback = sub.args[2] if len(sub.args) > 2 else sub.kw.get("callback")
    n = fresh_int("nmsg", 0)
    hit, when = T.fn("hit", T.IS, T.BS), T.fn("when", T.IS, T.RS)

    def item(k):
        m = rosstub.TransformStamped()
        m.child_frame_id = Word(hit(T.zint(k)), "other" if subscribe is True else "name")
        m.header.stamp = rosstub.Time()
        m.header.stamp.exact = S.scalar(when(T.zint(k)), "f")
        return m

    msg = rosstub.tfMessage()
    msg.transforms = seqs.SymList([seqs.Seg(n, item)])
    callback(msg)
    tf = [x for x in st.ros.made if not x.args]
    out = tf[0].sent
    lists = [(out, "broadcast", False)] + ([(st.publisher("/f/pose").sent, "pose", True)] if pose else [])
    for lst, what, is_p in lists:
        k = z3.Int(ctx.fresh("k"))
        rng = [k >= 0, k < n.e]
        parts = lst.parts
        if any(isinstance(p, tuple) for p in parts) or len(parts) > 1:
            raise Unsupported("messages in several groups")
        if not parts:
            ctx.prove(z3.Not(hit(k)), what + ": one message per incoming transform of the awaited frame", extra=rng)
            continue
        p = parts[0]
        ctx.prove(T.cmp("==", S.dz(p.n), n.e), what + ": every incoming transform is handled")
        ctx.prove(T.zbool(p.c(k)) == hit(k), what + ": one message per incoming transform of the awaited frame", extra=rng)
        m = p.item(k)
        i = None if unit is None else nearest(st.ts, Stamp(S.scalar(when(k), "f")) if unit[0] == "M" else S.scalar(when(k), "f"), unit[0] == "M")
        t, r, s = st.sample(i)
        (is_pose(m, t, r, "other", s, what, rng + [hit(k)]) if is_p else is_transform(m, t, r, "other", "f", s, what, rng + [hit(k)]))


@contract("C23", BRO[3:] + BRO[1:2] + ["core._timestamps_to_sec"], unit=UNITS + [None], steps=[1, 2])
def spin(ctx, unit, steps):
    """Spinning publishes the samples in turn, starting over after the last one (from any state: by induction forever)."""
    st = Setup(ctx, unit)
    if unit is None:
        st.b.spin(block=True)
        return st.check(None, False, False)
    i = fresh_int("i", 0)
    ctx.assume(i.e < st.n.e)
    st.b.idx = i
    st.ros.quit = [False] * steps + [True]
    st.b.spin(block=True)
    tf = [x for x in st.ros.made if not x.args][0]
    ok(len(tf.sent) == steps, "one transform per round")
    at = i.e
    for k in range(steps):
        t, r, s = st.sample(at)
        is_transform(tf.sent[k], t, r, "par", "f", s, "round %d" % k)
        at = z3.If(at + 1 == st.n.e, 0, at + 1)
    nxt = st.b.idx
    ctx.prove(T.cmp("==", nxt.e if isinstance(nxt, SInt) else nxt if isinstance(nxt, int) else nxt.item_term(), at), "the next sample comes next")
    ok(st.b.stopped is True, "stopped")
    st.b.stopped = False
    st.b.stop()
    ok(bool(st.b.stopped), "stop")


# ---------------------------------------------------------------------- bags
@contract("C23", BAG[:4] + MSG[:1], unit=[("f", None), ("i", None)])
def write(ctx, unit):
    """Every sample is written once, in order."""
    ros = Ros(ctx)
    io = mod("ros.io")
    n = fresh_int("n", 0)
    t, r = real_array("t", (n, 3)), real_array("r", (n, 4))
    ts = real_array("ts", (n,), kind=unit[0])
    w = io.RosbagWriter("some/file.bag")
    with w as o:
        ok(o is w and len(ros.bags) == 1 and ros.bags[0].mode == "w" and str(ros.bags[0].path) == "some/file.bag", "the file is opened for writing")
        w.write_transform_stamped(ts, t, r, "/topic", "p", "c")
    ok(ros.bags[0].closed is True, "the file is closed")
    written(ros.bags[0].written, n, t, r, lambda i: ts.at((i,)))


def written(lst, n, t, r, time):
    def check(m, i, e):
        ok(isinstance(m, tuple) and m[0] == "/topic", "topic")
        is_transform(m[1], v_at(t, (i,), 1), q_at(r, (i,), 1), "p", "c", time(i), "written message", e)
    sent(lst, n, check)


@contract("C23", BAG + ["core._timestamps_to_sec"], unit=UNITS + [("M", "ms")], names=[False, True])
def write_dataset(ctx, unit, names):
    """Every sample of a dataset is written once, in order, at its time in seconds."""
    from pyvc import symxr as X
    ros = Ros(ctx)
    io = mod("ros.io")
    n = fresh_int("n", 1)
    t, r = real_array("t", (n, 3)), real_array("r", (n, 4))
    ts = timestamps("ts", n, kind=unit[0], unit=unit[1])
    nt, nr, nts = ("pos", "rot", "when") if names else ("position", "orientation", "time")
    dim = nts
    ds = X.Dataset({nt: ((dim, "cartesian_axis"), t), nr: ((dim, "quaternion_axis"), r)}, {dim: ts})
    with io.RosbagWriter("file.bag") as w:
        if names:
            w.write_transform_stamped_dataset(ds, "/topic", "p", "c", timestamps=nts, translation=nt, rotation=nr)
        else:
            w.write_transform_stamped_dataset(ds, "/topic", "p", "c")
    ok(ros.bags[0].closed is True, "the file is closed")
    written(ros.bags[0].written, n, t, r, lambda i: seconds(ts, i))


@contract("C23", BAG[3:4], bad=["ts", "t rows", "t cols", "r rows", "r cols"])
def write_rejects(ctx, bad):
    ros = Ros(ctx)
    io = mod("ros.io")
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    ctx.assume(n.e != m.e)
    k = fresh_int("cols", 0)
    ctx.assume(k.e != (3 if bad[0] == "t" else 4))
    ts = real_array("ts", (n, m) if bad == "ts" else (n,))
    t = real_array("t", (m, 3) if bad == "t rows" else (n, k) if bad == "t cols" else (n, 3))
    r = real_array("r", (m, 4) if bad == "r rows" else (n, k) if bad == "r cols" else (n, 4))
    with io.RosbagWriter("file.bag") as w:
        must_raise(lambda: w.write_transform_stamped(ts, t, r, "/topic", "p", "c"), ValueError, "arrays of different lengths are rejected")
        ok(len(ros.bags[0].written) == 0, "nothing is written")


class Info(tuple):
    msg_types = property(lambda s: s[0])
    topics = property(lambda s: s[1])


class TopicInfo(tuple):
    msg_type = property(lambda s: s[0])


def bag_messages(ctx, kind, n):
    stamp = T.fn("stamp", T.IS, T.RS)
    f = {nm: [T.fn("%s_%s" % (nm, c), T.IS, T.RS) for c in cs] for nm, cs in (("p", "xyz"), ("q", "wxyz"), ("v", "xyz"), ("w", "xyz"))}
    sc = lambda g, k: S.scalar(g(T.zint(k)), "f")

    def item(k):
        m = rosstub.Odometry() if kind == "odom" else rosstub.TransformStamped()
        m.header.stamp = rosstub.Time()
        m.header.stamp.exact = sc(stamp, k)
        p, q, v, w = ([sc(g, k) for g in f[nm]] for nm in "pqvw")
        if kind == "odom":
            m.pose.pose.position, m.pose.pose.orientation = rosstub.Point(*p), rosstub.Quaternion(q[1], q[2], q[3], q[0])
            m.twist.twist.linear, m.twist.twist.angular = rosstub.Vector3(*v), rosstub.Vector3(*w)
        else:
            m.transform.translation, m.transform.rotation = rosstub.Vector3(*p), rosstub.Quaternion(q[1], q[2], q[3], q[0])
        other = rosstub.Time()
        other.exact = S.scalar(z3.Real("received"), "f")
        return ("/topic", m, other)

    return seqs.SymList([seqs.Seg(n, item)]), stamp, f


@contract("C23", READ, kind=["odom", "transform"])
def read(ctx, kind):
    """Every message of the topic becomes one sample."""
    ros = Ros(ctx)
    io = mod("ros.io")
    n = fresh_int("n", 1)
    ros.topic = "/topic"
    ros.messages, stamp, f = bag_messages(ctx, kind, n)
    ros.types = Info(({}, {"/topic": TopicInfo(({"odom": "nav_msgs/Odometry", "transform": "geometry_msgs/TransformStamped"}[kind], 3)), "/x": TopicInfo(("std/X", 1))}))
    rd = io.RosbagReader("dir/file.bag")
    must_raise(lambda: rd.load_messages("/topic"), RuntimeError, "reading needs an open file")
    with rd as o:
        ok(o is rd and ros.bags[-1].mode == "r" and str(ros.bags[-1].path) == "dir/file.bag", "the file is opened for reading")
        types_ = rd.get_topics_and_types()
        ok(dict(types_) == {"/topic": ros.types[1]["/topic"][0], "/x": "std/X"}, "topics and types")
        got = rd.load_messages("/topic")
        ds = rd.load_dataset("/topic")
        must_raise(lambda: rd.load_messages("/x"), ValueError, "unknown message types are rejected")
    ok(ros.bags[-1].closed is True, "the file is closed")
    col = lambda gs: (lambda idx: sel([g(T.zint(idx[0])) for g in gs], idx[1]))
    want = {"position": (3, "p"), "orientation": (4, "q")}
    if kind == "odom":
        want.update(linear_velocity=(3, "v"), angular_velocity=(3, "w"))
    ok(set(got) == set(want) | {"timestamps"}, "entries of the result", repr(sorted(got)))
    check_array(got["timestamps"], (n,), lambda idx: stamp(T.zint(idx[0])), "timestamps")
    axes = {3: ("cartesian_axis", "xyz"), 4: ("quaternion_axis", "wxyz")}
    ok(set(ds.data_vars) == set(want), "variables of the dataset", repr(list(ds.data_vars)))
    for nm, (c, g) in want.items():
        check_array(got[nm], (n, c), col(f[g]), nm)
        check_da(ds[nm], ("time", axes[c][0]), nm, {}, "dataset: " + nm)
        check_array(ds[nm].data, (n, c), col(f[g]), "dataset: " + nm)
        check_labels(ds[nm], axes[c][0], list(axes[c][1]), "dataset: labels of " + nm)
    check_coord(ds[nm], "time", ("time",), (n,), lambda idx: TO_NS(stamp(T.zint(idx[0]))), "dataset: time", kind="M")


# -------------------------------------------------------------------- marker
@contract("C23", ["ros.visualization." + f for f in ("get_marker", "BaseMarkerPublisher.__init__", "BaseMarkerPublisher.publish", "ReferenceFrameMarkerPublisher.__init__")], base=["default", "other"], limit=["default", "one", "any"])
def marker(ctx, base, limit):
    """The path marker shows samples of the translation in the base, every n-th one."""
    ros = Ros(ctx)
    vis = mod("ros.visualization")
    rf = mod("reference_frames")
    rf.ReferenceFrame.__del__ = lambda s: None
    par, other = frame_of(rf, "par", None), frame_of(rf, "other", None)
    f = frame_of(rf, "f", par)
    n = fresh_int("n", 1)
    t = real_array("t", (n, 3))
    to = {"default": par, "other": other}[base]

    def lookup_transform(g, outof=None, into=None):
        ref = outof if outof is not None else g.parent
        ok(g is f and ref is to and into is None, "the transform of the frame in its base is looked up")
        return t, real_array("r", (n, 4)), real_array("ts", (n,))

    rf.ReferenceFrame.lookup_transform = lookup_transform
    rosstub.Marker.serialize = lambda s, buf: buf.write(b"marker")
    mp = 1000 if limit == "default" else 1 if limit == "one" else fresh_int("max_points", 1)
    p = vis.ReferenceFrameMarkerPublisher(f, base=None if base == "default" else other, **({} if limit == "default" else {"max_points": mp}))
    p.publish()
    p.publish()
    pub = [r for r in ros.made if r.args and r.args[0] == "/f/path"]
    ok(len(pub) == 1 and len(pub[0].sent) == 1, "the marker is published once")
    m = pub[0].sent[0]
    ok(m.header.frame_id == to.name, "frame id of the marker", repr(m.header.frame_id))
    pts = m.points
    mz = T.zint(mp.e if isinstance(mp, SInt) else mp)
    step = z3.If(n.e / mz > 1, n.e / mz, z3.IntVal(1))
    parts = pts.parts
    ok(len(parts) == 1 and not isinstance(parts[0], tuple) and parts[0].cond is None, "points of the marker")
    i = z3.Int("pt!")
    q = parts[0]
    rng = [i >= 0, i < S.dz(q.n)]
    item = q.item(i)
    fields(item, "xyz", v_at(t, (i * step,), 1), "point of the marker", rng)
    ctx.prove(z3.And(S.dz(q.n) >= 1, (S.dz(q.n) - 1) * step < n.e, S.dz(q.n) * step >= n.e), "the points cover the whole path")
