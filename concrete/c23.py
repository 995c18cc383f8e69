import os
import sys
import tempfile
import types
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import rosstub
import xarray as xr
from trees import *

world = types.SimpleNamespace(bags=[], shutdown=lambda: True, sleep=lambda dt: None)
mods, made = rosstub.modules(world=world)
sys.modules.update(mods)

from rigid_body_motion.ros import msg as M
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster, Transformer
from rigid_body_motion.ros.io import RosbagReader, RosbagWriter
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher

TUNITS = [None, None, "s", "ms", "us", "ns"]
T0 = np.datetime64("2021-03-04T05:06:07", "s")


def new():
    fresh_state()
    made.clear()
    world.bags.clear()


def times(rng, n):
    """(timestamps, seconds) of n samples."""
    u = TUNITS[int(rng.integers(len(TUNITS)))]
    k = np.sort(rng.choice(np.arange(4 * n + 2), n, replace=False))
    if u is None:
        t = k * 0.25 + (0.0 if rng.random() < 0.5 else 100.0)
        return t, t
    ts = (T0.astype("datetime64[%s]" % u) + k * {"s": 1, "ms": 1, "us": 1000, "ns": 10**6}[u])
    return ts, (ts - np.datetime64(0, u)).astype(float) / {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}[u]


def same(got, want, what):
    close(np.array(got, float), np.array(want, float), what, tol=1e-9)


def stamp(msg, sec, what):
    # seconds and nanoseconds of a float time
    check(abs(msg.header.stamp.to_sec() - sec) <= 1e-6, what + ": stamp", "%r instead of %r" % (msg.header.stamp.to_sec(), sec))


def xyz(m):
    return [m.x, m.y, m.z]


def wxyz(m):
    return [m.w, m.x, m.y, m.z]


def transform_is(m, t, r, frame, child, sec, what):
    check(type(m) is rosstub.TransformStamped and m.header.frame_id == frame and m.child_frame_id == child, what + ": frames", repr(rosstub.flat(m)))
    same(xyz(m.transform.translation), t, what + ": translation")
    same(wxyz(m.transform.rotation), r, what + ": rotation")
    stamp(m, sec, what)


@trial("C23", 40)
def messages(rng):
    new()
    t, w, r, s = rng.normal(size=3), rng.normal(size=3), rng.normal(size=4), float(rng.uniform(0, 100))
    if rng.random() < 0.5:
        t, w, r = tuple(t), tuple(w), tuple(r)
    m = M.make_transform_msg(t, r, "a", "b", s)
    transform_is(m, t, r, "a", "b", s, "make_transform_msg")
    for u in (M.unpack_transform_msg(m, True), M.unpack_transform_msg(m.transform)):
        same(u[0], t, "unpack_transform_msg"), same(u[1], r, "unpack_transform_msg")
    m = M.make_pose_msg(t, r, "a", s)
    same(xyz(m.pose.position), t, "make_pose_msg"), same(wxyz(m.pose.orientation), r, "make_pose_msg"), stamp(m, s, "make_pose_msg")
    for u in (M.unpack_pose_msg(m, True), M.unpack_pose_msg(m.pose)):
        same(u[0], t, "unpack_pose_msg"), same(u[1], r, "unpack_pose_msg")
    m = M.make_twist_msg(t, w, "a", s)
    same(xyz(m.twist.linear), t, "make_twist_msg"), same(xyz(m.twist.angular), w, "make_twist_msg"), stamp(m, s, "make_twist_msg")
    for u in (M.unpack_twist_msg(m, True), M.unpack_twist_msg(m.twist)):
        same(u[0], t, "unpack_twist_msg"), same(u[1], w, "unpack_twist_msg")
    for nm, field, x, get in (("vector", "vector", t, xyz), ("point", "point", t, xyz), ("quaternion", "quaternion", r, wxyz)):
        m = getattr(M, "make_%s_msg" % nm)(x, "a", s)
        same(get(getattr(m, field)), x, "make_%s_msg" % nm), stamp(m, s, "make_%s_msg" % nm)
        check(m.header.frame_id == "a", "frame id")
        un = getattr(M, "unpack_%s_msg" % nm)
        same(un(m, True), x, "unpack_%s_msg" % nm), same(un(getattr(m, field)), x, "unpack_%s_msg" % nm)


def frame(rng, name, parent, moving):
    if not moving:
        return rbm.ReferenceFrame(name, parent=parent, translation=rng.normal(size=3), rotation=quats(rng, unit=True)), None
    n = int(rng.integers(4, 10))
    ts, sec = times(rng, n)
    return rbm.ReferenceFrame(name, parent=parent, translation=rng.normal(size=(n, 3)), rotation=smooth_quats(rng, n), timestamps=ts), sec


@trial("C23", 80)
def broadcaster(rng):
    new()
    root = rbm.ReferenceFrame("root")
    mid, _ = frame(rng, "mid", root, False)
    f, sec = frame(rng, "f", mid, bool(rng.random() < 0.8))
    pose, twist = bool(rng.random() < 0.5), bool(rng.random() < 0.5) and sec is not None
    base = [None, root, mid][int(rng.integers(3))]
    sub = [False, True, "other"][int(rng.integers(3))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = ReferenceFrameTransformBroadcaster(f, base=base, publish_pose=pose, publish_twist=twist, subscribe=sub)
    bn = base or mid
    t, r, ts = f.lookup_transform(bn)
    out = b.broadcaster.sent
    pub = {p.args[0]: p for p in made if p.args}

    def check_last(i, what):
        ti, ri, si = (t, r, 0.0) if sec is None else (t[i], r[i], sec[i])
        transform_is(out[-1], ti, ri, bn.name, "f", si, what)
        if pose:
            m = pub["/f/pose"].sent[-1]
            same(xyz(m.pose.position), ti, "pose"), same(wxyz(m.pose.orientation), ri, "pose"), stamp(m, si, "pose")
            check(m.header.frame_id == bn.name, "frame of the pose")
        if twist:
            m = pub["/f/twist"].sent[-1]
            v, w = f.lookup_twist(bn, f)
            same(xyz(m.twist.linear), v[i], "twist"), same(xyz(m.twist.angular), w[i], "twist"), stamp(m, si, "twist")
            check(m.header.frame_id == "f", "frame of the twist")

    if sec is None:
        b.publish()
        check_last(None, "static broadcast")
    else:
        for i in [0] + list(rng.integers(0, len(sec), 2)):
            b.idx = int(rng.integers(len(sec)))
            b.publish(i)
            check_last(i, "broadcast")
        b.idx = int(rng.integers(len(sec)))
        b.publish()
        check_last(b.idx, "broadcast of the current index")
    if sub:
        cb = pub["/tf"].args[2]
        msg = rosstub.tfMessage([])
        want = 0
        for _ in range(4):
            m = rosstub.TransformStamped()
            hit = rng.random() < 0.5
            m.child_frame_id = ("other" if sub == "other" else bn.name) if hit else "elsewhere"
            x = 0.0 if sec is None else float(rng.uniform(sec[0] - 1e-3, sec[-1] + 1e-3))
            m.header.stamp = rosstub.Time.from_sec(x)
            msg.transforms = [m]
            n0 = len(out)
            cb(msg)
            check(len(out) == n0 + (1 if hit else 0), "one broadcast per incoming transform of the awaited frame")
            if hit and sec is not None:
                d = np.abs(sec - x)
                i = int(np.argmin(np.abs(sec - out[-1].header.stamp.to_sec())))
                check(d[i] <= d.min() + 1e-6, "the nearest sample answers an incoming message", "%r for %r of %r" % (sec[i], x, sec))
                check_last(i, "answer")
            elif hit:
                check_last(None, "answer")
    elif sec is not None:
        quit = [False] * (len(sec) + 2)
        world.shutdown = lambda: quit.pop() if quit else True
        start, n0 = b.idx, len(out)
        b.spin(block=True)
        check(len(out) == n0 + len(sec) + 2, "one broadcast per round")
        for j, m in enumerate(out[n0:]):
            i = (start + j) % len(sec)
            transform_is(m, t[i], r[i], bn.name, "f", sec[i], "spin")
        world.shutdown = lambda: True


@trial("C23", 40)
def transformer(rng):
    new()
    u = int(rng.integers(2))
    frames, moving = [rbm.ReferenceFrame("f0")], {}
    for i in range(1, int(rng.integers(2, 7))):
        f, sec = frame(rng, "f%d" % i, frames[int(rng.integers(len(frames)))], bool(rng.random() < 0.6))
        frames.append(f)
        moving[f.name] = sec
    tr = Transformer.from_reference_frame(frames[int(rng.integers(len(frames)))])
    st = {m.child_frame_id: m for m in tr._buffer.static}
    check(len(st) == len(tr._buffer.static) and set(st) == {k for k, v in moving.items() if v is None}, "static frames are passed on once")
    for f in frames[1:]:
        sec = moving[f.name]
        if sec is None:
            transform_is(st[f.name], f.translation, f.rotation, f.parent.name, f.name, 0.0, "static frame")
            continue
        got = [m for m in tr._buffer.sent if m.child_frame_id == f.name]
        check(len(got) == len(sec), "every sample is passed on once")
        for i, m in enumerate(got):
            transform_is(m, f.translation[i], f.rotation[i], f.parent.name, f.name, sec[i], "moving frame")
    check(len(tr._buffer.sent) == sum(len(v) for v in moving.values() if v is not None), "every sample is passed on once")
    mv = [v for v in moving.values() if v is not None]
    c = tr._buffer.cache_time
    if mv:
        check(c is not None and c.to_sec() >= max(v[-1] for v in mv) - min(v[0] for v in mv) - 1e-6, "the buffer keeps the whole recording")
    t, q, x, y = rng.normal(size=3), rng.normal(size=4), rng.normal(size=3), rng.normal(size=4)
    asked = []

    def lookup(a, b, time):
        asked.append((a, b, time.to_sec()))
        return M.make_transform_msg(t, q, a, b)

    def do(what, m, tf):
        asked.append((what, m, tf))
        return m

    world.lookup, world.do, world.can = lookup, do, lambda a, b, time: (a, b, time.to_sec()) == ("A", "B", 2.5)
    check(tr.can_transform("A", "B", 2.5) is True, "can_transform")
    p, o = tr.lookup_transform("A", "B", 2.5)
    same(p, t, "lookup_transform"), same(o, q, "lookup_transform")
    same(tr.transform_vector(x, "A", "B", 2.5), x, "transform_vector"), same(tr.transform_point(x, "A", "B", 2.5), x, "transform_point")
    same(tr.transform_quaternion(y, "A", "B", 2.5), y, "transform_quaternion")
    p, o = tr.transform_pose(x, y, "A", "B", 2.5)
    same(p, x, "transform_pose"), same(o, y, "transform_pose")
    for a in asked:
        if a[0] in ("vector", "point", "pose"):
            check(a[1].header.frame_id == "B" and abs(a[1].header.stamp.to_sec() - 2.5) < 1e-6, "message to be transformed")
            same(xyz(a[2].transform.translation), t, "applied transform")
        else:
            check(a == ("A", "B", 2.5), "lookup of the given frames and time")
    check([a[0] for a in asked if a[0] in ("vector", "point", "pose")] == ["vector", "point", "pose", "pose"], "kinds of transforms")


@trial("C23", 40)
def bags(rng):
    new()
    n = int(rng.integers(1, 7))
    ts, sec = times(rng, n)
    t, r = rng.normal(size=(n, 3)), rng.normal(size=(n, 4))
    ds = xr.Dataset({"position": (("time", "cartesian_axis"), t), "orientation": (("time", "quaternion_axis"), r)}, {"time": ts})
    with RosbagWriter("/nowhere/f.bag") as w:
        if rng.random() < 0.5:
            w.write_transform_stamped_dataset(ds, "/tf", "p", "c")
        else:
            w.write_transform_stamped(sec, t, r, "/tf", "p", "c")
        for bad in ((sec[:, None], t, r), (sec, t[:, :2], r), (sec, t, r[:, :3]), (np.append(sec, 1.0), t, r)):
            raises(ValueError, lambda: w.write_transform_stamped(*bad, "/tf", "p", "c"), "arrays of different lengths are rejected")
    bag = world.bags[-1]
    check(bag.closed and bag.mode == "w" and len(bag.written) == n, "every sample is written once")
    for i, (topic, m, _) in enumerate(bag.written):
        check(topic == "/tf", "topic")
        transform_is(m, t[i], r[i], "p", "c", sec[i], "written message")
    odom = bool(rng.random() < 0.5)
    v, om = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    msgs = []
    for i in range(n):
        m = bag.written[i][1]
        if odom:
            o = rosstub.Odometry()
            o.header.stamp = m.header.stamp
            o.pose.pose.position, o.pose.pose.orientation = rosstub.Point(*t[i]), rosstub.Quaternion(r[i][1], r[i][2], r[i][3], r[i][0])
            o.twist.twist.linear, o.twist.twist.angular = rosstub.Vector3(*v[i]), rosstub.Vector3(*om[i])
            m = o
        msgs.append(("/tf", m, rosstub.Time.from_sec(5e5 + i)))
    world.read = lambda bag, topics: [m for m in msgs if topics in (m[0], [m[0]])]
    info = types.SimpleNamespace(msg_type="nav_msgs/Odometry" if odom else "geometry_msgs/TransformStamped")
    world.info = lambda bag: types.SimpleNamespace(topics={"/tf": info})
    with RosbagReader("/nowhere/f.bag") as rd:
        got = rd.load_messages("/tf")
        dset = rd.load_dataset("/tf")
    check(np.allclose(got["timestamps"], sec, rtol=0, atol=1e-6), "timestamps")
    d = dset["time"].values.astype("datetime64[ns]").astype("int64") / 1e9
    check(np.allclose(d, sec, rtol=0, atol=1e-6), "times of the dataset")
    want = {"position": t, "orientation": r}
    if odom:
        want.update(linear_velocity=v, angular_velocity=om)
    check(set(dset.data_vars) == set(want), "variables")
    for k, a in want.items():
        close(got[k], a, k), close(dset[k].values, a, "dataset: " + k)
        check(dset[k].dims == ("time", "quaternion_axis" if k == "orientation" else "cartesian_axis"), "dimensions")


@trial("C23", 20)
def markers(rng):
    new()
    root = rbm.ReferenceFrame("root")
    n = int(rng.integers(2, 40))
    f = rbm.ReferenceFrame("f", parent=root, translation=rng.normal(size=(n, 3)), rotation=smooth_quats(rng, n), timestamps=np.arange(n) * 1.0)
    mp = int(rng.integers(1, 50))
    p = ReferenceFrameMarkerPublisher(f, max_points=mp)
    p.publish()
    p.publish()
    pub = [q for q in made if q.args and q.args[0] == "/f/path"][0]
    check(len(pub.sent) == 1, "the marker is published once")
    m = pub.sent[0]
    check(m.header.frame_id == "root", "frame of the marker")
    same([xyz(q) for q in m.points], f.translation[::max(n // mp, 1)], "points of the marker")
