"""Stand-ins for ROS: messages with the fields of the real definitions, transports that record what they are given.

Used by contracts/c23.py (values are symbolic) and concrete/c23.py (values are numbers).
"""
import types


class Msg:
    """A genpy message: constructed without arguments or with one value per field."""

    fields = ()
    defaults = {}
    _has_header = False

    def __init__(self, *args, **kw):
        if args and (kw or len(args) != len(self.fields)):
            raise TypeError("Invalid number of arguments, args should be %s" % (self.fields,))
        for f, v in zip(self.fields, args):
            setattr(self, f, v)
        for f in self.fields[len(args):]:
            if f in kw:
                setattr(self, f, kw[f])
            else:
                d = self.defaults.get(f, 0.0)
                setattr(self, f, d() if isinstance(d, type) else d)
        if set(kw) - set(self.fields):
            raise AttributeError("%s is not an attribute" % sorted(set(kw) - set(self.fields)))

    def __setattr__(self, k, v):
        if k not in self.fields:
            raise AttributeError("%s has no field %s" % (type(self).__name__, k))
        object.__setattr__(self, k, v)

    def sym_subst(self, k, t):
        from pyvc.seqs import subst
        r = type(self)()
        for f in self.fields:
            setattr(r, f, subst(getattr(self, f), k, t))
        return r

    def serialize(self, buf):
        buf.write(repr(flat(self)).encode())


def flat(m):
    """Content of a message as nested tuples."""
    if isinstance(m, Msg):
        return (type(m).__name__,) + tuple((f, flat(getattr(m, f))) for f in m.fields)
    if isinstance(m, list):
        return [flat(x) for x in m]
    if isinstance(m, Time):
        return ("time", m.to_sec())
    return m


class Time:
    """rospy.Time: seconds and nanoseconds; symbolic times are kept as they are."""

    def __init__(self, secs=0, nsecs=0):
        self.secs, self.nsecs, self.exact = secs, nsecs, None

    @classmethod
    def from_sec(cls, x):
        r = cls()
        if hasattr(x, "_data") or hasattr(x, "cell") or hasattr(x, "e"):
            r.exact = x
            return r
        x = float(x)
        r.secs = int(x)
        r.nsecs = int((x - r.secs) * 1000000000)
        return r

    def to_sec(self):
        if self.exact is not None:
            return self.exact
        return self.secs + self.nsecs / 1e9

    def sym_subst(self, k, t):
        from pyvc.seqs import subst
        r = type(self)()
        r.exact = subst(self.exact, k, t) if self.exact is not None else None
        return r


class Duration(Time):
    pass


def message(name, *fields, **defaults):
    return type(name, (Msg,), {"fields": tuple(fields), "defaults": defaults, "_has_header": "header" in fields})


Header = message("Header", "seq", "stamp", "frame_id", seq=0, stamp=Time, frame_id="")
Vector3 = message("Vector3", "x", "y", "z")
Point = message("Point", "x", "y", "z")
Quaternion = message("Quaternion", "x", "y", "z", "w")
Transform = message("Transform", "translation", "rotation", translation=Vector3, rotation=Quaternion)
TransformStamped = message("TransformStamped", "header", "child_frame_id", "transform", header=Header, child_frame_id="", transform=Transform)
Pose = message("Pose", "position", "orientation", position=Point, orientation=Quaternion)
PoseStamped = message("PoseStamped", "header", "pose", header=Header, pose=Pose)
Twist = message("Twist", "linear", "angular", linear=Vector3, angular=Vector3)
TwistStamped = message("TwistStamped", "header", "twist", header=Header, twist=Twist)
Vector3Stamped = message("Vector3Stamped", "header", "vector", header=Header, vector=Vector3)
PointStamped = message("PointStamped", "header", "point", header=Header, point=Point)
QuaternionStamped = message("QuaternionStamped", "header", "quaternion", header=Header, quaternion=Quaternion)
ColorRGBA = message("ColorRGBA", "r", "g", "b", "a")
Marker = message("Marker", "header", "ns", "id", "type", "action", "pose", "scale", "color", "points", header=Header, ns="", id=0, type=0, action=0,
                 pose=Pose, scale=Vector3, color=ColorRGBA, points=list)
Marker.ARROW, Marker.LINE_STRIP = 0, 4
PoseWithCovariance = message("PoseWithCovariance", "pose", "covariance", pose=Pose)
TwistWithCovariance = message("TwistWithCovariance", "twist", "covariance", twist=Twist)
Odometry = message("Odometry", "header", "child_frame_id", "pose", "twist", header=Header, child_frame_id="", pose=PoseWithCovariance, twist=TwistWithCovariance)
tfMessage = message("tfMessage", "transforms", transforms=list)


def modules(log=list, world=None):
    """{name: module}; log() makes the lists that record messages; world answers queries (see the users)."""

    class Recorder:
        def __init__(self, *a, **k):
            self.args, self.kw, self.sent = a, k, log()

        def publish(self, m):
            self.sent.append(m)

        sendTransform = publish

    class Buffer:
        def __init__(self, cache_time=None, debug=True):
            self.cache_time, self.sent, self.static = cache_time, log(), log()
            self.calls = []

        def set_transform(self, m, authority):
            self.sent.append(m)

        def set_transform_static(self, m, authority):
            self.static.append(m)

        def lookup_transform(self, target, source, time):
            self.calls.append(("lookup", target, source, time))
            return world.lookup(target, source, time)

        def can_transform(self, target, source, time):
            self.calls.append(("can", target, source, time))
            return world.can(target, source, time)

    class Bag:
        def __init__(self, path, mode="r"):
            self.path, self.mode, self.closed, self.written = path, mode, False, log()
            if world is not None:
                world.bags.append(self)

        def write(self, topic, msg, t=None):
            self.written.append((topic, msg, t))

        def close(self):
            self.closed = True

        def read_messages(self, topics=None):
            return world.read(self, topics)

        def get_type_and_topic_info(self, topic=None):
            return world.info(self)

    made = []

    def recorder(*a, **k):
        r = Recorder(*a, **k)
        made.append(r)
        return r

    M = types.SimpleNamespace
    mod = lambda name, **kw: _module(name, kw)
    out = {
        "rospy": mod("rospy", Time=Time, Duration=Duration, Publisher=recorder, Subscriber=recorder, is_shutdown=lambda: world.shutdown(),
                     sleep=lambda dt: world.sleep(dt), spin=lambda: None, loginfo=lambda *a: None),
        "geometry_msgs": mod("geometry_msgs"),
        "geometry_msgs.msg": mod("geometry_msgs.msg", Point=Point, PointStamped=PointStamped, PoseStamped=PoseStamped, Quaternion=Quaternion, QuaternionStamped=QuaternionStamped,
                                 TransformStamped=TransformStamped, TwistStamped=TwistStamped, Vector3=Vector3, Vector3Stamped=Vector3Stamped),
        "std_msgs": mod("std_msgs"), "std_msgs.msg": mod("std_msgs.msg", ColorRGBA=ColorRGBA),
        "visualization_msgs": mod("visualization_msgs"), "visualization_msgs.msg": mod("visualization_msgs.msg", Marker=Marker),
        "tf": mod("tf"), "tf.msg": mod("tf.msg", tfMessage=tfMessage),
        "tf2_ros": mod("tf2_ros", Buffer=Buffer, StaticTransformBroadcaster=recorder, TransformBroadcaster=recorder),
        "tf2_geometry_msgs": mod("tf2_geometry_msgs", do_transform_vector3=lambda m, t: world.do("vector", m, t), do_transform_point=lambda m, t: world.do("point", m, t),
                                 do_transform_pose=lambda m, t: world.do("pose", m, t)),
        "rosbag": mod("rosbag", Bag=Bag),
    }
    for k in list(out):
        if "." in k:
            a, b = k.split(".")
            setattr(out[a], b, out[k])
            out[a].__path__ = []
    return out, made


def _module(name, kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    return m
