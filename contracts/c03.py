"""C03: inverse frames and alternative constructors define the same frame."""
from contracts.frames import *
from contracts.c05 import TIMES

ASSUMES = [
    'quaternion.from_rotation_matrix of matrices that are not proper rotations is not specified',
]

CTOR = ["reference_frames.ReferenceFrame.__init__", "reference_frames.ReferenceFrame._init_arrays", "utils.qinv", "utils.rotate_vectors"]
REG = ["reference_frames.register_frame", "reference_frames._register", "reference_frames._check_name"]
FROM = ["reference_frames.ReferenceFrame.from_dataset", "reference_frames.ReferenceFrame.from_translation_dataarray",
        "reference_frames.ReferenceFrame.from_rotation_dataarray", "reference_frames.ReferenceFrame.from_rotation_matrix"]
GIVEN = ["both", "translation", "rotation", "none"]
TS = ["static", "f", "M"]


class Given:
    """Constructor arguments with arbitrary numbers, and the transform they define."""

    def __init__(self, given, times):
        self.n = None if times == "static" else fresh_int("n", 1)
        shape = () if self.n is None else (self.n,)
        self.shape = shape
        self.tr, self.q = real_array("tr", shape + (3,)), frame_quats("q", shape)
        self.ts = None if self.n is None else timestamps("ts", self.n, kind=times, unit="ms" if times == "M" else None)
        self.kw = {}
        if given in ("both", "translation"):
            self.kw["translation"] = self.tr
        if given in ("both", "rotation"):
            self.kw["rotation"] = self.q
        if self.ts is not None:
            self.kw["timestamps"] = self.ts

    def at(self, i, inverse=False):
        t = [self.tr.at(tuple(i) + (c,)) for c in range(3)] if "translation" in self.kw else [z3.RealVal(0)] * 3
        q = [self.q.at(tuple(i) + (c,)) for c in range(4)] if "rotation" in self.kw else [z3.RealVal(1)] + [z3.RealVal(0)] * 3
        if inverse:
            q = T.qinv(q)
            t = [T.neg(c) for c in T.rot(q, t)]
        return list(t), list(q)


def check_frame(rf, g, inverse, discrete, parent, what):
    check_array(rf.translation, g.shape + (3,), lambda idx: sel(g.at(idx[:-1], inverse)[0], idx[-1]), what + ": translation")
    check_array(rf.rotation, g.shape + (4,), lambda idx: sel(g.at(idx[:-1], inverse)[1], idx[-1]), what + ": rotation")
    if g.ts is None:
        ok(rf.timestamps is None, what + ": no timestamps")
    else:
        check_array(rf.timestamps, (g.n,), lambda idx: g.ts.at(idx), what + ": timestamps", kind=None)
        ok(rf.timestamps.dtype.kind == g.ts.dtype.kind and rf.timestamps.dtype.unit == g.ts.dtype.unit, what + ": kind of timestamps")
    ok(bool(rf.discrete) is discrete, what + ": discrete")
    ok(rf.parent is parent, what + ": parent")


@contract("C03", CTOR + REG, given=GIVEN, times=TS, inverse=[False, True], discrete=[False, True], how=["object", "register", "named parent"])
def constructor(ctx, given, times, inverse, discrete, how):
    """Defaults: zero translation and identity rotation at every timestamp; inverse inverts every sample."""
    if discrete and times == "static":
        return ctx.prove(True, "discrete frames have timestamps (C22)")
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    g = Given(given, times)
    kw = dict(g.kw, inverse=inverse, discrete=discrete)
    if how == "object":
        rf = m.ReferenceFrame("f", root, **kw)
    else:
        root.register()
        m.register_frame("f", "root" if how != "register" else root, **kw)
        rf = m._registry["f"]
    ok(rf.name == "f", "name")
    check_frame(rf, g, inverse, discrete, root, "the frame")


@contract("C03", CTOR, given=GIVEN)
def positional(ctx, given):
    """The arguments by position: name, parent, translation, rotation, timestamps."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    g = Given(given, "f")
    rf = m.ReferenceFrame("f", root, g.kw.get("translation"), g.kw.get("rotation"), g.ts)
    check_frame(rf, g, False, False, root, "the frame")


LOOKUP = ["reference_frames.ReferenceFrame.lookup_transform", "core.TransformMatcher.get_transformation", "core.TransformMatcher._transform_from_frame",
          "core.TransformMatcher.get_timestamps"]


@contract("C03", CTOR + LOOKUP, given=GIVEN[:3])
def inverse_composition(ctx, given):
    """The transform of an inverse frame composed with the given one is the identity."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    g = Given(given, "static")
    f, i = m.ReferenceFrame("f", root, **g.kw), m.ReferenceFrame("i", root, inverse=True, **g.kw)
    t, q, ts = f.lookup_transform(root)
    ti, qi, _ = i.lookup_transform(root)
    v = lambda a, n: [a.at((c,)) for c in range(n)]
    zero, one = [z3.RealVal(0)] * 3, [z3.RealVal(1)] + [z3.RealVal(0)] * 3
    for (t1, q1), (t2, q2) in (((v(t, 3), v(q, 4)), (v(ti, 3), v(qi, 4))), ((v(ti, 3), v(qi, 4)), (v(t, 3), v(q, 4)))):
        rt, rq = compose(t1, q1, t2, q2, False)
        for a, b in zip(list(rt) + list(rq), zero + one):
            ctx.prove(T.cmp("==", a, b), "the composition is the identity")
    # down from the root: the given transform again
    t2, q2, _ = root.lookup_transform(i)
    w = g.at(())
    check_array(t2, (3,), lambda idx: sel(w[0], idx[0]), "from the root into the inverse frame: the given translation")
    check_array(q2, (4,), lambda idx: sel(w[1], idx[0]), "from the root into the inverse frame: the given rotation")


@contract("C03", CTOR + LOOKUP, given=GIVEN[:3], kind=[CONT, DISC], budget=120)
def moving_inverse(ctx, given, kind):
    """The lookup of a moving inverse frame is that of the frame with the inverse samples."""
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    missing = {"both": (), "translation": ("rotation",), "rotation": ("translation",)}[given]
    f = One(m, "f", root, kind, inverse=True, missing=missing)
    t, q, ts = f.rf.lookup_transform(root)
    n, x = ts.shape[0], ns_of(ts)
    samples = []

    def sample(i):
        fq = T.qinv(f.q_at(i))
        ft = T.rot(fq, [f.tr_at(i, c) for c in range(3)])
        return [T.neg(c) for c in ft], list(fq)

    if kind == DISC:
        check_array(t, (n, 3), lambda idx: sel(sample(f.event(x(idx[0])))[0], idx[1]), "translation of the inverse event")
        check_array(q, (n, 4), lambda idx: sel(sample(f.event(x(idx[0])))[1], idx[1]), "rotation of the inverse event")
        return
    xs = lambda i: T.zreal(f.ns(i))
    stored = f.rf.translation, f.rf.rotation
    check_array(stored[0], (f.n, 3), lambda idx: sel(sample(idx[0])[0], idx[1]), "inverse samples (translation)")
    check_array(stored[1], (f.n, 4), lambda idx: sel(sample(idx[0])[1], idx[1]), "inverse samples (rotation)")
    check_array(t, (n, 3), lambda idx: Q.spec_lerp(xs, lambda i: stored[0].at((T.zint(i), idx[1])), f.n, x(idx[0])), "interpolation of the inverse samples")
    check_array(q, (n, 4), lambda idx: sel(list(Q.spec_squad(xs, lambda i: tuple(stored[1].at((T.zint(i), c)) for c in range(4)), f.n, x(idx[0]))), idx[1]),
                "interpolation of the inverse samples (rotation)")


def x(d):
    return dict(d)


@contract("C03", FROM + CTOR, which=["dataset", "translation", "rotation"], times=["f", "M"], inverse=[False, True], discrete=[False, True], named=[False, True])
def from_dataarrays(ctx, which, times, inverse, discrete, named):
    from pyvc import symxr as X
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    g = Given({"dataset": "both"}.get(which, which), times)
    kw = dict(inverse=inverse, discrete=discrete)
    if named:
        kw["name"] = "f"
    cls = m.ReferenceFrame
    if which == "dataset":
        ds = X.Dataset({"pos": (("time", "cartesian_axis"), g.tr), "ori": (("time", "quaternion_axis"), g.q)},
                       {"time": g.ts, "cartesian_axis": ["x", "y", "z"], "quaternion_axis": ["w", "x", "y", "z"]})
        rf = cls.from_dataset(ds, "pos", "ori", "time", root, **kw)
    else:
        arr = g.tr if which == "translation" else g.q
        da = X.DataArray(arr, {"time": g.ts}, ("time", "ax"), "da", {}).freeze("argument da")
        rf = getattr(cls, "from_%s_dataarray" % which)(da, "time", root, **kw)
    ok(rf.name == ("f" if named else None), "name")
    check_frame(rf, g, inverse, discrete, root, "the frame")


@contract("C03", FROM + CTOR, inverse=[False, True], named=[False, True])
def rotation_matrix(ctx, inverse, named):
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    mat = real_array("mat", (3, 3))
    M = [[mat.at((i, j)) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(i + 1):
            s = 0
            for k in range(3):
                s = T.add(s, T.mul(M[k][i], M[k][j]))
            ctx.facts.append(T.zreal(s) == (1 if i == j else 0))
    d = 0
    for c, (a, b) in enumerate(((1, 2), (2, 0), (0, 1))):
        d = T.add(d, T.mul(M[0][c], T.sub(T.mul(M[1][a], M[2][b]), T.mul(M[1][b], M[2][a]))))
    ctx.facts.append(T.zreal(d) == 1)
    rf = m.ReferenceFrame.from_rotation_matrix(mat, root, **dict({"inverse": inverse}, **({"name": "f"} if named else {})))
    ok(rf.parent is root and rf.name == ("f" if named else None) and rf.timestamps is None, "the static frame under the parent")
    check_array(rf.translation, (3,), lambda idx: z3.RealVal(0), "no translation")
    check_shape(rf.rotation, (4,), "rotation")
    q = [rf.rotation.at((c,)) for c in range(4)]
    n2 = T.qnorm2(q)
    w, a, b, c = q
    R = [[n2 - 2 * (b * b + c * c), 2 * (a * b - w * c), 2 * (a * c + w * b)],
         [2 * (a * b + w * c), n2 - 2 * (a * a + c * c), 2 * (b * c - w * a)],
         [2 * (a * c - w * b), 2 * (b * c + w * a), n2 - 2 * (a * a + b * b)]]
    ctx.prove(T.cmp("==", n2, 1), "a unit rotation")
    for i in range(3):
        for j in range(3):
            ctx.prove(T.cmp("==", R[i][j], M[j][i] if inverse else M[i][j]), "the rotation of the frame is the matrix")


@contract("C03", FROM)
def other_matrices(ctx):
    m = mod("reference_frames")
    root = m.ReferenceFrame("root")
    n, k = fresh_int("n", 0), fresh_int("k", 0)
    ctx.assume(T.lor(T.cmp("!=", S.dz(n), 3), T.cmp("!=", S.dz(k), 3)))
    must_raise(lambda: m.ReferenceFrame.from_rotation_matrix(real_array("mat", (n, k)), root), ValueError, "matrices of another shape are rejected")
