"""C01: lookup of a transform composes the frames along the tree path."""
from contracts.frames import *

ASSUMES = [
    'continuous frames have at least two samples with distinct, increasing times (precondition); stored rotations are not zero',
    'SQUAD interpolations of non-zero rotations are not zero',
]

FN = ["reference_frames.ReferenceFrame.lookup_transform", "reference_frames.ReferenceFrame._get_matcher", "reference_frames.ReferenceFrame._walk",
      "core.TransformMatcher.get_transformation", "core.TransformMatcher.add_reference_frame", "core.TransformMatcher.get_timestamps",
      "core.TransformMatcher._transform_from_frame", "utils.rotate_vectors"]


class Composition:
    """Specification state: (t(k), q(k)) is the transform of the first k frames of the path."""

    def __init__(self, ctx, up, down, out):
        self.up, self.down = up, down
        self.t = [T.fn("ct%d" % c, T.IS, T.IS, T.RS) for c in range(3)]
        self.q = [T.fn("cq%d" % c, T.IS, T.IS, T.RS) for c in range(4)]
        self.out = out
        ctx.store["invariants"] = self.candidates
        ctx.store["required"] = ("translation", ("rotation", "rotation as float"))
        j = z3.Int("cj!")
        z = z3.IntVal(0)
        for f in self.t:
            ctx.facts.append(z3.ForAll([j], f(z, j) == 0, patterns=[f(z, j)]))
        for c, f in enumerate(self.q):
            ctx.facts.append(z3.ForAll([j], f(z, j) == (1 if c == 0 else 0), patterns=[f(z, j)]))

    def at(self, k, j):
        k = z3.simplify(T.zint(k))
        if z3.is_int_value(k) and k.as_long() == 0:
            return [z3.RealVal(0)] * 3, [z3.RealVal(1)] + [z3.RealVal(0)] * 3
        return [f(k, j) for f in self.t], [f(k, j) for f in self.q]

    def frame(self, k):
        """(family, index, inverse) of frame k of the path, on this path of the execution."""
        nu = S.dz(self.up.n)
        k = z3.simplify(T.zint(k))
        if C().branch(T.cmp("<", k, nu)):
            return self.up, k, False
        return self.down, z3.simplify(k - T.zint(nu)), True

    def step(self, k, j):
        fam, i, inv = self.frame(k)
        ft, fq = fam.contribution(i, self.out.time(j))
        return compose(*self.at(k, j), ft, fq, inv)

    def candidates(self, loop, pos, index):
        if [l for l in C().loops if l is not loop] or loop.state != "exit" and not any(isinstance(v, S.SymArray) for v in loop.init.values()):
            return []
        k = z3.simplify(T.zint(S.dz(index)))
        end = loop.state == "end"
        static = self.out.static
        shape = () if static else (self.out.n,)

        def val(which):
            def f(idx):
                j = z3.IntVal(0) if static else T.zint(idx[0])
                r = self.step(z3.simplify(k - 1), j) if end else self.at(k, j)
                if which == "q":
                    return tuple(r[1])
                if which == "qf":
                    return sel(list(r[1]), idx[-1])
                return sel(r[0], idx[-1])
            return f

        return [("translation", S.SymArray(shape + (3,), "f", val("t"))), ("rotation", S.SymArray(shape, "q", val("q"))),
                ("rotation as float", S.SymArray(shape + (4,), "f", val("qf")))]


def world(ctx, tk, path=("n", "n"), valid=True):
    """Two frames of a tree and the path between them: any number of frames up, then down."""
    m = mod("reference_frames")
    kind, u1, u2 = {"f": ("f", None, None), "ns": ("M", "ns", "ns"), "s/ms": ("M", "s", "ms"), "us/ns": ("M", "us", "ns")}[tk]
    nu, nd = (fresh_int("n_" + x, 1) if p == "n" else p for p, x in zip(path, ("up", "down")))
    up = Family(m, "up", nu, tkind=kind, unit=u1, valid=valid)
    down = Family(m, "down", nd, tkind=kind, unit=u2, valid=valid)
    a, b = up.frame(0), m.ReferenceFrame.__new__(m.ReferenceFrame)
    b.__dict__["name"] = "target"

    def walk(x, y):
        ok(x is a and y is b, "the path from the frame to the target")
        return up.seq(), None, down.seq()

    ctx.store["walk"] = walk
    return m, up, down, a, b


@contract("C01", FN, budget=200, times=["f", "s/ms"], static=[True, False], path=[("n", 0), (0, "n"), ("n", "n"), (0, 0)])
def composition(ctx, times, static, path):
    if path == (0, 0) and not static:
        return ctx.prove(True, "no frames on the path: static")
    m, up, down, a, b = world(ctx, times, path)
    out = Output(ctx, [up, down], static).install(m)
    spec = Composition(ctx, up, down, out)
    m._registry["target"] = b
    t, q, ts = a.lookup_transform("target" if times == "f" else b)
    ok(ts is out.ts, "the output timestamps are returned")
    n = z3.simplify(T.zint(T.add(S.dz(up.n), S.dz(down.n))))
    shape = () if static else (out.n,)
    j = lambda idx: z3.IntVal(0) if static else T.zint(idx[0])
    check_array(t, shape + (3,), lambda idx: sel(spec.at(n, j(idx))[0], idx[-1]), "translation is the composition along the path")
    check_array(q, shape + (4,), lambda idx: sel(spec.at(n, j(idx))[1], idx[-1]), "rotation is the composition along the path")


def stub_frames(ctx, rf, **frames):
    """Registered frames whose lookups are recorded and answered by arbitrary arrays."""
    out = []
    for nm in frames:
        f = rf.ReferenceFrame.__new__(rf.ReferenceFrame)
        f.__dict__["name"] = nm
        rf._registry[nm] = f
        out.append(f)
    return out


WRAP = ["__init__.lookup_transform", "__init__.lookup_pose", "core._make_transform_or_pose_dataset", "core._resolve_rf"]


@contract("C01", WRAP, which=["lookup_transform", "lookup_pose"], mode=["tuple", "timestamps", "dataset"], static=[True, False], named=[True, False])
def wrappers(ctx, which, mode, static, named):
    """The module-level functions return the frame's own lookup, unmodified."""
    m, rf = mod(""), mod("reference_frames")
    a, b = stub_frames(ctx, rf, a=1, b=1)
    n = None if static else fresh_int("n", 0)
    shape = () if static else (n,)
    ts = None if static else timestamps("ts", n)
    t, q = real_array("t", shape + (3,)), real_array("q", shape + (4,))
    calls = []

    def lookup(this, other):
        calls.append((this, other))
        return t, q, ts

    rf.ReferenceFrame.lookup_transform = lookup
    kw = {"timestamps": {"return_timestamps": True}, "dataset": {"as_dataset": True}, "tuple": {}}[mode]
    r = getattr(m, which)(*(("a", "b") if named else (a, b)), **kw)
    if len(calls) != 1:
        return ctx.fail("one lookup", "%d lookups" % len(calls))
    ok(calls[0][0] is a and rf._resolve_rf(calls[0][1]) is b, "the first frame is looked up in the second")
    if mode == "dataset":
        names = ("position", "orientation") if which == "lookup_pose" else ("translation", "rotation")
        td = () if static else ("time",)
        for nm, arr, ax, lab in zip(names, (t, q), ("cartesian_axis", "quaternion_axis"), (["x", "y", "z"], ["w", "x", "y", "z"])):
            d = r[nm]
            ok(tuple(d.dims) == td + (ax,), "dimensions of %s" % nm)
            check_array(d.data, arr.shape, lambda idx, arr=arr: arr.at(idx), "values of the dataset", kind=None)
            check_labels(d, ax, lab, "axis labels")
            fr = b if which == "lookup_pose" else a
            ok(d.attrs.get("reference_frame") == fr.name and d.attrs.get("representation_frame") == fr.name, "frame attributes of %s" % nm)
            ok(d.attrs.get("motion_type") == nm, "motion type of %s" % nm)
            if not static:
                check_coord(d, "time", ("time",), (n,), lambda idx: ts.at(idx), "timestamps of the dataset")
            else:
                ok("time" not in d.coords, "a static transform has no timestamps")
        return
    want = (t, q) + ((ts,) if mode == "timestamps" else ())
    ok(isinstance(r, tuple) and len(r) == len(want), "number of results")
    for x, y in zip(r, want):
        if y is None:
            ok(x is None, "a static transform has no timestamps")
        else:
            check_array(x, y.shape, lambda idx, y=y: y.at(idx), "the looked-up values are returned", kind=None)
