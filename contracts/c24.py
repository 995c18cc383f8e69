"""C24: what is drawn where, and the limits of the axes afterwards.

matplotlib is replaced by axes that record artists, lines and arrows, with its documented behaviour of the limits: setting
them ends automatic scaling; while it is on, plot() moves them so that they contain the line and quiver() so that they
contain the base points; otherwise drawing leaves them alone.  The frames' transform_points is replaced by its contract (C01).
"""
import types as _types

from contracts.frames import *

ASSUMES = [
    'matplotlib: set_?lim3d sets the limits and ends automatic scaling; plot and quiver move the limits only while it is on (documented behaviour, cross-checked by the trials)',
    'transform_points, rotate_vectors and, in plot_quaternions, plot_vectors are replaced by their contracts (C02, C11, C24)',
    "no NaN in the plotted arrays in the proof (NaN by bounded trials); quiver's normalize and pivot options are not used",
]

FN = ["plotting." + f for f in ("_add_frame", "_set_axes_equal", "_expand_limits", "plot_reference_frame", "plot_points", "plot_vectors", "plot_quaternions",
                                "Arrow3D.__init__", "Arrow3D.draw", "Arrow3D.do_3d_projection")]


def real(name):
    return z3.Real(C().fresh(name))


def num(x):
    return T.zreal(S.asarray(x).item_term())


class Axes:
    def __init__(self, ctx, auto=True, inverted=False):
        self.lim, self.auto, self.artists, self.lines, self.arrows = {}, auto, [], [], []
        self.M = object()
        for a in "xyz":
            lo, hi = real(a + "lo"), real(a + "hi")
            ctx.assume(lo <= hi)
            self.lim[a] = (hi, lo) if inverted else (lo, hi)
        for a in "xyz":
            for nm in ("%slim", "%slim3d"):
                setattr(self, "get_" + nm % a, lambda a=a: tuple(S.scalar(v, "f") for v in self.lim[a]))
                setattr(self, "set_" + nm % a, lambda left=None, right=None, a=a, **k: self.set(a, left, right, k))
        self.start = dict(self.lim)

    def set(self, a, left, right, k):
        if k:
            raise Unsupported("limits with %s" % sorted(k))
        if right is None:
            left, right = left
        self.lim[a] = (num(left), num(right))
        self.auto = False

    def add_artist(self, a):
        a.axes = self
        self.artists.append(a)
        return a

    add_patch = add_artist

    def rescale(self, cols):
        if not self.auto:
            return
        ctx = C()
        for a, x in zip("xyz", cols):
            x = S.asarray(x)
            lo, hi = real(a + "auto"), real(a + "auto")
            ctx.assume(lo <= hi)
            i = z3.Int("ai!")
            v = T.zreal(x.at((i,)))
            ctx.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.dz(x.shape[0])), z3.And(lo <= v, v <= hi))))
            self.lim[a] = (lo, hi)

    def plot(self, xs, ys, zs, *fmt, **kw):
        self.lines.append((xs, ys, zs, fmt, kw))
        self.rescale((xs, ys, zs))
        return [("line", len(self.lines))]

    def quiver(self, *args, **kw):
        if len(args) != 6:
            raise Unsupported("quiver with %d arguments" % len(args))
        self.arrows.append((args[:3], args[3:], kw))
        self.rescale(args[:3])
        return ("arrows", len(self.arrows))

    def scatter(self, *a, **k):
        raise Unsupported("scatter")

    # -- specification
    def equal_ranges(self, what):
        ctx = C()
        r = {a: self.lim[a][1] - self.lim[a][0] for a in "xyz"}
        ctx.prove(r["x"] == r["y"], what + ": x and y have equal ranges")
        ctx.prove(r["x"] == r["z"], what + ": x and z have equal ranges")

    def contain(self, p, what, extra=()):
        for a, v in zip("xyz", p):
            lo, hi = self.lim[a]
            C().prove(z3.And(lo <= v, v <= hi), "%s: %s axis" % (what, a), extra=list(extra))

    def contain_old(self, what):
        for j in (0, 1):
            self.contain([self.start[a][j] for a in "xyz"], what)


class World:
    """matplotlib and the frames."""

    def __init__(self, ctx, **kw):
        self.ctx, self.made, self.kw = ctx, [], kw
        ctx.store["no_nan"] = True
        self.P = [T.fn("project_%s" % c, T.RS, T.RS, T.RS, T.RS) for c in "xyz"]
        mpl, pyplot, patches = (_types.ModuleType(n) for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.patches"))
        tk, m3, p3 = (_types.ModuleType(n) for n in ("mpl_toolkits", "mpl_toolkits.mplot3d", "mpl_toolkits.mplot3d.proj3d"))
        w = self

        class FancyArrowPatch:
            def __init__(self, posA=None, posB=None, path=None, **kw):
                self.pos, self.kw, self.axes, self.drawn = (posA, posB), kw, None, []

            def set_positions(self, a, b):
                self.pos = (a, b)

            def draw(self, renderer):
                self.drawn.append((renderer, self.pos))

        def proj(xs, ys, zs, M):
            w.projected = M
            xs, ys, zs = (S.asarray(a) for a in (xs, ys, zs))
            g = [a.reader() for a in (xs, ys, zs)]
            return tuple(S.SymArray(xs.shape, "f", lambda idx, f=f: f(*[T.zreal(h(idx)) for h in g])) for f in w.P)

        def figure(*a, **k):
            f = _types.SimpleNamespace()
            f.add_subplot = lambda *a, **k: w.axes()
            return f

        patches.FancyArrowPatch, p3.proj_transform, pyplot.figure = FancyArrowPatch, proj, figure
        mpl.pyplot, mpl.patches, m3.proj3d, tk.mplot3d = pyplot, patches, p3, m3
        for m in (mpl, tk, m3):
            m.__path__ = []
        ctx.store["shims"] = {m.__name__: m for m in (mpl, pyplot, patches, tk, m3, p3)}
        self.pl, self.rf = mod("plotting"), mod("reference_frames")
        cls = self.rf.ReferenceFrame
        cls.__del__ = lambda s: None
        self.maps = {}

        def transform_points(this, arr, to_frame, axis=-1, time_axis=0, timestamps=None, return_timestamps=False):
            a = S.asarray(arr)
            to = w.rf._registry[to_frame] if isinstance(to_frame, str) else to_frame
            if axis not in (-1, a.ndim - 1) or timestamps is not None:
                raise Unsupported("transform_points with options")
            g = a.reader()

            def at(idx):
                v = [T.zreal(g(tuple(idx[:-1]) + (c,))) for c in range(3)]
                return sel(w.point(this, to, v), idx[-1])
            r = S.SymArray(a.shape, "f", at)
            return (r, None) if return_timestamps else r

        cls.transform_points = transform_points

    def point(self, this, to, v):
        """Contract C01: the point v of one frame expressed in another one."""
        key = (this.name, to.name)
        if key not in self.maps:
            self.maps[key] = [T.fn(self.ctx.fresh("point_%s" % c), T.RS, T.RS, T.RS, T.RS) for c in "xyz"]
        return [f(*[T.zreal(x) for x in v]) for f in self.maps[key]]

    def axes(self):
        a = Axes(self.ctx, **self.kw)
        self.made.append(a)
        return a

    def frame(self, name, **kw):
        f = object.__new__(self.rf.ReferenceFrame)
        f.__dict__.update(name=name, translation=real_array("t", (3,), owner="stored translation"), rotation=real_array("r", (4,), owner="stored rotation"), timestamps=None, discrete=False)
        f.__dict__.update(kw)
        self.rf._registry[name] = f
        return f


def arrow_ends(w, ax, arrow):
    """End points of an arrow: the pair of points that it asks to be projected."""
    seen = []
    P = w.pl.proj3d.proj_transform

    def spy(xs, ys, zs, M):
        seen.append((xs, ys, zs, M))
        return P(xs, ys, zs, M)

    w.pl.proj3d.proj_transform = spy
    try:
        arrow.do_3d_projection()
        pos1 = arrow.pos
        rend = object()
        arrow.draw(rend)
    finally:
        w.pl.proj3d.proj_transform = P
    ok(len(seen) == 2 and all(s[3] is ax.M for s in seen), "the arrow is projected with the axes' projection")
    ok(len(arrow.drawn) == 1 and arrow.drawn[0][0] is rend, "the arrow is drawn by the renderer")
    xs, ys, zs, _ = seen[0]
    ends = [[num(S.asarray(c)[i]) for c in (xs, ys, zs)] for i in (0, 1)]
    for pos in (pos1, arrow.drawn[0][1]):
        for i, name in ((0, "tail"), (1, "tip")):
            for c, (v, f) in enumerate(zip(pos[i], w.P)):
                C().prove(num(v) == f(*ends[i]), "the %s of the arrow is at its projection" % name)
    return ends


@contract("C24", FN[:4] + FN[7:] + ["__init__.transform_points", "core._transform", "core._resolve_rf"], world=["none", "frame", "name"], given=["frame", "name"], ax=["auto", "fixed", "inverted", "new"], length=["default", "any"])
def reference_frame(ctx, world, given, ax, length):
    """One arrow per axis, from the origin to the tip; equal ranges that contain the arrows and the previous view."""
    w = World(ctx, auto=ax in ("auto", "new"), inverted=ax == "inverted")
    f, to = w.frame("f"), w.frame("w")
    L = real("length") if length == "any" else z3.RealVal(1)
    kw = {} if length == "default" else {"arrow_len": S.scalar(L, "f")}
    if world != "none":
        kw["world_frame"] = to if world == "frame" else "w"
    axes = None
    if ax != "new":
        kw["ax"] = axes = w.axes()
    arrows = must_not_raise(lambda: w.pl.plot_reference_frame(f if given == "frame" else "f", **kw), "plot_reference_frame")
    ok(len(w.made) == 1, "one pair of axes")
    axes = axes or w.made[0]
    ok(len(arrows) == 3 and [id(a) for a in axes.artists] == [id(a) for a in arrows], "one arrow per axis is drawn and returned")
    z = z3.RealVal(0)
    pts = [[z, z, z], [L, z, z], [z, L, z], [z, z, L]]
    if world != "none":
        pts = [w.point(f, to, p) for p in pts]
    for i, a in enumerate(arrows):
        ends = arrow_ends(w, axes, a)
        for name, e, p in (("origin", ends[0], pts[0]), ("tip", ends[1], pts[i + 1])):
            for c in range(3):
                ctx.prove(T.cmp("==", e[c], p[c]), "%s of the %s arrow: %s" % (name, "xyz"[i], "xyz"[c]))
    axes.equal_ranges("plot_reference_frame")
    for p in pts:
        axes.contain(p, "the arrows are visible")
    axes.contain_old("the previous view is visible")


@contract("C24", FN[3:4], world=[False, True])
def moving_frame(ctx, world):
    w = World(ctx)
    n = fresh_int("n", 1)
    f = w.frame("f", translation=real_array("t", (n, 3)), rotation=real_array("r", (n, 4)), timestamps=timestamps("ts", n))
    to = w.frame("w")
    ax = w.axes()
    must_raise(lambda: w.pl.plot_reference_frame(f, ax=ax, world_frame=to if world else None), NotImplementedError, "moving frames are rejected")
    ok(not ax.artists, "nothing is drawn")


def rows(a):
    """(number of rows, value at row, column)"""
    if a.ndim == 1:
        return 1, lambda i, c: T.zreal(a.at((c,)))
    return a.shape[0], lambda i, c: T.zreal(a.at((i, c)))


def same_columns(cols, n, at, what):
    for c, x in enumerate(cols):
        check_array(S.asarray(x), (n,), lambda idx, c=c: at(idx[0], c), "%s: %s" % (what, "xyz"[c]), kind=None)


def finish(ctx, axes, what, old):
    axes.equal_ranges(what)
    if old:
        axes.contain_old(what + ": the previous view is visible")


AX = ["auto", "fixed", "inverted", "new"]


def axes_for(w, ax, kw):
    if ax != "new":
        kw["ax"] = w.axes()


@contract("C24", ["plotting.plot_points", "plotting._set_axes_equal", "plotting._expand_limits"], rank=[1, 2], kind=["f", "i"], ax=AX, fmt=[False, True])
def points(ctx, rank, kind, ax, fmt):
    w = World(ctx, auto=ax in ("auto", "new"), inverted=ax == "inverted")
    n = fresh_int("n", 1)
    arr = real_array("arr", (3,) if rank == 1 else (n, 3), kind=kind)
    kw = {}
    axes_for(w, ax, kw)
    if fmt:
        kw.update(fmt="o", color="k")
    r = must_not_raise(lambda: w.pl.plot_points(arr, **kw), "plot_points")
    axes = w.made[0]
    ok(len(axes.lines) == 1 and not axes.arrows and not axes.artists and len(w.made) == 1, "one line is drawn")
    ok(r == [("line", 1)], "the lines are returned")
    m, at = rows(arr)
    xs, ys, zs, f, k = axes.lines[0]
    same_columns((xs, ys, zs), m, at, "points")
    ok((not fmt) or (tuple(f) == ("o",) and k == {"color": "k"}), "the format is passed on")
    i = z3.Int("pi!")
    axes.contain([at(i, c) for c in range(3)], "the points are visible", [i >= 0, i < S.dz(m)])
    finish(ctx, axes, "plot_points", ax in ("fixed", "inverted"))


@contract("C24", ["plotting.plot_vectors", "plotting._set_axes_equal", "plotting._expand_limits"], rank=[1, 2], base=["none", "own", "int"], kind=["f", "i"], ax=AX, length=[False, True])
def vectors(ctx, rank, base, kind, ax, length):
    w = World(ctx, auto=ax in ("auto", "new"), inverted=ax == "inverted")
    n = fresh_int("n", 1)
    shape = (3,) if rank == 1 else (n, 3)
    arr = real_array("arr", shape, kind=kind)
    b = None if base == "none" else real_array("base", shape, kind="i" if base == "int" else "f")
    kw = {}
    axes_for(w, ax, kw)
    L = z3.RealVal(1)
    if length:
        L = real("length")
        kw.update(length=S.scalar(L, "f"), color="k")
    r = must_not_raise(lambda: w.pl.plot_vectors(arr, b, **kw), "plot_vectors")
    axes = w.made[0]
    ok(len(axes.arrows) == 1 and not axes.lines and not axes.artists and len(w.made) == 1, "one set of arrows is drawn")
    ok(r == ("arrows", 1), "the arrows are returned")
    m, at = rows(arr)
    bt = (lambda i, c: z3.RealVal(0)) if b is None else rows(b)[1]
    bs, vs, k = axes.arrows[0]
    same_columns(bs, m, bt, "base points")
    same_columns(vs, m, at, "vectors")
    ok((not length) or (set(k) == {"length", "color"}), "options are passed on")
    i = z3.Int("pi!")
    rng = [i >= 0, i < S.dz(m)]
    axes.contain([bt(i, c) for c in range(3)], "the base points are visible", rng)
    axes.contain([bt(i, c) + L * at(i, c) for c in range(3)], "the tips are visible", rng)
    finish(ctx, axes, "plot_vectors", ax in ("fixed", "inverted"))


def vectors_contract(w, arr, base=None, ax=None, figsize=(6, 6), **kw):
    """Contract of plot_vectors (proved above, including the previous view of axes that do not scale themselves)."""
    ctx = C()
    ax = w.axes() if ax is None else ax
    arr = S.asarray(arr)
    if arr.ndim not in (1, 2) or arr.shape[-1] != 3 or not set(kw) <= {"length", "color"}:
        raise Unsupported("plot_vectors with other arguments")
    m, at = rows(arr)
    bt = (lambda i, c: z3.RealVal(0)) if base is None else rows(S.asarray(base))[1]
    ok(base is None or S.asarray(base).shape == arr.shape, "as many base points as vectors")
    col = lambda f: [S.SymArray((m,), "f", lambda idx, c=c: f(idx[0], c)) for c in range(3)]
    ax.arrows.append((col(bt), col(at), kw))
    L = num(kw.get("length", 1.0))
    i = z3.Int("vi!")
    old = dict(ax.lim)
    for a, c in zip("xyz", range(3)):
        lo, hi = real(a + "lim"), real(a + "lim")
        ax.lim[a] = (lo, hi)
        for e in (bt(i, c), bt(i, c) + L * at(i, c)):
            ctx.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.dz(m)), z3.And(lo <= e, e <= hi))))
        if not ax.auto:
            ctx.facts.append(z3.And(*[z3.And(lo <= v, v <= hi) for v in old[a]]))
    r = [ax.lim[a][1] - ax.lim[a][0] for a in "xyz"]
    ctx.facts.append(z3.And(r[0] == r[1], r[0] == r[2]))
    ax.auto = False
    return ("arrows", len(ax.arrows))


@contract("C24", ["plotting.plot_quaternions"], rank=[1, 2], base=[False, True], ax=AX)
def quaternions(ctx, rank, base, ax):
    w = World(ctx, auto=ax in ("auto", "new"), inverted=ax == "inverted")
    R = [T.fn("rotated_" + c, *[T.RS] * 8) for c in "xyz"]
    rot = lambda q, v: [f(*[T.zreal(x) for x in list(q) + list(v)]) for f in R]

    def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
        """Contract C11: the vector v rotated by each quaternion."""
        q, v = S.asarray(q), S.asarray(v)
        if one_to_one or v.shape != (3,) or q.ndim > 2 or (axis, qaxis) != (-1, -1):
            raise Unsupported("rotate_vectors with other arguments")
        g, h = q.reader(), v.reader()
        val = lambda idx: sel(rot([g(idx[:-1] + (c,)) for c in range(4)], [h((c,)) for c in range(3)]), idx[-1])
        return S.SymArray(q.shape[:-1] + (3,), "f", val)

    w.pl.rotate_vectors = rotate_vectors
    w.pl.plot_vectors = lambda *a, **k: vectors_contract(w, *a, **k)
    n = fresh_int("n", 1)
    arr = real_array("nz_arr", (4,) if rank == 1 else (n, 4))
    b = real_array("base", (3,) if rank == 1 else (n, 3)) if base else None
    kw = {}
    axes_for(w, ax, kw)
    if b is not None:
        kw["base"] = b
    r = must_not_raise(lambda: w.pl.plot_quaternions(arr, **kw), "plot_quaternions")
    axes = w.made[0]
    ok(len(axes.arrows) == 3 and not axes.lines and not axes.artists and len(w.made) == 1, "three sets of arrows are drawn")
    ok(list(r) == [("arrows", k) for k in (1, 2, 3)], "the arrows are returned")
    m = 1 if rank == 1 else n
    q = lambda i: tuple(T.zreal(arr.at((c,) if rank == 1 else (i, c))) for c in range(4))
    bt = (lambda i, c: z3.RealVal(0)) if b is None else rows(b)[1]
    i = z3.Int("pi!")
    rng = [i >= 0, i < S.dz(m)]
    for e, (bs, vs, k) in enumerate(axes.arrows):
        unit = [z3.RealVal(1 if c == e else 0) for c in range(3)]
        same_columns(bs, m, bt, "base points of the %s axes" % "xyz"[e])
        same_columns(vs, m, lambda i, c: T.zreal(sel(rot(q(i), unit), c)), "rotated %s axes" % "xyz"[e])
        L = num(k.get("length", 1.0))
        ctx.prove(L > 0, "arrows of positive length")
        axes.contain([bt(i, c) for c in range(3)], "the base points are visible", rng)
        axes.contain([bt(i, c) + L * rot(q(i), unit)[c] for c in range(3)], "the tips of the %s axes are visible" % "xyz"[e], rng)
    finish(ctx, axes, "plot_quaternions", ax in ("fixed", "inverted"))


@contract("C24", FN[4:6], what=["points", "vectors"], bad=["cols1", "cols2", "rank3", "base rows", "base rank"])
def rejects(ctx, what, bad):
    w = World(ctx)
    n, m, k = fresh_int("n", 1), fresh_int("m", 1), fresh_int("k", 0)
    ctx.assume(z3.And(n.e != m.e, k.e != 3))
    ax = w.axes()
    if bad.startswith("base"):
        if what == "points":
            return ctx.prove(True, "not applicable")
        base = real_array("base", (m, 3) if bad == "base rows" else (m, n, 3))
        call = lambda: w.pl.plot_vectors(real_array("arr", (n, 3)), base, ax=ax)
    else:
        arr = real_array("arr", {"cols1": (k,), "cols2": (n, k), "rank3": (n, m, 3)}[bad])
        call = lambda: (w.pl.plot_points if what == "points" else w.pl.plot_vectors)(arr, ax=ax)
    must_raise(call, ValueError, "wrong shapes are rejected")
    ok(not ax.lines and not ax.arrows, "nothing is drawn")
