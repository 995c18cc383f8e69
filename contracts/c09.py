"""C09: registry and frame tree under every operation, from an arbitrary state.

The registry is an arbitrary mapping (membership of a name is a free choice of each path, the frames in it are
arbitrary) and so is the tree: each operation is verified against its effect on both, which by induction covers
every history.  Assumed contract of anytree: assigning `parent` either raises and changes nothing or makes the node
a child of exactly that parent, leaving all other edges alone.
"""
from contracts.frames import *

ASSUMES = [
    'anytree: assigning parent raises and changes nothing, or makes the node a child of exactly that parent',
    'frame names are only compared and hashed',
]

REG = ["reference_frames._check_name", "reference_frames._register", "reference_frames._deregister", "reference_frames.register_frame",
       "reference_frames.deregister_frame", "reference_frames.clear_registry"]
CLS = ["reference_frames.ReferenceFrame." + f for f in ("__init__", "__del__", "register", "deregister", "_init_arrays", "_verify_root")]
FN = REG + CLS + ["core._resolve_rf"]


class Registry:
    """An arbitrary registry; self.changes: name -> frame or GONE for every entry that was written."""

    GONE = object()

    def __init__(self, world):
        self.w, self.changes, self.initial, self.cleared = world, {}, {None: None}, False

    def start(self, name):
        """Frame registered under a name initially (None: nobody)."""
        if name not in self.initial:
            taken = self.w.ctx.branch(z3.Bool("taken_%s" % name)) if C() is self.w.ctx else False
            self.initial[name] = self.w.old("entry %s" % name, name) if taken else None
        return self.initial[name]

    def now(self, name):
        if name in self.changes:
            v = self.changes[name]
            return None if v is self.GONE else v
        return None if self.cleared else self.start(name)

    def put(self, name, v):
        if v is self.GONE and self.now(name) is None:
            self.changes.pop(name, None)
        else:
            self.changes[name] = v
        if not self.cleared and name in self.initial and (self.initial[name] is v or self.initial[name] is None and v is self.GONE):
            self.changes.pop(name, None)

    # -- the mapping interface
    def __contains__(self, name):
        if C() is not self.w.ctx:
            return False
        hash(name)
        return self.now(name) is not None

    def __getitem__(self, name):
        if name not in self:
            raise KeyError(name)
        return self.now(name)

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __setitem__(self, name, v):
        self.start(name)
        self.put(name, v)

    def __delitem__(self, name):
        if name not in self:
            raise KeyError(name)
        self.put(name, self.GONE)

    def pop(self, name, *default):
        if name not in self:
            if default:
                return default[0]
            raise KeyError(name)
        v = self.now(name)
        self.put(name, self.GONE)
        return v

    def setdefault(self, name, v=None):
        if name not in self:
            self[name] = v
        return self.now(name)

    def update(self, other=(), **kw):
        for k, v in list(dict(other).items()) + list(kw.items()):
            self[k] = v

    def clear(self):
        self.changes, self.cleared = {}, True

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary registry")

    keys = items = values = __len__ = symlen = popitem = copy = __iter__


class World:
    """An arbitrary registry and an arbitrary tree of frames."""

    def __init__(self, ctx):
        self.ctx, self.rf = ctx, mod("reference_frames")
        self.cls = self.rf.ReferenceFrame
        self.reg = Registry(self)
        self.rf._registry = self.reg
        self.frames, self.start, self.parents, self.made = [], {}, {}, []
        w = self

        def get(f):
            return w.parents.get(id(f))

        def put(f, p):
            if p is not None and not isinstance(p, w.cls):
                raise TypeError("Parent node %r is not of type 'NodeMixin'." % (p,))
            if p is not None and id(f) in w.start and get(f) is not p and ctx.branch(z3.Bool(ctx.fresh("loop"))):
                raise RuntimeError("LoopError")
            w.parents[id(f)] = p

        def new(c, *a, **k):
            f = object.__new__(c)
            w.made.append(f)
            return f

        self.cls.parent = property(get, put)
        self.cls.children = property(lambda f: w.children(f))
        self.cls.__new__ = staticmethod(new)

    def old(self, tag, name):
        """A frame that exists before the operation, below some parent and with some child."""
        f = object.__new__(self.cls)
        f.__dict__.update(name=name, translation=None, rotation=None, timestamps=None, discrete=False)
        self.frames.append(f)
        p = object.__new__(self.cls)
        p.__dict__.update(name="parent of " + tag, translation=None, rotation=None, timestamps=None, discrete=False)
        c = object.__new__(self.cls)
        c.__dict__.update(name="child of " + tag, translation=None, rotation=None, timestamps=None, discrete=False)
        self.frames += [p, c]
        for x, y in ((f, p), (c, f), (p, None)):
            self.start[id(x)] = self.parents[id(x)] = y
        return f

    def children(self, f):
        return tuple(x for x in self.frames + self.made if self.parents.get(id(x)) is f)

    # -- specification
    def unchanged(self, what, entries=(), edges=()):
        """Nothing but these registry entries {name: frame or None} and edges [(frame, parent)] has changed."""
        entries, edges = dict(entries), {id(f): (f, p) for f, p in edges}
        reg = self.reg
        got = {k: (None if v is reg.GONE else v) for k, v in reg.changes.items()}
        got = {k: v for k, v in got.items() if v is not reg.start(k)}
        want = {k: v for k, v in entries.items() if v is not reg.start(k)}
        ok(not reg.cleared, what + ": the registry is not emptied")
        ok(set(got) == set(want) and all(got[k] is want[k] for k in want), what + ": registry", "changed entries %s instead of %s" % (sorted(got, key=str), sorted(want, key=str)))
        for f in self.frames + self.made:
            p = self.parents.get(id(f))
            if id(f) in edges:
                ok(p is edges[id(f)][1], what + ": parent of the frame", repr(p and p.name))
            else:
                ok(p is self.start.get(id(f)), what + ": every other frame keeps its parent", "%s is now below %s" % (f.__dict__.get("name"), p and p.name))


def arguments(ctx, kind):
    """(keyword arguments of a frame, valid below a parent, valid for a root)."""
    n = fresh_int("n", 1)
    t3, q4 = real_array("t", (3,)), frame_quat(ctx, ())
    if kind == "none":
        return {}, True, True
    if kind == "static":
        return dict(translation=t3, rotation=q4), True, False
    if kind == "inverse":
        return dict(translation=t3, rotation=q4, inverse=True), True, False
    if kind == "moving":
        return dict(translation=real_array("t", (n, 3)), rotation=frame_quat(ctx, (n,)), timestamps=timestamps("ts", n)), True, False
    if kind == "discrete":
        return dict(translation=real_array("t", (n, 3)), timestamps=timestamps("ts", n), discrete=True), True, False
    if kind == "discrete without timestamps":
        return dict(discrete=True), False, False
    if kind == "bad translation":
        return dict(translation=real_array("t", (4,))), False, False
    if kind == "bad rotation":
        return dict(translation=t3, rotation=real_array("q", (3,))), False, False
    if kind == "bad length":
        m = fresh_int("m", 1)
        ctx.assume(T.cmp("!=", S.dz(n), S.dz(m)))
        return dict(translation=real_array("t", (n, 3)), timestamps=timestamps("ts", m)), False, False
    if kind == "bad timestamps":
        return dict(timestamps=real_array("ts", (n, 2))), False, False
    raise KeyError(kind)


def frame_quat(ctx, shape):
    return real_array("q", shape + (4,))


ARGS = ["none", "static", "inverse", "moving", "discrete", "discrete without timestamps", "bad translation", "bad rotation", "bad length", "bad timestamps"]
PARENTS = [None, "name", "same name", "frame", "number"]


def parent_of(w, kind):
    """(argument, frame or None if it cannot be resolved) — decided when first asked."""
    if kind is None:
        return None, lambda: None
    if kind == "frame":
        f = w.old("parent", "p")
        return f, lambda: f
    if kind == "number":
        return 5, lambda: None
    nm = "p" if kind == "name" else "n"
    return nm, lambda: w.reg.start(nm)


@contract("C09", FN, args=ARGS, parent=PARENTS, update=[False, True], via=["register_frame", "constructor"], named=[True, False])
def create(ctx, args, parent, update, via, named):
    """Constructing a frame, registering it or not."""
    if via == "constructor" and update:
        return ctx.prove(True, "no update without registration")
    w = World(ctx)
    kw, below, root = arguments(ctx, args)
    p, resolved = parent_of(w, parent)
    name = "n" if named else None
    before = w.reg.start("n") if via == "register_frame" or parent == "same name" else None
    if via == "register_frame":
        v, e = outcome(lambda: w.rf.register_frame(name, parent=p, update=update, **kw))
    else:
        v, e = outcome(lambda: w.cls(name, parent=p, **kw))
    pf = resolved()
    valid = root if parent is None else below and pf is not None
    if via == "register_frame":
        valid = valid and named and (before is None or update)
    ok((e is None) == valid, "valid arguments are accepted, and only those", repr(e))
    if e is not None:
        ok(isinstance(e, TypeError) if type(p) is int and isinstance(e, TypeError) else isinstance(e, ValueError), "kind of error", repr(e))
        return w.unchanged("failed operation")
    if via == "constructor":
        ok(isinstance(v, w.cls) and v.name == name, "the frame has the requested name")
        return w.unchanged("construction", edges=[(v, pf)])
    new = w.reg.now("n")
    ok(new is not None and new in w.made and new.name == "n", "the name resolves to the new frame")
    edges = [(new, pf)]
    if before is not None:
        edges.append((before, None))
    w.unchanged("registration", {"n": new}, edges)


@contract("C09", ["reference_frames._register", "reference_frames._check_name", "reference_frames.ReferenceFrame.register"], update=[False, True], entry=["absent", "self", "other"], named=[True, False])
def register(ctx, update, entry, named):
    """Registering an existing frame."""
    w = World(ctx)
    f = w.old("frame", "n" if named else None)
    w.reg.initial["n"] = {"absent": None, "self": f}.get(entry) if entry != "other" else w.old("entry", "n")
    other = w.reg.initial["n"]
    v, e = outcome(lambda: f.register(update=update))
    if not named or entry != "absent" and not update:
        ok(isinstance(e, ValueError), "a taken or missing name is rejected", repr(e))
        return w.unchanged("failed registration")
    ok(e is None, "registration", repr(e))
    w.unchanged("registration", {"n": f}, [(other, None)] if entry == "other" else [])


@contract("C09", ["reference_frames._deregister", "reference_frames.deregister_frame", "reference_frames.ReferenceFrame.deregister"], via=["function", "method"])
def deregister(ctx, via):
    w = World(ctx)
    f = w.old("frame", "n")
    if via == "method":
        w.reg.initial["n"] = f if ctx.branch(z3.Bool("registered")) else None
        v, e = outcome(lambda: f.deregister())
    else:
        v, e = outcome(lambda: w.rf.deregister_frame("n"))
    if w.reg.start("n") is None:
        ok(isinstance(e, ValueError), "an unknown name is rejected", repr(e))
        return w.unchanged("failed removal")
    ok(e is None, "removal", repr(e))
    w.unchanged("removal", {"n": None})


@contract("C09", ["reference_frames.clear_registry"])
def clear(ctx):
    w = World(ctx)
    f = w.old("frame", "n")
    w.rf.clear_registry()
    ok(w.reg.cleared and not w.reg.changes and "n" not in w.reg, "clearing removes all names")
    for x in w.frames:
        ok(w.parents[id(x)] is w.start[id(x)], "clearing leaves the tree alone")


@contract("C09", ["reference_frames.ReferenceFrame.__del__"], entry=["absent", "self", "other"], named=[True, False])
def discard(ctx, entry, named):
    """A discarded frame takes along its own entry and no other."""
    w = World(ctx)
    f = w.old("frame", "n" if named else None)
    w.reg.initial["n"] = {"absent": None, "self": f}.get(entry) if entry != "other" else w.old("entry", "n")
    must_not_raise(lambda: f.__del__(), "discarding never fails")
    w.unchanged("discarding", {"n": None} if entry == "self" and named else {})


@contract("C09", ["core._resolve_rf"], what=["name", "frame", "other", "none"])
def resolve(ctx, what):
    w = World(ctx)
    f = w.old("frame", "n")
    g = mod("core")._resolve_rf
    if what == "name":
        v, e = outcome(lambda: g("n"))
        want = w.reg.start("n")
        if want is None:
            ok(isinstance(e, ValueError), "an unknown name is rejected", repr(e))
        else:
            ok(v is want, "the frame registered under the name")
    elif what == "frame":
        ok(g(f) is f, "a frame stands for itself")
    else:
        must_raise(lambda: g(None if what == "none" else 5), TypeError, "neither name nor frame")
    w.unchanged("resolving")


@contract("C09", REG)
def public(ctx):
    """The public registry is the registry of the functions."""
    r, rf = mod(""), mod("reference_frames")
    ok(r.registry is rf._registry, "registry")
    r.register_frame("root")
    ok(list(r.registry) == ["root"] and r.registry["root"].name == "root", "registered through the package")
    r.register_frame("child", parent="root")
    c = r.registry["child"]
    ok(c.parent is r.registry["root"] and r.registry["root"].children == (c,), "attached to the parent")
    r.deregister_frame("root")
    ok(list(r.registry) == ["child"] and c.parent.name == "root", "removed from the registry only")
    r.clear_registry()
    ok(not r.registry, "cleared")
