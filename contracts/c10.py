"""C10: frame conditions of every public function.

Every contract of the other properties that calls public functions is run again here for its frame condition only: on
entry into a public function all arrays and DataArrays reachable from its arguments, and the arrays of all frames, are
labelled and recorded; a write into a labelled array (through any view), a modification of a DataArray's data, coordinates,
attributes, name or dimensions, of a list or dict argument, or of a frame's stored transform is an obligation `frame: ...`
that must not change a value; on return the recorded objects must be what they were.
"""
import importlib
import os
import types as _types

from contracts.frames import *
from contracts import common as _common

ASSUMES = [
    "a view of an array is recognised by its storage; float/quaternion conversions are treated as possible views",
    "arrays whose ranks or kinds the other contracts do not enumerate are left to the bounded trials",
]
STORED = ("translation", "rotation", "timestamps", "discrete")
MODULES = {"rigid_body_motion": None, "rigid_body_motion.utils": None, "rigid_body_motion.estimators": None, "rigid_body_motion.coordinate_systems": None,
           "rigid_body_motion.reference_frames": None, "rigid_body_motion.accessors": None, "rigid_body_motion.core": None,
           "rigid_body_motion.plotting": None, "rigid_body_motion.ros.msg": None, "rigid_body_motion.ros.transformer": None,
           "rigid_body_motion.ros.io": None, "rigid_body_motion.ros.visualization": None}


class Frames:
    """The monitor of one path."""

    def __init__(self, ctx):
        self.ctx, self.inside, self.frames, self.building, self.registries = ctx, 0, [], set(), []

    # -- instrumentation
    def on_load(self, m):
        if m.__name__ not in MODULES:
            return
        for k, v in list(vars(m).items()):
            if isinstance(v, _types.FunctionType) and v.__module__ == m.__name__ and not k.startswith("_"):
                m.__dict__[k] = self.entry(v, k)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                self.on_class(v)
        if m.__name__.endswith(".reference_frames"):
            self.registries.append(m)
            self.trap(m.ReferenceFrame)

    def on_class(self, cls):
        for k, v in list(vars(cls).items()):
            if k.startswith("_") and k != "__init__":
                continue
            if isinstance(v, (classmethod, staticmethod)):
                setattr(cls, k, type(v)(self.entry(v.__func__, k)))
            elif isinstance(v, _types.FunctionType):
                setattr(cls, k, self.init(v, k) if k == "__init__" else self.entry(v, k))

    def init(self, fn, name):
        call = self.entry(fn, name, skip=1)

        def __init__(this, *a, **k):
            self.building.add(id(this))
            try:
                r = call(this, *a, **k)
            finally:
                self.building.discard(id(this))
            self.frames.append(this)
            return r
        __init__.__signature__ = _signature(fn)
        return __init__

    def entry(self, fn, name, skip=0):
        def public(*a, **k):
            if self.inside:
                return fn(*a, **k)
            snap = Snapshot(self, fn.__name__, a[skip:], k)
            self.inside = 1
            try:
                r = fn(*a, **k)
            except Exception:
                self.inside = 0
                snap.check()
                raise
            finally:
                self.inside = 0
            snap.check()
            return r
        public.__name__, public.__wrapped__, public.__doc__ = fn.__name__, fn, fn.__doc__
        public.__module__, public.__defaults__ = fn.__module__, None
        return public

    def trap(self, cls):
        base = cls.__setattr__

        def set_(this, k, v):
            if k in STORED and self.inside and id(this) not in self.building:
                same(getattr(this, k), v, "frame: stored %s is not modified" % k)
                return
            base(this, k, v)
        cls.__setattr__ = set_


def _signature(fn):
    import inspect
    return inspect.signature(fn)


def same(old, new, what):
    """Obligation: the new value of a stored attribute is the old one."""
    ctx = C()
    if old is new:
        return ctx.prove(True, what)
    if not (isinstance(old, S.SymArray) and isinstance(new, S.SymArray)) or old.ndim != new.ndim:
        if isinstance(old, (bool, int, str, type(None))) and old == new:
            return ctx.prove(True, what)
        return ctx.fail(what, "%r replaced by %r" % (type(old).__name__, type(new).__name__))
    for a, b in zip(old.shape, new.shape):
        if not S.same_dim(a, b):
            ctx.prove(T.cmp("==", S.dz(a), S.dz(b)), what)
    for idx, cs in S.all_indices(old.shape):
        ctx.prove(S.value_eq(old.at(idx), new.at(idx)), what, extra=list(cs))


class Snapshot:
    def __init__(self, mon, fn, args, kw):
        self.mon, self.fn, self.rec, self.seen = mon, fn, [], set()
        for i, a in enumerate(args):
            self.walk("argument %d of %s" % (i, fn), a)
        for k, a in kw.items():
            self.walk("argument %s of %s" % (k, fn), a)
        for f in mon.frames:
            self.walk("frame", f)
        for m in mon.registries:
            r = vars(m).get("_registry")
            if type(r) is dict:
                for f in list(r.values()):
                    self.walk("frame", f)

    def walk(self, label, x):
        from pyvc import symxr as X
        if id(x) in self.seen:
            return
        self.seen.add(id(x))
        if isinstance(x, S.SymArray):
            if x.cell.owner is None:
                x.cell.owner = label
            self.rec.append((label, x, x.cell, x.cell.version))
        elif isinstance(x, X.DataArray):
            if not x._frozen:
                x.freeze(label)
            self.walk(label, x._data)
            for c, (d, a, at) in x._coords.items():
                self.walk("coordinate %s of %s" % (c, label), a)
            self.rec.append((label, x, "da", self.state(x)))
        elif isinstance(x, X.Dataset):
            x.attrs._frozen = label
            for v in x._vars.values():
                self.walk(label, v)
            for c, v in x._coords.items():
                self.walk("coordinate %s of %s" % (c, label), v[1])
        elif type(x) is list:
            self.rec.append((label, x, "list", list(x)))
            for v in x:
                self.walk(label, v)
        elif type(x) is dict:
            self.rec.append((label, x, "dict", dict(x)))
            for v in x.values():
                self.walk(label, v)
        elif type(x) is tuple:
            for v in x:
                self.walk(label, v)
        elif "translation" in getattr(x, "__dict__", {}):
            for k in STORED:
                if k in x.__dict__:
                    self.walk("stored %s" % k, x.__dict__[k])
            self.rec.append(("stored transform", x, "frame", {k: x.__dict__.get(k) for k in STORED}))

    def state(self, x):
        return (x._dims, x.name, dict(x.attrs), {k: (v[0], id(v[1].cell)) for k, v in x._coords.items()}, id(x._data.cell))

    def check(self):
        ctx = C()
        for o in sorted({c.owner for c in ctx.cells.values() if c.owner and not c.owner.startswith("argument")}):
            # every write has proved that it changes no value
            ctx.prove(True, "frame: %s is as before" % o)
        for label, x, kind, old in self.rec:
            what = "frame: %s is as before" % label
            if isinstance(kind, S.Cell):
                # every write has proved that it changes no value
                ctx.prove(True, what)
            elif kind == "da":
                ok(self.state(x) == old, what, "%s changed to %s" % (old[:3], self.state(x)[:3]))
            elif kind == "list":
                ok(len(x) == len(old) and all(a is b for a, b in zip(x, old)), what, "list changed")
            elif kind == "dict":
                ok(list(x) == list(old) and all(x[k] is old[k] for k in x), what, "dict changed")
            elif kind == "frame":
                for k in STORED:
                    same(old[k], x.__dict__.get(k), "frame: stored %s is as before" % k)


SOURCES = ["C%02d" % i for i in range(1, 25) if i not in (9, 10)]
SOME = ("c08.selection", "c08.attributes", "c12.qmean_qaxis", "c14.separate_angles", "c19.linear", "c19.angular", "c23.publish")   # not all cases call public functions
SKIP = ("lemma", "rejects", "unknown", "invalid", "plain_numbers", "unit_norm", "neighbours", "discrete_root", "c01.wrappers", "c21.static")
LIMIT = 12
SLOW = {"c04.output_timestamps": 3, "c04.frames_first": 1, "c20.datetimes": 3, "c01.composition": 4, "c21.options": 4, "c18.dataarrays": 6,
        "c17.transform": 6, "c17.dataarrays": 5, "c23.from_reference_frame": 2, "c02.moving_routes": 2, "c03.moving_inverse": 3}


def framed(case):
    def body(ctx, **params):
        ctx.store["frames_only"] = mon = Frames(ctx)
        ctx.store["on_load"] = mon.on_load
        case.body(ctx, **params)
    return body


def collect():
    for prop in SOURCES:
        importlib.import_module("contracts." + prop.lower())
        groups = {}
        for c in cases(prop):
            groups.setdefault("%s.%s" % (prop.lower(), c.name.split("[")[0]), []).append(c)
        for g, cs in groups.items():
            if g in SKIP or g == "c21.static_wrappers" or any(g.split(".")[1].startswith(s) for s in SKIP):
                continue
            n = SLOW.get(g, LIMIT) * (4 if os.environ.get("PYVC_TIER") == "thorough" else 1)
            step = max(1, -(-len(cs) // n))
            for c in cs[::step]:
                _common._cases.setdefault("C10", []).append(_common.Case("%s.%s" % (prop.lower(), c.name), c.functions, framed(c), c.budget, int(g not in SOME), **c.params))


collect()
