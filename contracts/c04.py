"""C04: the output timestamps: one sampling base within the common range."""
from contracts.frames import *
from contracts.c01 import world

ASSUMES = [
    'the common time range of the elements contains at least one sample (otherwise the result is empty)',
]

FN = ["core.TransformMatcher.get_timestamps", "core.TransformMatcher.get_range", "core.TransformMatcher.add_reference_frame",
      "core.TransformMatcher.add_array", "core.TransformMatcher._check_timestamps", "reference_frames.ReferenceFrame._get_matcher",
      "reference_frames.ReferenceFrame._walk"]


def as_ns(v, dtype):
    return T.mul(v, S.unit_ns(dtype.unit)) if dtype.kind == "M" else v


class Elements:
    """The timestamped elements of a transformation: arrays and the frames of the path."""

    def __init__(self, up, down, arrays):
        self.up, self.down, self.arrays = up, down, arrays

    def frames(self):
        """(family, generic index, range constraint) of every sort of frame."""
        for f in (self.up, self.down):
            if S.dz(f.n) == 0 if isinstance(S.dz(f.n), int) else False:
                continue
            k = z3.Int(C().fresh("ek"))
            yield f, k, z3.And(k >= 0, k < S.dz(f.n))

    def common(self, x):
        """x (number or ns) lies within the range of every ranged element."""
        cs = []
        for a in self.arrays:
            n = S.dz(a.shape[0])
            v = lambda i: as_ns(a.at((i,)), a.dtype)
            cs += [T.cmp("<=", v(0), x), T.cmp("<=", x, v(S.izs(T.sub(n, 1))))]
        for f, k, rng in self.frames():
            cs.append(z3.ForAll([k], z3.Implies(z3.And(rng, f.is_kind(k, CONT)), z3.And(T.zbool(T.cmp("<=", f.ns(k, 0), x)), T.zbool(T.cmp("<=", x, f.ns(k, f.N(k) - 1)))))))
        return T.land(*cs)

    def has(self, kind):
        return T.lor(*[z3.Exists([k], z3.And(rng, f.is_kind(k, kind))) for f, k, rng in self.frames()])

    def first(self, kind):
        """[(condition, family, index)] of the first frame of this kind in path order; assumed to exist."""
        ctx = C()
        out, before = [], True
        for f, k, rng in self.frames():
            w = z3.Int(ctx.fresh("w"))
            here = z3.Exists([k], z3.And(rng, f.is_kind(k, kind)))
            ctx.assume(z3.Implies(here, z3.And(w >= 0, w < S.dz(f.n), f.is_kind(w, kind), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w), z3.Not(f.is_kind(k, kind)))))))
            out.append((T.land(before, here), f, w))
            before = T.land(before, T.lnot(here))
        return out


def filtered(r, n, value, cond, what, given=True):
    """Obligation: r is the sub-sequence of value(i), i < n, of exactly the elements with cond(i)."""
    ctx = C()
    prov = getattr(r, "prov", None)
    h = [T.zbool(given)] if given is not True else []
    if prov is None or prov[0] != "filter":
        raise Unsupported("timestamps of unknown origin")
    base, F = prov[1], prov[2]
    i = z3.Int(ctx.fresh("ti"))
    rng = [i >= 0, i < T.zint(n)] + h
    ctx.prove(T.cmp("==", S.dz(base.shape[0]), n), what + ": number of samples of the sampling base", extra=h)
    ctx.prove(T.cmp("==", as_ns(base.at((i,)), base.dtype), value(i)), what + ": samples of the sampling base", extra=rng)
    c = cond(i)
    ctx.prove(z3.Implies(T.zbool(F.mask((i,))), T.zbool(c)), what + ": nothing outside the common range", extra=rng)
    ctx.prove(z3.Implies(T.zbool(c), T.zbool(F.mask((i,)))), what + ": everything within the common range", extra=rng)


@contract("C04", FN, budget=200, path=[("n", 0), (0, "n"), ("n", "n"), (0, 0)], times=["f", "s/ms"], arr=["none", "ts", "plain"])
def output_timestamps(ctx, path, times, arr):
    m, up, down, a, b = world(ctx, times, path)
    arrays, given = None, []
    if arr != "none":
        n = fresh_int("n_arr", 1)
        data = real_array("data", (n, 3))
        ts = None
        if arr == "ts":
            ts = timestamps("ats", n, kind=up.tkind, unit=None if up.tkind == "f" else "us")
            given = [ts]
        arrays = [(data, ts)]
    el = Elements(up, down, given)
    r = a._get_matcher(b, arrays=arrays).get_timestamps()
    if r is None:
        ok(not given, "an array with timestamps is the sampling base")
        ctx.prove(T.lnot(el.has(CONT)), "no timestamps: no continuous frame")
        ctx.prove(T.lnot(el.has(DISC)), "no timestamps: no discrete frame")
        return
    if given:
        return filtered(r, S.dz(n), lambda i: as_ns(ts.at((i,)), ts.dtype), lambda i: el.common(as_ns(ts.at((i,)), ts.dtype)), "array timestamps")
    prov = getattr(r, "prov", None)
    if prov is None:
        raise Unsupported("timestamps of unknown origin")
    if prov[0] == "filter":
        ctx.prove(el.has(CONT), "sampled from a frame: there is a continuous one")
        for c, f, w in el.first(CONT):
            filtered(r, f.N(w), lambda i: f.ns(w, i), lambda i: el.common(f.ns(w, i)), "first continuous frame", given=c)
        return
    ctx.prove(T.lnot(el.has(CONT)), "union: no continuous frame")
    ctx.prove(el.has(DISC), "union: some discrete frame")
    i, j = z3.Int("oi"), z3.Int("oj")
    mm = S.dz(r.shape[0])
    v = lambda i: as_ns(r.at((i,)), r.dtype)
    ctx.prove(T.cmp("<", v(i), v(j)), "union: strictly increasing", extra=[i >= 0, i < j, j < mm])
    src = []
    for f, k, rng in el.frames():
        s = z3.Int(ctx.fresh("s"))
        inside = z3.And(rng, f.is_kind(k, DISC), s >= 0, s < f.N(k))
        src.append(z3.Exists([k, s], z3.And(inside, T.zbool(T.cmp("==", v(i), f.ns(k, s))))))
        hits = []
        for ar, pos in prov[3]:
            for p in ([pos(k, s)] if ar == 2 else [pos(s)]):
                hits.append(z3.And(p >= 0, p < mm, T.zbool(T.cmp("==", v(p), f.ns(k, s)))))
        ctx.prove(z3.Or(*hits), "union: every event is included", extra=[inside])
    ctx.prove(T.lor(*src), "union: only events are included", extra=[i >= 0, i < mm])


@contract("C04", FN, path=[("n", 0), (0, "n")], times=["f", "s/ms"])
def frames_first(ctx, path, times):
    """arrays_first=False: continuous frames come before arrays."""
    m, up, down, a, b = world(ctx, times, path)
    n = fresh_int("n_arr", 1)
    ts = timestamps("ats", n, kind=up.tkind, unit=None if up.tkind == "f" else "us")
    el = Elements(up, down, [ts])
    r = a._get_matcher(b, arrays=[(real_array("data", (n, 3)), ts)]).get_timestamps(arrays_first=False)
    prov = getattr(r, "prov", None)
    if prov is None or prov[0] != "filter":
        raise Unsupported("timestamps of unknown origin")
    some = el.has(CONT)
    for c, f, w in el.first(CONT):
        filtered(r, f.N(w), lambda i: f.ns(w, i), lambda i: el.common(f.ns(w, i)), "first continuous frame", given=T.land(some, c))
    at = lambda i: as_ns(ts.at((i,)), ts.dtype)
    filtered(r, S.dz(n), at, lambda i: el.common(at(i)), "array, without continuous frames", given=T.lnot(some))


@contract("C04", ["reference_frames.ReferenceFrame._match_arrays", "core.TransformMatcher.get_arrays", "core.TransformMatcher.get_timestamps",
                  "core.TransformMatcher.get_range"], which=[(1, 1), (1, 0), (0, 1), (0, 0), (1, 1, 1), (0, 1, 1), (1, 0, 0, 1)], times=["f", "M"])
def matched_arrays(ctx, which, times):
    """Several arrays: the samples of the first timestamped one in the common range."""
    m = mod("reference_frames")
    arrays, given = [], []
    for k, w in enumerate(which):
        n = fresh_int("n_arr%d" % k, 2)
        ts = None
        if w:
            ts = timestamps("ats%d" % k, n, kind=times, unit=None if times == "f" else ["us", "s", "ns", "ms"][k], strict=True)
            given.append(ts)
        arrays.append((real_array("data%d" % k, (n, 3) if w else (3,)), ts))
    r = m.ReferenceFrame._match_arrays(arrays)
    ok(len(r) == len(which) + 1, "one result per array and the timestamps")
    if not given:
        return ok(r[-1] is None, "no timestamps: static result")
    first = given[0]
    at = lambda i: as_ns(first.at((i,)), first.dtype)

    def common(x):
        cs = []
        for a in given:
            v = lambda i: as_ns(a.at((i,)), a.dtype)
            cs += [T.cmp("<=", v(0), x), T.cmp("<=", x, v(S.izs(T.sub(S.dz(a.shape[0]), 1))))]
        return T.land(*cs)

    filtered(r[-1], S.dz(first.shape[0]), at, lambda i: common(at(i)), "first timestamped array")
