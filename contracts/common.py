"""Building blocks of the contracts: symbolic inputs, spec helpers, obligations."""
import z3

from pyvc import terms as T
from pyvc import engine as E
from pyvc import symnp as S
from pyvc import symquat as Q
from pyvc import seqs
from pyvc import prover as P
from pyvc.terms import Unsupported, PathEnd
from pyvc.loader import Loader
from pyvc.engine import C, SInt, SBool, mkint, fresh_int

PKG = "rigid_body_motion"


class Case:
    """One contract: the function(s) under contract and a proof body."""

    def __init__(self, name, functions, body, budget=60, expect=1, **params):
        self.name, self.functions, self.body, self.params = name, functions, body, params
        self.budget, self.expect = budget, expect


_cases = {}


def contract(prop, functions, name=None, budget=60, expect=1, **grid):
    """Register a proof body; list-valued keyword arguments span a grid of cases."""
    def deco(f):
        keys = list(grid)
        combos = [{}]
        for k in keys:
            combos = [dict(c, **{k: v}) for c in combos for v in grid[k]]
        for c in combos:
            nm = (name or f.__name__) + ("[%s]" % ",".join("%s=%s" % (k, _short(v)) for k, v in c.items()) if c else "")
            _cases.setdefault(prop, []).append(Case(nm, functions, f, budget, expect, **c))
        return f
    return deco


def _short(v):
    return getattr(v, "__name__", None) or str(v)


def cases(prop):
    return _cases.get(prop, [])


def mod(name):
    """A freshly executed instrumented module of the package."""
    ctx = C()
    ld = ctx.store.get("loader")
    if ld is None:
        ld = ctx.store["loader"] = Loader(ctx.store.get("shims"))
    return ld.load(PKG + "." + name if name else PKG)


# --------------------------------------------------------------- inputs
def real_array(name, shape, owner=None, kind="f", unit=None):
    ctx = C()
    nm = ctx.fresh(name)
    n = len(shape)
    srt = {"f": T.RS, "i": T.IS, "M": T.IS, "b": T.BS}[kind]
    f = T.fn(nm, *([T.IS] * n + [srt])) if n else z3.Const(nm, srt)
    a = S.SymArray(tuple(shape), S.DT(kind, unit), (lambda idx: f(*[T.zint(i) for i in idx])) if n else (lambda idx: f),
                   owner=owner if owner is not False else None)
    if owner is None:
        a.cell.owner = "argument %s" % name
    return a


def quat_array(name, shape, owner=None, nonzero=False):
    ctx = C()
    nm = ctx.fresh(name)
    n = len(shape)
    fs = [T.fn("%s_%s" % (nm, c), *([T.IS] * n + [T.RS])) if n else z3.Real("%s_%s" % (nm, c)) for c in "wxyz"]

    def at(idx):
        q = tuple(f(*[T.zint(i) for i in idx]) if n else f for f in fs)
        return q

    return S.SymArray(tuple(shape), "q", at, owner=owner or "argument %s" % name)


def timestamps(name, n, kind="f", unit=None, owner=None, sorted_=True, strict=False):
    """Sorted timestamps (the order facts are quantified and ground on demand)."""
    if owner is False and C().store.get("frames_only"):
        owner = "looked-up (possibly stored) timestamps"
    a = real_array(name, (n,), owner=owner, kind=kind, unit=unit)
    ctx = C()
    if sorted_:
        i, j = z3.Int("ti!"), z3.Int("tj!")
        g = a.reader()
        rel = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
        ctx.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < S.dz(n)), rel(g((i,)), g((j,)))),
                                   patterns=[z3.MultiPattern(g((i,)), g((j,)))]))
        ctx.store.setdefault("sorted", []).append((a, n, strict))
    return a


def dims(rank, name="n", lo=0, fixed=None):
    """Symbolic dimensions; fixed: {axis: size}."""
    fixed = fixed or {}
    return tuple(fixed[i] if i in fixed else fresh_int("%s%d" % (name, i), lo) for i in range(rank))


def q_at(a, idx, axis):
    """Quaternion with the components on the given axis of a float array."""
    ax = axis % a.ndim
    return tuple(a.at(idx[:ax] + (c,) + idx[ax:]) for c in range(4))


def v_at(a, idx, axis, n=3):
    ax = axis % a.ndim
    return tuple(a.at(tuple(idx[:ax]) + (c,) + tuple(idx[ax:])) for c in range(n))


def assume_nonzero(q):
    C().assume(T.qnorm2(q) != 0)


# ---------------------------------------------------------- obligations
def check_shape(res, shape, what):
    """Obligation: the result is an array of exactly this shape."""
    ctx = C()
    if not isinstance(res, S.SymArray):
        ctx.fail(what + ": shape", "result is a %s" % type(res).__name__)
        raise PathEnd()
    if res.ndim != len(shape):
        ctx.fail(what + ": shape", "result has rank %d instead of %d" % (res.ndim, len(shape)))
        raise PathEnd()
    for ax, (a, b) in enumerate(zip(res.shape, shape)):
        if S.same_dim(a, b):
            continue
        if not ctx.prove(T.cmp("==", S.dz(a), S.dz(b)), what + ": length of axis %d" % ax):
            raise PathEnd()


def check_dtype(res, kind, what):
    ctx = C()
    if not isinstance(res, S.SymArray) or res.dtype.kind != kind:
        ctx.fail(what + ": dtype", "dtype kind %s instead of %s" % (getattr(getattr(res, "dtype", None), "kind", type(res).__name__), kind))
        raise PathEnd()


def check_array(res, shape, spec, what, pre=None, kind="f", idx_pre=None):
    """Obligation: res has this shape and res[idx] == spec(idx) at every index."""
    ctx = C()
    check_shape(res, shape, what)
    if kind:
        if not (res.dtype.kind == kind or (kind == "f" and res.dtype.kind == "i")):
            check_dtype(res, kind, what)
    for idx, cs in S.all_indices(tuple(shape)):
        extra = list(cs)
        if pre is not None:
            p = pre(idx)
            extra += [T.zbool(x) for x in (p if isinstance(p, (list, tuple)) else [p]) if x is not True]
        got, want = res.at(idx), spec(idx)
        ctx.prove(S.value_eq(got, want), what, extra=extra)


def outcome(thunk):
    """(value, None) or (None, exception) of a call on this path."""
    try:
        return thunk(), None
    except Exception as e:
        from pyvc.runner import reraise_internal
        reraise_internal(e)
        return None, e


def must_raise(thunk, exc, what):
    """Obligation: the call raises exc on this path."""
    ctx = C()
    v, e = outcome(thunk)
    if e is None:
        ctx.fail(what, "no exception was raised")
    elif not isinstance(e, exc):
        ctx.fail(what, "raised %s: %s" % (type(e).__name__, e))
    else:
        ctx.prove(True, what)


def must_not_raise(thunk, what):
    ctx = C()
    v, e = outcome(thunk)
    if e is not None:
        ctx.fail(what, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
        raise PathEnd()
    return v


# ----------------------------------------------------------- DataArrays
def data_array(arr, dims, coords=None, name="nm", attrs=None):
    """A symbolic DataArray argument; any modification of it is an obligation failure."""
    from pyvc import symxr as X
    return X.DataArray(arr, coords or {}, tuple(dims), name, attrs or {"units": "u"}).freeze("argument %s" % name)


def labels(*names):
    return S.asarray(list(names))


def label_array(name, n):
    """Arbitrary (non-numeric) labels along an axis."""
    a = real_array(name, (n,), kind="i")
    a.dtype = S.DT("U")
    return a


def durations(name, n):
    """Arbitrary time differences along an axis."""
    a = real_array(name, (n,), kind="i")
    a.dtype = S.DT("m", "ns")
    return a


def is_da(r):
    from pyvc import symxr as X
    return isinstance(r, X.DataArray)


def check_da(r, dims, name, attrs, what):
    """Obligation: a DataArray with these dimensions, name and attributes."""
    ctx = C()
    if not is_da(r):
        ctx.fail(what + ": DataArray", "result is a %s" % type(r).__name__)
        raise PathEnd()
    ok(tuple(r.dims) == tuple(dims), what + ": dimension names", "%s instead of %s" % (r.dims, tuple(dims)))
    if tuple(r.dims) != tuple(dims):
        raise PathEnd()
    ok(r.name == name, what + ": name", repr(r.name))
    ok(dict(r.attrs) == dict(attrs), what + ": attributes", "%s instead of %s" % (dict(r.attrs), dict(attrs)))


def ok(cond, what, reason=""):
    """Obligation decided by the engine itself (structure, not arithmetic)."""
    ctx = C()
    if cond is True:
        ctx.prove(True, what)
    elif cond is False:
        ctx.fail(what, reason)
    else:
        ctx.prove(cond, what)


def check_coord(r, c, dims, shape, spec, what, kind=None, pre=None):
    """Obligation: coordinate c has these dims and values."""
    ctx = C()
    if c not in r.coords:
        ctx.fail(what, "coordinate %s is missing" % c)
        return
    d, a, _ = r._coords[c]
    ok(tuple(d) == tuple(dims), what + ": dimensions", "%s instead of %s" % (d, dims))
    if tuple(d) == tuple(dims):
        check_array(a, shape, spec, what, kind=kind, pre=pre)


def check_labels(r, c, want, what):
    ctx = C()
    if c not in r.coords:
        return ctx.fail(what, "coordinate %s is missing" % c)
    d, a, _ = r._coords[c]
    good = tuple(d) == (c,) and a.shape == (len(want),) and [a.at((i,)) for i in range(len(want))] == list(want)
    ok(good, what, "labels differ from %s" % (want,))
