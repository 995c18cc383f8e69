"""Contracts of the numpy-quaternion and scipy functions used by the verified code."""
import z3

from . import terms as T
from .terms import Unsupported
from .engine import C, SInt
from . import symnp as S
from . import prover as P


class _QMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, S.SymArray) and x.dtype.kind == "q" and x.ndim == 0


class quaternion(metaclass=_QMeta):
    def __new__(cls, *a):
        c = [S.asarray(x).item_term() for x in a]
        if len(c) == 1:
            c = c + [0, 0, 0]
        elif len(c) == 3:
            c = [0] + c
        elif len(c) == 0:
            c = [0, 0, 0, 0]
        if len(c) != 4:
            raise TypeError("quaternion constructor takes zero, one, three or four arguments")
        return S.scalar(tuple(c), "q")

    name = "quaternion"


S.QTYPE[0] = quaternion

METHODS = {
    "conjugate": lambda q: S.unop(T.qconj, q),
    "conj": lambda q: S.unop(T.qconj, q),
    "inverse": lambda q: S.unop(T.qinv, q),
    "norm": lambda q: S.unop(T.qnorm2, q, "f"),
    "abs": lambda q: S.unop(lambda v: T.sqrt(T.qnorm2(v)), q, "f"),
    "normalized": lambda q: S.unop(_normalized, q),
}


def _normalized(v):
    n = T.sqrt(T.qnorm2(v))
    return tuple(T.div(c, n) for c in v)


def as_quat_array(a):
    a = S.asarray(a)
    if a.dtype.kind == "q":
        raise Unsupported("as_quat_array of quaternions")
    if a.dtype.kind not in "fib":
        raise TypeError("cannot convert to double")
    if a.ndim == 0:
        raise Unsupported("as_quat_array of a scalar")
    if not S.dims_equal(a.shape[-1], 4):
        if isinstance(a.shape[-1], int) and a.shape[-1] % 4:
            raise ValueError("Please ensure that the last dimension has size divisible by 4.")
        raise Unsupported("as_quat_array with last dimension other than 4")
    g = a.reader()
    r = S.SymArray(a.shape[:-1], "q", lambda i: tuple(g(i + (c,)) for c in range(4)))
    if a.cell.owner is not None and a.ndim > 1 and a.dtype.kind == "f":
        # possibly a view of the input
        r.cell.owner = a.cell.owner
    return r


from_float_array = as_quat_array


def as_float_array(q):
    q = S.asarray(q)
    if q.dtype.kind != "q":
        q = q.astype(quaternion)
    g = q.reader()

    def at(idx):
        v, c = g(idx[:-1]), idx[-1]
        if isinstance(c, int):
            return v[c]
        r = v[3]
        for k in (2, 1, 0):
            r = T.ite(c == k, v[k], r)
        return r

    r = S.SymArray(q.shape + (4,), "f", at)
    if q.cell.owner is not None and q.ndim > 0:
        r.cell.owner = q.cell.owner
    return r


def as_vector_part(q):
    return as_float_array(q)[..., 1:]


def from_vector_part(v, vector_axis=-1):
    v = S.np.moveaxis(S.asarray(v), vector_axis, -1)
    if not S.dims_equal(v.shape[-1], 3):
        raise ValueError("The input array shape should have length 3")
    g = v.reader()
    return S.SymArray(v.shape[:-1], "q", lambda i: (0,) + tuple(g(i + (c,)) for c in range(3)))


def rotmat(q):
    """Matrix of v -> q v q^-1."""
    return [[T.rot(q, [1 if k == j else 0 for k in range(3)])[i] for j in range(3)] for i in range(3)]


def rotate_vectors(R, v, axis=-1):
    """Contract: result[i.., j..] = R_i v_j R_i^-1 with shape R.shape + v.shape."""
    R, v = S.asarray(R), S.asarray(v)
    if R.dtype.kind != "q":
        raise Unsupported("quaternion.rotate_vectors of a float array")
    if v.ndim < 1:
        raise ValueError("Input `v` does not have at least one dimension of length 3")
    ax = S.norm_axis(axis, v.ndim)
    if not S.dims_equal(v.shape[ax], 3):
        raise ValueError("Input `v` axis has length other than 3")
    nr = R.ndim
    gr, gv = R.reader(), v.reader()

    def at(idx):
        i, j = idx[:nr], idx[nr:]
        c = j[ax]
        w = T.rot(gr(i), [gv(j[:ax] + (k,) + j[ax + 1:]) for k in range(3)])
        if isinstance(c, int):
            return w[c]
        return T.ite(c == 0, w[0], T.ite(c == 1, w[1], w[2]))

    return S.SymArray(R.shape + v.shape, "f", at)


def as_rotation_matrix(q):
    q = S.asarray(q)
    g = q.reader()

    def at(idx):
        m = rotmat(g(idx[:-2]))
        i, j = idx[-2:]
        if isinstance(i, int) and isinstance(j, int):
            return m[i][j]
        from .npmod import _sel2
        return _sel2(m, (i, j))

    return S.SymArray(q.shape + (3, 3), "f", at)


def from_rotation_matrix(rot, nonorthogonal=True):
    """Contract: for a proper rotation matrix, the result is a unit quaternion whose rotation is the matrix.

    Requires: the matrix is orthogonal with determinant one (obligation at the call site).
    """
    rot = S.asarray(rot)
    if rot.ndim < 2:
        raise ValueError("rot must have at least two dimensions")
    if not (S.dims_equal(rot.shape[-1], 3) and S.dims_equal(rot.shape[-2], 3)):
        raise ValueError("Input must be of shape (..., 3, 3)")
    ctx = C()
    ctx.assumption("quaternion.from_rotation_matrix: unit quaternion of a proper rotation matrix")
    g = rot.reader()
    tag = ctx.fresh("frm")
    nb = rot.ndim - 2
    fs = [T.fn("%s_%d" % (tag, c), *([T.IS] * nb + [T.RS])) if nb else z3.Real("%s_%d" % (tag, c)) for c in range(4)]
    memo = {}

    def at(idx):
        k = S.ikey(idx)
        if k in memo:
            return memo[k][1]
        q = tuple(f(*[T.zint(i) for i in idx]) if nb else f for f in fs)
        memo[k] = (idx, q)
        M = [[g(idx + (i, j)) for j in range(3)] for i in range(3)]
        require_rotation(M)
        ctx.facts.append(T.zreal(T.qnorm2(q)) == 1)
        from .terms import mul, add, sub
        w, x, y, z = q
        # polynomial form of the rotation matrix of a unit quaternion
        E = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
        for i in range(3):
            for j in range(3):
                ctx.facts.append(T.zreal(M[i][j]) == E[i][j])
        return q

    r = S.SymArray(rot.shape[:-2], "q", at)
    ctx.store.setdefault("frm", []).append((rot, r))
    return r


def require_rotation(M):
    """Obligation: M is a proper rotation."""
    ctx = C()
    h = ctx.store.get("rotation_hook")
    if h is not None and h(M):
        return
    for i in range(3):
        for j in range(i + 1):
            s = 0
            for k in range(3):
                s = T.add(s, T.mul(M[k][i], M[k][j]))
            ctx.prove(T.cmp("==", s, 1 if i == j else 0), "from_rotation_matrix requires an orthogonal matrix")
    d = 0
    for c, (a, b) in enumerate(((1, 2), (2, 0), (0, 1))):
        d = T.add(d, T.mul(M[0][c], T.sub(T.mul(M[1][a], M[2][b]), T.mul(M[1][b], M[2][a]))))
    ctx.prove(T.cmp("==", d, 1), "from_rotation_matrix requires determinant one")


def _expmap(v):
    """Unit quaternion of a rotation vector: cos(|v|/2) + sin(|v|/2) v/|v|.

    For a vector along one coordinate axis this is (cos(a/2), .. sin(a/2) ..).
    """
    nz = [k for k in range(3) if not (isinstance(v[k], T.NUM) and v[k] == 0)]
    if not nz:
        return (1, 0, 0, 0)
    if len(nz) == 1:
        h = T.mul(v[nz[0]], T.num(0.5))
        r = [T.cos(h), 0, 0, 0]
        r[nz[0] + 1] = T.sin(h)
        return tuple(r)
    z = [T.zreal(c) for c in v]
    return tuple(T.rfun("expmap_%d" % c, 3)(*z) for c in range(4))


def from_rotation_vector(rot):
    rot = S.asarray(rot)
    if not S.dims_equal(rot.shape[-1], 3):
        raise ValueError("could not broadcast input array")
    g = rot.reader()
    return S.SymArray(rot.shape[:-1], "q", lambda i: _expmap([g(i + (c,)) for c in range(3)]))


def as_rotation_vector(q):
    q = S.asarray(q)
    if q.dtype.kind != "q":
        raise Unsupported("as_rotation_vector of floats")
    g = q.reader()

    def at(idx):
        v = [T.zreal(x) for x in g(idx[:-1])]
        f = lambda c: T.rfun("logmap_%d" % c, 4)(*v)
        c = idx[-1]
        if isinstance(c, int):
            return f(c)
        return T.ite(c == 0, f(0), T.ite(c == 1, f(1), f(2)))

    return S.SymArray(q.shape + (3,), "f", at)


# -------------------------------------------------- operators along a column
def column_token(kind, comps, n):
    """Identity of the column i -> comps(i), 0 <= i < n (equal columns share it)."""
    ctx = C()
    k = z3.Int("k!col")
    body = [c if T.is_z3(c) else T.zreal(c) for c in comps(k)]
    norm = [P.normalize(T.zreal(b)) for b in body]
    key = kind + "|" + str(S.dz(n)) + "|" + ";".join(b.sexpr() for b in norm)
    reg = ctx.store.setdefault("columns", [])
    for e in reg:
        if e["key"] == key:
            return e["id"]
    for e in reg:
        if e["kind"] == kind and len(e["body"]) == len(norm) and _may_match(norm, e["body"]) and S.dims_same_holds(e["n"], n):
            goal = T.land(*[x == y for x, y in zip(norm, e["body"])])
            if ctx.holds(goal, extra=[k >= 0, k < S.dz(n)], ms=1500):
                return e["id"]
    tid = ctx.fresh("col_" + kind)
    reg.append({"key": key, "kind": kind, "body": norm, "n": n, "id": tid})
    return tid


def _may_match(a, b):
    """False if some sample read in a is read nowhere in b (or the reverse): cheap filter."""
    x, y = _reads(a), _reads(b)
    near = lambda p, q: p.decl().eq(q.decl()) and not any(
        z3.is_int_value(u) and z3.is_int_value(v) and u.as_long() != v.as_long() for u, v in zip(p.children(), q.children()))
    return all(any(near(p, q) for q in y) for p in x) and all(any(near(p, q) for q in x) for p in y)


def _reads(es):
    out, seen, st = [], set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.sort() == T.RS:
            out.append(e)
        st.extend(e.children())
    return out


def spec_lerp(xs, ys, n, t):
    """Linear interpolation of the samples (xs(i), ys(i)) at t: spec function."""
    tid = column_token("lerp", lambda k: [xs(k), ys(k)], n)
    return T.fn(tid, T.RS, T.RS)(T.zreal(t))


def spec_squad(xs, qs, n, t):
    """SQUAD interpolation of the rotors qs(i) at times xs(i), evaluated at t."""
    tid = column_token("squad", lambda k: [xs(k)] + list(qs(k)), n)
    return tuple(T.fn("%s_%d" % (tid, c), T.RS, T.RS)(T.zreal(t)) for c in range(4))


def spec_deriv(xs, ys, n, i):
    """Spline derivative of the samples at sample i."""
    tid = column_token("deriv", lambda k: [xs(k), ys(k)], n)
    return T.fn(tid, T.IS, T.RS)(T.zint(i))


def spec_lowpass(order, wn, ys, n, i):
    """Low-pass filtered (forward and backward Butterworth) samples at sample i."""
    tid = column_token("lowpass%d/%r" % (order, wn), lambda k: [ys(k)], n)
    return T.fn(tid, T.IS, T.RS)(T.zint(i))


class Coefficients:
    def __init__(self, n, wn, part):
        self.n, self.wn, self.part = n, wn, part


class interp1d:
    """scipy.interpolate.interp1d (linear)."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        x, y = S.asarray(x), S.asarray(y)
        if kind not in ("linear", 1):
            if isinstance(kind, str) and kind in ("nearest", "previous", "next", "zero", "cubic", "quadratic", "slinear"):
                self.kind = kind
            else:
                raise Unsupported("interp1d kind")
        else:
            self.kind = "linear"
        if fill_value is not None:
            raise Unsupported("interp1d fill_value")
        if x.dtype.kind == "M":
            raise Unsupported("interp1d over datetimes")
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        self.axis = S.norm_axis(axis, y.ndim)
        if not S.dims_equal(x.shape[0], y.shape[self.axis]):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.x, self.y, self.bounds_error = x, y, bounds_error
        self.xr, self.yr = x.reader(), y.reader()
        C().assumption("scipy.interpolate.interp1d: linear interpolation between the neighbouring samples; "
                       "ValueError outside the sample range (samples sorted)")

    def __call__(self, t):
        t = S.asarray(t)
        ctx = C()
        n = self.x.shape[0]
        gt = t.reader()
        if ctx.branch(T.cmp("<=", S.dz(n), 0)):
            raise ValueError("array of sample points is empty")
        if self.bounds_error is not False:
            x0, x1 = self.xr((0,)), self.xr((S.izs(T.sub(S.dz(n), 1)),))
            for idx, cs in S.all_indices(t.shape, "t"):
                inside = T.land(T.cmp("<=", x0, gt(idx)), T.cmp("<=", gt(idx), x1))
                if inside is True or ctx.holds(inside, extra=cs):
                    continue
                if ctx.store.get("interp_range", "raise") == "raise":
                    bad = T.land(*cs, T.lnot(inside))
                    if ctx.branch(z3.Exists(list(c for c in idx if T.is_z3(c)), bad) if any(T.is_z3(c) for c in idx) else bad):
                        raise ValueError("A value in x_new is out of the interpolation range.")
                    if any(T.is_z3(c) for c in idx):
                        continue
        else:
            ctx.assumption("scipy.interpolate.interp1d with bounds_error=False: NaN outside the range of the (sorted) samples")
        lo, hi = self.xr((0,)), self.xr((S.izs(T.sub(S.dz(n), 1)),))
        fill = self.bounds_error is False
        ax, xr, yr, kind = self.axis, self.xr, self.yr, self.kind
        nd = t.ndim

        def at(idx):
            rest_l, ti, rest_r = idx[:ax], idx[ax:ax + nd], idx[ax + nd:]
            ys = lambda k: yr(rest_l + (k,) + rest_r)
            if kind != "linear":
                if fill:
                    raise Unsupported("interp1d with NaN fill")
                tid = column_token("interp_" + kind, lambda k: [xr((k,)), ys(k)], n)
                return T.fn(tid, T.RS, T.RS)(T.zreal(gt(ti)))
            v = spec_lerp(lambda k: xr((k,)), ys, n, gt(ti))
            return T.ite(T.land(T.cmp("<=", lo, gt(ti)), T.cmp("<=", gt(ti), hi)), v, S.NAN) if fill else v

        return S.SymArray(self.y.shape[:ax] + t.shape + self.y.shape[ax + 1:], "f", at)


def squad(R_in, t_in, t_out, unflip_input_rotors=False):
    """numpy-quaternion squad: spherical interpolation along the first axis."""
    R, ti, to = S.asarray(R_in), S.asarray(t_in), S.asarray(t_out)
    if R.dtype.kind != "q" or unflip_input_rotors is not False:
        raise Unsupported("squad arguments")
    if R.ndim < 1 or ti.ndim != 1 or to.ndim != 1:
        raise Unsupported("squad with these ranks")
    if "M" in (ti.dtype.kind, to.dtype.kind):
        raise Unsupported("squad over datetimes")
    if not S.dims_equal(R.shape[0], ti.shape[0]):
        raise ValueError("squad: R_in and t_in must have the same length")
    C().assumption("quaternion.squad: SQUAD interpolation along the first axis, element-wise over the others, "
                   "a function of the samples and the output time; reproduces the samples at their times "
                   "(at least two samples with distinct times)")
    g, gi, go = R.reader(), ti.reader(), to.reader()
    n = R.shape[0]

    def at(idx):
        return spec_squad(lambda k: gi((k,)), lambda k: g((k,) + idx[1:]), n, go((idx[0],)))

    return S.SymArray(to.shape + R.shape[1:], "q", at)


def derivative(f, t, derivative_order=1, axis=0):
    """numpy-quaternion spline derivative along an axis, element-wise over the others."""
    f, t = S.asarray(f), S.asarray(t)
    if derivative_order != 1:
        raise Unsupported("derivative order")
    axis = S.norm_axis(axis, f.ndim)
    if t.dtype.kind == "M":
        raise Unsupported("derivative over datetimes")
    if not S.dims_equal(f.shape[axis], t.shape[0]):
        raise ValueError("derivative: lengths do not match")
    C().assumption("quaternion.derivative: numerical (spline) derivative along the axis, linear in the samples, "
                   "element-wise over the other axes")
    g, gt = f.reader(), t.reader()
    n = f.shape[axis]

    def at(idx):
        return spec_deriv(lambda k: gt((k,)), lambda k: g(idx[:axis] + (k,) + idx[axis + 1:]), n, idx[axis])

    return S.SymArray(f.shape, "f", at)


class cKDTree:
    """scipy.spatial.cKDTree: nearest neighbours."""

    def __init__(self, data, *a, **k):
        self.data = S.asarray(data)
        if a or k or self.data.ndim != 2:
            raise Unsupported("cKDTree arguments")

    def query(self, x, k=1, **kw):
        x = S.asarray(x)
        if kw or k != 1 or x.ndim != 2:
            raise Unsupported("cKDTree.query arguments")
        if not S.dims_equal(x.shape[1], self.data.shape[1]):
            raise ValueError("x must consist of vectors of the same length")
        ctx = C()
        ctx.assumption("scipy.spatial.cKDTree.query: index of a nearest data point and its distance")
        d = self.data
        n, m = x.shape[0], d.shape[0]
        gx, gd = x.reader(), d.reader()
        tag = ctx.fresh("nn")
        I = T.fn(tag, T.IS, T.IS)
        memo = {}
        D2 = lambda i, j: T.dot(*(2 * [[T.sub(gx((i, c)), gd((j, c))) for c in range(3)]]))

        def idx_at(idx):
            i = T.zint(idx[0])
            j = I(i)
            if i.get_id() not in memo:
                memo[i.get_id()] = i
                q = z3.Int("q!nn")
                f = z3.Implies(z3.And(i >= 0, i < S.dz(n)), z3.And(j >= 0, j < S.dz(m)))
                ctx.facts.append(f)
                ctx.solver.add(f)
                ctx.facts.append(z3.ForAll([q], z3.Implies(z3.And(i >= 0, i < S.dz(n), q >= 0, q < S.dz(m)), D2(i, j) <= D2(i, q))))
            return j

        dist = S.SymArray((n,), "f", lambda idx: T.sqrt(D2(idx[0], idx_at(idx))))
        ii = S.SymArray((n,), "i", idx_at)
        ctx.store.setdefault("nn", []).append((x, d, ii))
        return dist, ii


KDTree = cKDTree


class QuatModule:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return T.Opaque("quaternion.%s" % name)

    quaternion = quaternion
    as_quat_array = staticmethod(as_quat_array)
    from_float_array = staticmethod(as_quat_array)
    as_float_array = staticmethod(as_float_array)
    as_vector_part = staticmethod(as_vector_part)
    from_vector_part = staticmethod(from_vector_part)
    rotate_vectors = staticmethod(rotate_vectors)
    as_rotation_matrix = staticmethod(as_rotation_matrix)
    from_rotation_matrix = staticmethod(from_rotation_matrix)
    from_rotation_vector = staticmethod(from_rotation_vector)
    as_rotation_vector = staticmethod(as_rotation_vector)
    squad = staticmethod(squad)
    derivative = staticmethod(derivative)
    one = property(lambda self: S.scalar((1, 0, 0, 0), "q"))


class InterpModule:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return T.Opaque("scipy.interpolate.%s" % name)

    interp1d = interp1d


class SpatialModule:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return T.Opaque("scipy.spatial.%s" % name)

    cKDTree = cKDTree
    KDTree = cKDTree


class SignalModule:
    """butter/filtfilt: an uninterpreted filter (only reached with cutoff)."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return T.Opaque("scipy.signal.%s" % name)

    @staticmethod
    def butter(n, wn, *a, **k):
        if a or k or not isinstance(n, int) or not isinstance(wn, (int, float)):
            raise Unsupported("butter")
        return Coefficients(n, wn, "b"), Coefficients(n, wn, "a")

    @staticmethod
    def filtfilt(b, a, x, axis=-1, **k):
        if k or not (isinstance(b, Coefficients) and isinstance(a, Coefficients)) or (b.part, a.part) != ("b", "a") or (b.n, b.wn) != (a.n, a.wn):
            raise Unsupported("filtfilt")
        x = S.asarray(x)
        axis = S.norm_axis(axis, x.ndim)
        n = x.shape[axis]
        ctx = C()
        ctx.assumption("scipy.signal.filtfilt: a function of the coefficients and the samples along the axis, element-wise over the others; "
                       "ValueError for too few samples")
        if ctx.branch(T.cmp("<=", S.dz(n), 3 * (b.n + 1))):
            raise ValueError("The length of the input vector x must be greater than padlen.")
        g = x.reader()
        return S.SymArray(x.shape, "f", lambda idx: spec_lowpass(b.n, b.wn, lambda k: g(idx[:axis] + (k,) + idx[axis + 1:]), n, idx[axis]))
