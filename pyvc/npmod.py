"""The numpy namespace offered to the verified code (contracts of numpy functions)."""
import z3

from . import terms as T
from .terms import Unsupported
from .engine import C, SInt, SBool, mkint, mkbool
from . import symnp as S


class AxisError(ValueError, IndexError):
    pass


class LinAlgError(ValueError):
    pass


class _Linalg:
    LinAlgError = LinAlgError

    def __getattr__(self, name):
        raise Unsupported("numpy.linalg.%s" % name)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = S.asarray(x)
        if ord not in (None, 2) and not (ord == "fro"):
            raise Unsupported("norm order")
        if axis is None and x.ndim > 1 and ord is not None and ord == 2:
            raise Unsupported("matrix 2-norm")
        s = np.sum(x * x, axis=axis, keepdims=keepdims)
        return S.unop(T.sqrt, s, "f")

    @staticmethod
    def det(a):
        a = S.asarray(a)
        if a.ndim < 2:
            raise LinAlgError("at least two-dimensional")
        n = a.shape[-1]
        if not isinstance(n, int) or not S.dims_equal(a.shape[-2], n) or n > 4:
            raise Unsupported("determinant of a %s matrix" % (a.shape,))
        g = a.reader()

        def det(rows, cols, idx):
            if not rows:
                return 1
            r = 0
            for k, c in enumerate(cols):
                t = T.mul(g(idx + (rows[0], c)), det(rows[1:], cols[:k] + cols[k + 1:], idx))
                r = T.add(r, t if k % 2 == 0 else T.neg(t))
            return r

        return S.SymArray(a.shape[:-2], "f", lambda idx: det(list(range(n)), list(range(n)), idx))

    @staticmethod
    def inv(a):
        raise Unsupported("inv")

    @staticmethod
    def eigh(a):
        """Contract: columns of v are orthonormal, a v_j = w_j v_j, w ascending."""
        a = S.asarray(a)
        n = a.shape[-1]
        if a.ndim < 2 or not isinstance(n, int) or not S.dims_equal(a.shape[-2], n):
            raise LinAlgError("Last 2 dimensions of the array must be square")
        ctx = C()
        ctx.assumption("numpy.linalg.eigh: columns of v are orthonormal eigenvectors of the (symmetric) matrix, eigenvalues ascending")
        tag = ctx.fresh("eigh")
        g = a.reader()
        memo = {}
        nb = a.ndim - 2
        V = T.fn(tag + "_v", *([T.IS] * (nb + 2) + [T.RS]))
        W = T.fn(tag + "_w", *([T.IS] * (nb + 1) + [T.RS]))

        def facts(lead):
            k = S.ikey(lead)
            if k in memo:
                return
            memo[k] = lead
            z = [T.zint(i) for i in lead]
            v = lambda i, j: V(*z, i, j)
            w = lambda j: W(*z, j)
            # symmetric input is required
            for i in range(n):
                for j in range(i):
                    goal = T.cmp("==", g(lead + (i, j)), g(lead + (j, i)))
                    if goal is not True and not ctx.holds(goal):
                        ctx.prove(goal, "eigh requires a symmetric matrix")
            for i in range(n):
                for j in range(i + 1):
                    ctx.facts.append(T.zreal(sum([v(k, i) * v(k, j) for k in range(n)])) == (1 if i == j else 0))
            for i in range(n):
                for j in range(n):
                    lhs = 0
                    for k in range(n):
                        lhs = T.add(lhs, T.mul(g(lead + (i, k)), v(k, j)))
                    ctx.facts.append(T.zreal(lhs) == w(j) * v(i, j))
            for j in range(n - 1):
                ctx.facts.append(w(j) <= w(j + 1))

        def vat(idx):
            facts(idx[:-2])
            return V(*[T.zint(i) for i in idx])

        def wat(idx):
            facts(idx[:-1])
            return W(*[T.zint(i) for i in idx])

        wv = S.SymArray(a.shape[:-1], "f", wat), S.SymArray(a.shape, "f", vat)
        ctx.store.setdefault("eigh", []).append((a, V, W, tag))
        return wv

    @staticmethod
    def svd(a, full_matrices=True, compute_uv=True):
        """Contract: a = U diag(S) Vt, U and Vt orthogonal, S descending and >= 0."""
        a = S.asarray(a)
        if a.ndim != 2 or not (a.shape[0] == 3 and a.shape[1] == 3) or not compute_uv:
            raise Unsupported("svd of a %s matrix" % (a.shape,))
        ctx = C()
        ctx.assumption("numpy.linalg.svd: a = U diag(S) Vt with orthogonal U, Vt and S descending, non-negative")
        n = 3
        tag = ctx.fresh("svd")
        U = [[z3.Real("%s_U%d%d" % (tag, i, j)) for j in range(n)] for i in range(n)]
        Vt = [[z3.Real("%s_Vt%d%d" % (tag, i, j)) for j in range(n)] for i in range(n)]
        s = [z3.Real("%s_S%d" % (tag, i)) for i in range(n)]
        F = ctx.facts
        H = [[a.at((i, j)) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                F.append(T.zreal(H[i][j]) == sum(U[i][k] * s[k] * Vt[k][j] for k in range(n)))
                if j <= i:
                    d = 1 if i == j else 0
                    F.append(sum(U[k][i] * U[k][j] for k in range(n)) == d)
                    F.append(sum(U[i][k] * U[j][k] for k in range(n)) == d)
                    F.append(sum(Vt[k][i] * Vt[k][j] for k in range(n)) == d)
                    F.append(sum(Vt[i][k] * Vt[j][k] for k in range(n)) == d)
        F += [s[0] >= s[1], s[1] >= s[2], s[2] >= 0]
        ctx.store.setdefault("svd", []).append((H, U, s, Vt))
        mk = lambda M: S.SymArray((n, n), "f", lambda idx: M[idx[0]][idx[1]] if all(isinstance(i, int) for i in idx) else _sel2(M, idx))
        return mk(U), S.SymArray((n,), "f", lambda idx: s[idx[0]] if isinstance(idx[0], int) else _sel1(s, idx[0])), mk(Vt)


def _sel1(s, i):
    if isinstance(i, int):
        return s[i]
    r = s[-1]
    for k in range(len(s) - 2, -1, -1):
        r = T.ite(i == k, s[k], r)
    return r


def _sel2(M, idx):
    return _sel1([_sel1(row, idx[1]) for row in M], idx[0])


def _elementwise(fn, kind="f"):
    def f(x, *a, **k):
        if a or k:
            raise Unsupported("ufunc arguments")
        x = S.asarray(x)
        if x.dtype.kind == "q":
            raise Unsupported("ufunc on quaternions")
        return S.unop(fn, x, kind)
    return f


def _binary(fn, kind=None):
    def f(a, b, *r, **k):
        if r or k:
            raise Unsupported("ufunc arguments")
        a, b = S.asarray(a), S.asarray(b)
        shape, (sa, sb) = S.broadcast_shape(a.shape, b.shape)
        ga, gb = a.reader(), b.reader()
        nd = len(shape)
        kd = kind or S.promote(a.dtype.kind, b.dtype.kind)
        return S.SymArray(shape, kd, lambda i: fn(ga(S.bidx(i, nd, sa)), gb(S.bidx(i, nd, sb))))
    return f


def _op(op):
    return lambda a, b: S.binop(op, S.asarray(a), S.asarray(b))


def _nary_max(sign):
    def f(a, b):
        return T.ite(T.cmp(">=" if sign > 0 else "<=", a, b), a, b)
    return f


class NP:
    ndarray = S.SymArray
    newaxis = None
    nan = float("nan")
    inf = float("inf")
    AxisError = AxisError
    linalg = _Linalg()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return T.Opaque("numpy.%s" % name)

    float64 = S.NT("float64", "f", "f")
    float32 = S.NT("float32", "f", "f")
    int64 = S.NT("int64", "i", "i")
    int32 = S.NT("int32", "i", "i")
    uint64 = S.NT("uint64", "u", "u")
    bool_ = S.NT("bool_", "b", "b")
    str_ = S.NT("str_", "U", "U")
    object_ = S.NT("object_", "O", "O")
    number = S.NT("number", "fium")
    floating = S.NT("floating", "f")
    integer = S.NT("integer", "ium")
    datetime64 = S.NT("datetime64", "M")
    timedelta64 = S.NT("timedelta64", "m")
    generic = S.NT("generic", "fiubMmqUO")

    @property
    def pi(self):
        return S.scalar(T.PI, "f")

    @staticmethod
    def dtype(x):
        return S.as_dt(x)

    @staticmethod
    def issubdtype(a, b):
        a = S.as_dt(a)
        if isinstance(b, S.NT):
            return a.kind in b.kinds
        if b is float:
            return a.kind == "f"
        if b is int:
            return a.kind == "i"
        b = S.as_dt(b)
        return a.kind == b.kind

    # -- creation
    @staticmethod
    def asarray(x, dtype=None):
        return S.asarray(x, dtype)

    asanyarray = ascontiguousarray = asarray

    @staticmethod
    def array(x, dtype=None, copy=True, ndmin=0):
        if ndmin:
            raise Unsupported("ndmin")
        r = S.asarray(x, dtype)
        return r.copy() if r is x and copy else r

    @staticmethod
    def copy(x):
        return S.asarray(x).copy()

    @staticmethod
    def _shape(s):
        if isinstance(s, (tuple, list)):
            return tuple(S.dim(d) for d in s)
        return (S.dim(s),)

    @staticmethod
    def full(shape, v, dtype=None):
        v = S.asarray(v)
        if dtype is not None:
            v = v.astype(dtype)
        return NP.broadcast_to(v, NP._shape(shape)).copy()

    @staticmethod
    def zeros(shape, dtype=float):
        dt = S.as_dt(dtype)
        z = (0, 0, 0, 0) if dt.kind == "q" else False if dt.kind == "b" else 0
        return S.SymArray(NP._shape(shape), dt, lambda i: z)

    @staticmethod
    def ones(shape, dtype=float):
        dt = S.as_dt(dtype)
        return S.SymArray(NP._shape(shape), dt, lambda i: True if dt.kind == "b" else 1)

    @staticmethod
    def empty(shape, dtype=float):
        return NP._arbitrary(NP._shape(shape), S.as_dt(dtype))

    @staticmethod
    def _arbitrary(shape, dt):
        tag = C().fresh("uninit")
        srt = {"f": T.RS, "i": T.IS, "b": T.BS}.get(dt.kind)
        n = len(shape)
        if dt.kind == "q":
            fs = [T.fn("%s_%d" % (tag, c), *([T.IS] * n + [T.RS])) if n else z3.Real("%s_%d" % (tag, c)) for c in range(4)]
            return S.SymArray(shape, dt, lambda i: tuple(f(*[T.zint(k) for k in i]) if n else f for f in fs))
        if srt is None:
            raise Unsupported("empty of kind %s" % dt.kind)
        if not n:
            v = z3.Const(tag, srt)
            return S.SymArray(shape, dt, lambda i: v)
        f = T.fn(tag, *([T.IS] * n + [srt]))
        return S.SymArray(shape, dt, lambda i: f(*[T.zint(k) for k in i]))

    @staticmethod
    def zeros_like(a, dtype=None):
        a = S.asarray(a)
        return NP.zeros(a.shape, dtype or a.dtype)

    @staticmethod
    def ones_like(a, dtype=None):
        a = S.asarray(a)
        return NP.ones(a.shape, dtype or a.dtype)

    @staticmethod
    def empty_like(a, dtype=None):
        a = S.asarray(a)
        return NP.empty(a.shape, dtype or a.dtype)

    @staticmethod
    def full_like(a, v, dtype=None):
        a = S.asarray(a)
        return NP.full(a.shape, v, dtype or a.dtype)

    @staticmethod
    def eye(n, dtype=float):
        return S.SymArray((n, n), S.as_dt(dtype), lambda i: T.ite(T.cmp("==", i[0], i[1]), 1, 0))

    identity = eye

    @staticmethod
    def arange(*a):
        a = [S.dim(x) if not isinstance(x, float) else S._bad("float arange") for x in a]
        if len(a) == 1:
            st, n, step = 0, a[0], 1
        else:
            st, n = a[0], a[1] - a[0]
            step = a[2] if len(a) > 2 else 1
        if not (isinstance(step, int) and step == 1):
            if all(isinstance(x, int) for x in a):
                r = list(range(*a))
                return S.asarray(r) if r else S.SymArray((0,), "i", lambda i: 0)
            raise Unsupported("arange step")
        if isinstance(n, int):
            n = max(n, 0)
        elif not C().holds(n.e >= 0) and C().branch(n.e < 0):
            n = 0
        return S.SymArray((n,), "i", lambda i: T.add(i[0], S.dz(st)))

    # -- shape
    @staticmethod
    def shape(a):
        return S.asarray(a).shape

    @staticmethod
    def ndim(a):
        return S.asarray(a).ndim

    @staticmethod
    def size(a, axis=None):
        a = S.asarray(a)
        return a.size if axis is None else a.shape[axis]

    @staticmethod
    def reshape(a, shape):
        return S.asarray(a).reshape(shape)

    @staticmethod
    def ravel(a):
        return S.asarray(a).ravel()

    @staticmethod
    def swapaxes(a, x, y):
        a = S.asarray(a)
        x, y = S.norm_axis(x, a.ndim), S.norm_axis(y, a.ndim)
        p = list(range(a.ndim))
        p[x], p[y] = p[y], p[x]
        return S.permute(a, p)

    @staticmethod
    def moveaxis(a, src, dst):
        a = S.asarray(a)
        src = [src] if not isinstance(src, (list, tuple)) else list(src)
        dst = [dst] if not isinstance(dst, (list, tuple)) else list(dst)
        src = [S.norm_axis(s, a.ndim) for s in src]
        dst = [S.norm_axis(d, a.ndim) for d in dst]
        order = [n for n in range(a.ndim) if n not in src]
        for d, s in sorted(zip(dst, src)):
            order.insert(d, s)
        return S.permute(a, order)

    @staticmethod
    def rollaxis(a, axis, start=0):
        a = S.asarray(a)
        axis = S.norm_axis(axis, a.ndim)
        if start < 0:
            start += a.ndim
        if axis < start:
            start -= 1
        order = list(range(a.ndim))
        order.remove(axis)
        order.insert(start, axis)
        return S.permute(a, order)

    @staticmethod
    def transpose(a, axes=None):
        return S.transpose(S.asarray(a), axes)

    @staticmethod
    def expand_dims(a, axis):
        a = S.asarray(a)
        axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        nd = a.ndim + len(axes)
        axes = sorted(S.norm_axis(x, nd) for x in axes)
        key = []
        for i in range(nd):
            key.append(None if i in axes else slice(None))
        return a[tuple(key)]

    @staticmethod
    def atleast_1d(a):
        a = S.asarray(a)
        return a[None] if a.ndim == 0 else a

    @staticmethod
    def atleast_2d(a):
        a = S.asarray(a)
        return a[None, None] if a.ndim == 0 else a[None, :] if a.ndim == 1 else a

    @staticmethod
    def squeeze(a, axis=None):
        a = S.asarray(a)
        if axis is None:
            if any(isinstance(d, SInt) for d in a.shape):
                axes = [i for i, d in enumerate(a.shape) if S.dims_equal(d, 1)]
            else:
                axes = [i for i, d in enumerate(a.shape) if d == 1]
        else:
            axes = [S.norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
            for x in axes:
                if not S.dims_equal(a.shape[x], 1):
                    raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        return a[tuple(0 if i in axes else slice(None) for i in range(a.ndim))]

    @staticmethod
    def broadcast_to(a, shape):
        a = S.asarray(a)
        shape = NP._shape(shape)
        if len(shape) < a.ndim:
            raise ValueError("input operand has more dimensions than allowed")
        sh, (sa, sb) = S.broadcast_shape(a.shape, shape)
        if any(sb):
            raise ValueError("operands could not be broadcast together with remapped shapes")
        g = a.reader()
        nd = len(shape)
        return S.SymArray(shape, a.dtype, lambda i: g(S.bidx(i, nd, sa)), writable=False)

    @staticmethod
    def broadcast_arrays(*arrs):
        arrs = [S.asarray(a) for a in arrs]
        sh, sts = S.broadcast_shape(*[a.shape for a in arrs])
        return [NP.broadcast_to(a, sh) for a in arrs]

    @staticmethod
    def tile(a, reps):
        a = S.asarray(a)
        reps = NP._shape(reps)
        nd = max(a.ndim, len(reps))
        reps = (1,) * (nd - len(reps)) + reps
        if a.ndim < nd:
            a = a[(None,) * (nd - a.ndim) + (Ellipsis,)]
        shape, mode = [], []
        for d, r in zip(a.shape, reps):
            if isinstance(r, int) and r == 1:
                shape.append(d)
                mode.append("id")
            elif isinstance(d, int) and d == 1:
                shape.append(r)
                mode.append("zero")
            else:
                shape.append(S.mkint(T.mul(S.dz(d), S.dz(r))) if True else None)
                mode.append(("mod", S.dz(d)))
        g = a.reader()

        def at(idx):
            j = []
            for i, m in zip(idx, mode):
                if m == "id":
                    j.append(i)
                elif m == "zero":
                    j.append(0)
                else:
                    j.append(i % m[1] if isinstance(i, int) and isinstance(m[1], int) else S.izs(T.zint(i) % T.zint(m[1])))
            return g(tuple(j))

        return S.SymArray(tuple(shape), a.dtype, at)

    @staticmethod
    def repeat(a, n, axis=None):
        a = S.asarray(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        axis = S.norm_axis(axis, a.ndim)
        n = S.dim(n)
        g = a.reader()
        d = a.shape[axis]
        shape = a.shape[:axis] + (S.mkint(T.mul(S.dz(d), S.dz(n))),) + a.shape[axis + 1:]

        def at(idx):
            i = idx[axis]
            if isinstance(d, int) and d == 1:
                j = 0
            elif isinstance(n, int) and isinstance(i, int):
                j = i // n
            else:
                j = S.izs(T.zint(i) / T.zint(S.dz(n)))
            return g(idx[:axis] + (j,) + idx[axis + 1:])

        return S.SymArray(shape, a.dtype, at)

    @staticmethod
    def stack(arrays, axis=0):
        return S.stack(list(arrays) if not hasattr(arrays, "_sym_seq") else S._bad("stack of a symbolic list"), axis)

    @staticmethod
    def concatenate(arrays, axis=0):
        return S.concatenate(arrays, axis)

    @staticmethod
    def hstack(arrays):
        arrays = [NP.atleast_1d(a) for a in arrays]
        return S.concatenate(arrays, 0 if arrays[0].ndim == 1 else 1)

    @staticmethod
    def vstack(arrays):
        return S.concatenate([NP.atleast_2d(a) for a in arrays], 0)

    @staticmethod
    def append(a, b, axis=None):
        if axis is None:
            return S.concatenate([S.asarray(a).ravel(), S.asarray(b).ravel()], 0)
        return S.concatenate([a, b], axis)

    @staticmethod
    def column_stack(arrays):
        arrays = [S.asarray(a) for a in arrays]
        return S.concatenate([a[:, None] if a.ndim == 1 else a for a in arrays], 1)

    @staticmethod
    def flip(a, axis=None):
        a = S.asarray(a)
        ax = range(a.ndim) if axis is None else [S.norm_axis(axis, a.ndim)]
        return a[tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim))]

    @staticmethod
    def take(a, indices, axis=None):
        a = S.asarray(a)
        if axis is None:
            a = a.ravel()
            axis = 0
        axis = S.norm_axis(axis, a.ndim)
        if isinstance(indices, (list, tuple)):
            indices = S.asarray(list(indices))
        return a[(slice(None),) * axis + (indices,)]

    @staticmethod
    def delete(a, obj, axis=None):
        a = S.asarray(a)
        axis = S.norm_axis(axis, a.ndim)
        n = a.shape[axis]
        if not isinstance(n, int) or not isinstance(obj, int):
            raise Unsupported("delete")
        keep = [i for i in range(n) if i != obj % n]
        return NP.take(a, keep, axis)

    @staticmethod
    def split(a, n, axis=0):
        a = S.asarray(a)
        axis = S.norm_axis(axis, a.ndim)
        d = a.shape[axis]
        if not isinstance(d, int) or not isinstance(n, int) or d % n:
            raise Unsupported("split")
        k = d // n
        return [a[(slice(None),) * axis + (slice(i * k, (i + 1) * k),)] for i in range(n)]

    @staticmethod
    def array_split(a, n, axis=0):
        return NP.split(a, n, axis)

    @staticmethod
    def hsplit(a, n):
        return NP.split(a, n, 0 if S.asarray(a).ndim == 1 else 1)

    @staticmethod
    def vsplit(a, n):
        return NP.split(a, n, 0)

    @staticmethod
    def dstack(arrays):
        arrays = [NP.atleast_2d(a) for a in arrays]
        return S.concatenate([a[:, :, None] if a.ndim == 2 else a for a in arrays], 2)

    @staticmethod
    def flipud(a):
        return NP.flip(a, 0)

    @staticmethod
    def fliplr(a):
        return NP.flip(a, 1)

    @staticmethod
    def pad(a, width, mode="constant", constant_values=0):
        a = S.asarray(a)
        if mode != "constant" or not isinstance(constant_values, (int, float)):
            raise Unsupported("numpy.pad")
        if isinstance(width, int):
            width = [(width, width)] * a.ndim
        elif len(width) == 2 and all(isinstance(w, int) for w in width):
            width = [tuple(width)] * a.ndim
        elif len(width) == 1 and a.ndim != 1:
            width = list(width) * a.ndim
        if len(width) != a.ndim or not all(isinstance(x, int) for w in width for x in w):
            raise Unsupported("numpy.pad")
        for ax, (lo, hi) in enumerate(width):
            fill = lambda m: S.SymArray(a.shape[:ax] + (m,) + a.shape[ax + 1:], a.dtype, lambda idx: constant_values)
            parts = ([fill(lo)] if lo else []) + [a] + ([fill(hi)] if hi else [])
            a = S.concatenate(parts, ax) if len(parts) > 1 else a
        return a

    @staticmethod
    def roll(a, shift, axis=None):
        a = S.asarray(a)
        if not isinstance(shift, int) or isinstance(axis, (tuple, list)) or (axis is None and a.ndim != 1):
            raise Unsupported("numpy.roll")
        axis = S.norm_axis(0 if axis is None else axis, a.ndim)
        n = a.shape[axis]
        if isinstance(n, int):
            shift = shift % n if n else 0
        elif not C().holds(T.cmp(">=", S.dz(n), abs(shift))):
            raise Unsupported("numpy.roll")
        if shift == 0:
            return a.copy()
        pre = (slice(None),) * axis
        return S.concatenate([a[pre + (slice(-shift, None),)], a[pre + (slice(None, -shift),)]], axis)

    @staticmethod
    def ediff1d(a, to_end=None, to_begin=None):
        parts = [NP.diff(S.asarray(a).ravel())]
        if to_begin is not None:
            parts.insert(0, NP.atleast_1d(S.asarray(to_begin)))
        if to_end is not None:
            parts.append(NP.atleast_1d(S.asarray(to_end)))
        return S.concatenate(parts, 0) if len(parts) > 1 else parts[0]

    @staticmethod
    def diag(a, k=0):
        a = S.asarray(a)
        if k or a.ndim != 1 or not isinstance(a.shape[0], int):
            raise Unsupported("numpy.diag")
        g, n = a.reader(), a.shape[0]
        return S.SymArray((n, n), a.dtype, lambda i: T.ite(T.cmp("==", i[0], i[1]), g((i[0],)), 0))

    @staticmethod
    def extract(condition, a):
        return S.asarray(a)[S.asarray(condition)]

    @staticmethod
    def copyto(dst, src):
        dst[...] = src

    @staticmethod
    def positive(a):
        return S.asarray(a) * 1

    @staticmethod
    def reciprocal(a):
        return 1 / S.asarray(a)

    @staticmethod
    def logical_xor(a, b):
        return NP.logical_and(NP.logical_or(a, b), ~NP.logical_and(a, b))

    @staticmethod
    def iterable(a):
        return hasattr(a, "__iter__") and not (isinstance(a, S.SymArray) and a.ndim == 0)

    class _C:
        def __getitem__(self, arrays):
            return NP.column_stack(arrays if isinstance(arrays, tuple) else (arrays,))

    class _R:
        def __getitem__(self, arrays):
            arrays = arrays if isinstance(arrays, tuple) else (arrays,)
            if any(isinstance(a, (str, slice)) for a in arrays):
                raise Unsupported("numpy.r_")
            return S.concatenate([NP.atleast_1d(S.asarray(a)) for a in arrays], 0)

    class _S:
        def __getitem__(self, i):
            return i

    c_, r_, s_, index_exp = _C(), _R(), _S(), _S()

    # -- element-wise
    sqrt = staticmethod(_elementwise(T.sqrt))
    cos = staticmethod(_elementwise(T.cos))
    sin = staticmethod(_elementwise(T.sin))
    arccos = staticmethod(_elementwise(lambda x: T.rfun("arccos", 1)(T.zreal(x))))
    arcsin = staticmethod(_elementwise(lambda x: T.rfun("arcsin", 1)(T.zreal(x))))
    tan = staticmethod(_elementwise(lambda x: T.div(T.sin(x), T.cos(x))))
    arctan = staticmethod(_elementwise(lambda x: T.rfun("atan2", 2)(T.zreal(x), T.zreal(1))))
    arctan2 = staticmethod(_binary(lambda y, x: T.rfun("atan2", 2)(T.zreal(y), T.zreal(x)), "f"))
    hypot = staticmethod(_binary(lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))), "f"))
    square = staticmethod(_elementwise(lambda x: T.mul(x, x), None))
    negative = staticmethod(lambda x: -S.asarray(x))
    deg2rad = staticmethod(_elementwise(lambda x: T.div(T.mul(x, T.PI), 180)))
    radians = deg2rad
    rad2deg = staticmethod(_elementwise(lambda x: T.div(T.mul(x, 180), T.PI)))
    degrees = rad2deg

    @staticmethod
    def abs(x):
        x = S.asarray(x)
        if x.dtype.kind == "q":
            return S.unop(lambda q: T.sqrt(T.qnorm2(q)), x, "f")
        return S.unop(T.absr, x, x.dtype.kind)

    absolute = fabs = abs

    @staticmethod
    def sign(x):
        return S.unop(lambda v: T.ite(T.cmp(">", v, 0), 1, T.ite(T.cmp("<", v, 0), -1, 0)), S.asarray(x))

    @staticmethod
    def conjugate(x):
        return S.asarray(x).conjugate()

    conj = conjugate
    maximum = staticmethod(_binary(_nary_max(1)))
    minimum = staticmethod(_binary(_nary_max(-1)))
    fmax, fmin = maximum, minimum
    add = staticmethod(_op("+"))
    subtract = staticmethod(_op("-"))
    multiply = staticmethod(_op("*"))
    divide = staticmethod(_op("/"))
    true_divide = divide
    power = staticmethod(_op("**"))
    greater = staticmethod(_op(">"))
    greater_equal = staticmethod(_op(">="))
    less = staticmethod(_op("<"))
    less_equal = staticmethod(_op("<="))
    equal = staticmethod(_op("=="))
    not_equal = staticmethod(_op("!="))

    @staticmethod
    def logical_and(a, b):
        return S.asarray(a).astype(bool) & S.asarray(b).astype(bool)

    @staticmethod
    def logical_or(a, b):
        return S.asarray(a).astype(bool) | S.asarray(b).astype(bool)

    @staticmethod
    def logical_not(a):
        return ~S.asarray(a).astype(bool)

    @staticmethod
    def isnan(x):
        x = S.asarray(x)
        if x.dtype.kind in "ib":
            return NP.zeros(x.shape, bool)
        if x.dtype.kind == "q":
            return S.unop(lambda q: T.lor(*[_isnan(c) for c in q]), x, "b")
        return S.unop(_isnan, x, "b")

    @staticmethod
    def isfinite(x):
        return ~NP.isnan(x)

    @staticmethod
    def clip(a, lo, hi):
        return NP.minimum(NP.maximum(a, lo), hi)

    @staticmethod
    def where(c, *xy):
        c = S.asarray(c)
        if not xy:
            return NP.nonzero(c)
        x, y = S.asarray(xy[0]), S.asarray(xy[1])
        shape, (sc, sx, sy) = S.broadcast_shape(c.shape, x.shape, y.shape)
        gc, gx, gy = c.reader(), x.reader(), y.reader()
        nd = len(shape)
        k = S.promote(x.dtype.kind, y.dtype.kind)

        def at(i):
            cv = gc(S.bidx(i, nd, sc))
            if not (isinstance(cv, bool) or z3.is_bool(cv)):
                cv = T.cmp("!=", cv, 0)
            return T.ite(cv, S.cast(gx(S.bidx(i, nd, sx)), x.dtype.kind, k), S.cast(gy(S.bidx(i, nd, sy)), y.dtype.kind, k))

        return S.SymArray(shape, k, at)

    @staticmethod
    def nonzero(c):
        c = S.asarray(c)
        if c.ndim != 1:
            raise Unsupported("nonzero of rank %d" % c.ndim)
        F = S.filter_of(c if c.dtype.kind == "b" else c.astype(bool))
        return (S.SymArray((F.m,), "i", lambda i: F.phi(i[0])),)

    @staticmethod
    def flatnonzero(c):
        return NP.nonzero(c)[0]

    @staticmethod
    def count_nonzero(c):
        c = S.asarray(c)
        if c.ndim != 1:
            raise Unsupported("count_nonzero")
        return S.filter_of(c if c.dtype.kind == "b" else c.astype(bool)).m

    # -- reductions
    @staticmethod
    def sum(a, axis=None, keepdims=False, **k):
        if k:
            raise Unsupported("sum arguments")
        a = S.asarray(a)
        if a.dtype.kind == "q":
            return S.reduce_axes(a, axis, S.qsum_over, "q", keepdims)
        if a.dtype.kind == "b":
            a = a.astype(int)
        return S.reduce_axes(a, axis, S.sum_over, a.dtype.kind, keepdims)

    @staticmethod
    def prod(a, axis=None):
        a = S.asarray(a)

        def comb(body, n):
            if not isinstance(n, int):
                raise Unsupported("product over a symbolic dimension")
            r = 1
            for k in range(n):
                r = T.mul(r, body(k))
            return r
        return S.reduce_axes(a, axis, comb, a.dtype.kind)

    @staticmethod
    def mean(a, axis=None, keepdims=False, **k):
        if k:
            raise Unsupported("mean arguments")
        a = S.asarray(a)
        s = NP.sum(a, axis=axis, keepdims=keepdims)
        if axis is None:
            axes = range(a.ndim)
        else:
            axes = [S.norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
        n = 1
        for x in axes:
            n = T.mul(n, S.dz(a.shape[x]))
        return S.unop(lambda v: tuple(T.div(c, n) for c in v) if isinstance(v, tuple) else T.div(v, n), s, None if a.dtype.kind == "q" else "f")

    average = mean

    @staticmethod
    def any(a, axis=None, keepdims=False):
        if hasattr(a, "_sym_seq"):
            return a.quantify(False)
        a = S.asarray(a)
        r = S.reduce_axes(a, axis, lambda b, n: S.exists_over(b, n), "b", keepdims)
        return r

    @staticmethod
    def all(a, axis=None, keepdims=False):
        if hasattr(a, "_sym_seq"):
            return a.quantify(True)
        a = S.asarray(a)
        return S.reduce_axes(a, axis, lambda b, n: S.exists_over(b, n, True), "b", keepdims)

    @staticmethod
    def _ext(sign, a, axis, keepdims=False):
        if hasattr(a, "_sym_seq"):
            if axis is not None:
                raise Unsupported("max of a symbolic list along an axis")
            return a.extremum(sign)
        a = S.asarray(a)

        def comb(body, n):
            if isinstance(n, int):
                if n == 0:
                    raise ValueError("zero-size array to reduction operation which has no identity")
                r = body(0)
                for k in range(1, n):
                    r = _nary_max(sign)(r, body(k))
                return r
            return extremum(sign, body, n)
        return S.reduce_axes(a, axis, comb, a.dtype if a.dtype.kind == "M" else a.dtype.kind, keepdims)

    @staticmethod
    def max(a, axis=None, keepdims=False):
        return NP._ext(1, a, axis, keepdims)

    @staticmethod
    def min(a, axis=None, keepdims=False):
        return NP._ext(-1, a, axis, keepdims)

    amax, amin = max, min

    @staticmethod
    def ptp(a, axis=None, keepdims=False):
        return NP.max(a, axis=axis, keepdims=keepdims) - NP.min(a, axis=axis, keepdims=keepdims)

    @staticmethod
    def diff(a, n=1, axis=-1):
        a = S.asarray(a)
        axis = S.norm_axis(axis, a.ndim)
        for _ in range(n):
            hi = a[(slice(None),) * axis + (slice(1, None),)]
            lo = a[(slice(None),) * axis + (slice(None, -1),)]
            a = hi - lo
        return a

    @staticmethod
    def compress(condition, a, axis=None):
        c, a = S.asarray(condition), S.asarray(a)
        if axis is None or c.dtype.kind != "b":
            raise Unsupported("compress")
        axis = S.norm_axis(axis, a.ndim)
        return a[(slice(None),) * axis + (c,)]

    @staticmethod
    def cumsum(a, axis=None):
        raise Unsupported("cumsum")

    # -- linear algebra
    @staticmethod
    def dot(a, b):
        return S.dot(a, b)

    @staticmethod
    def matmul(a, b):
        return S.dot(a, b, mm=True)

    @staticmethod
    def inner(a, b):
        a, b = S.asarray(a), S.asarray(b)
        if a.ndim == 1 and b.ndim == 1:
            return S.dot(a, b)
        raise Unsupported("inner")

    @staticmethod
    def vdot(a, b):
        return S.dot(S.asarray(a).ravel(), S.asarray(b).ravel())

    @staticmethod
    def outer(a, b):
        return S.asarray(a).ravel()[:, None] * S.asarray(b).ravel()[None, :]

    @staticmethod
    def trace(a):
        a = S.asarray(a)
        r = a[0, 0]
        for i in range(1, a.shape[0]):
            r = r + a[i, i]
        return r

    @staticmethod
    def einsum(spec, *ops, **k):
        if k or not isinstance(spec, str):
            raise Unsupported("einsum arguments")
        ops = [S.asarray(o) for o in ops]
        spec = spec.replace(" ", "")
        ins, _, out = spec.partition("->")
        if "->" not in spec:
            letters = sorted(set(ins) - set(",."))
            out = ("..." if "..." in ins else "") + "".join(c for c in letters if ins.count(c) == 1)
        terms = ins.split(",")
        if len(terms) != len(ops):
            raise ValueError("einsum: more operands than subscripts")
        ell = [o.ndim - len(t.replace("...", "")) if "..." in t else 0 for t, o in zip(terms, ops)]
        if any(e < 0 for e in ell):
            raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        ne = max(ell)
        ell_names = ["#%d" % i for i in range(ne)]

        def expand(t, e):
            res, i = [], 0
            while i < len(t):
                if t[i:i + 3] == "...":
                    res += ell_names[ne - e:]
                    i += 3
                else:
                    res.append(t[i])
                    i += 1
            return res

        subs = [expand(t, e) for t, e in zip(terms, ell)]
        outs = expand(out, ne)
        dims, stretch = {}, []
        for s, o in zip(subs, ops):
            if len(s) != o.ndim:
                raise ValueError("operand has a mismatch in its dimensions")
            for n, d in zip(s, o.shape):
                if n in dims:
                    r, _, _ = S.bdim(dims[n], d)
                    dims[n] = r
                else:
                    dims[n] = d
        for s, o in zip(subs, ops):
            stretch.append([not S.same_dim(dims[n], d) and S.dims_equal(d, 1) for n, d in zip(s, o.shape)])
        summed = [n for n in dims if n not in outs]
        rs = [o.reader() for o in ops]
        kind = S.promote(*[o.dtype.kind for o in ops])

        def at(idx):
            env = dict(zip(outs, idx))

            def rec(rem, env):
                if not rem:
                    r = 1
                    for s, st, g in zip(subs, stretch, rs):
                        r = T.mul(r, g(tuple(0 if q else env[n] for n, q in zip(s, st))))
                    return r
                return S.sum_over(lambda k: rec(rem[1:], {**env, rem[0]: k}), dims[rem[0]])

            return rec(summed, env)

        return S.SymArray(tuple(dims[n] for n in outs), kind, at)

    @staticmethod
    def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = S.asarray(a), S.asarray(b)
        if axis is not None:
            axisa = axisb = axisc = axis
        axisa, axisb = S.norm_axis(axisa, a.ndim), S.norm_axis(axisb, b.ndim)
        a = NP.moveaxis(a, axisa, -1)
        b = NP.moveaxis(b, axisb, -1)
        for x in (a, b):
            if not S.dims_equal(x.shape[-1], 3):
                if S.dims_equal(x.shape[-1], 2):
                    raise Unsupported("2-d cross product")
                raise ValueError("incompatible dimensions for cross product (dimension must be 2 or 3)")
        shape, (sa, sb) = S.broadcast_shape(a.shape[:-1], b.shape[:-1])
        ga, gb = a.reader(), b.reader()
        nd = len(shape)

        def at(idx):
            lead, c = idx[:-1], idx[-1]
            ia, ib = S.bidx(lead, nd, sa), S.bidx(lead, nd, sb)
            if isinstance(c, int):
                i, j = (c + 1) % 3, (c + 2) % 3
                return T.sub(T.mul(ga(ia + (i,)), gb(ib + (j,))), T.mul(ga(ia + (j,)), gb(ib + (i,))))
            v = T.cross([ga(ia + (k,)) for k in range(3)], [gb(ib + (k,)) for k in range(3)])
            return _sel1(list(v), c)

        r = S.SymArray(shape + (3,), S.promote(a.dtype.kind, b.dtype.kind), at)
        return NP.moveaxis(r, -1, S.norm_axis(axisc, len(shape) + 1))

    @staticmethod
    def gradient(f, *spacing, axis=None, edge_order=1):
        f = S.asarray(f)
        if edge_order != 1:
            raise Unsupported("gradient edge order")
        if axis is None:
            if f.ndim != 1:
                raise Unsupported("gradient along several axes")
            axis = 0
        axis = S.norm_axis(axis, f.ndim)
        n = f.shape[axis]
        if len(spacing) > 1:
            raise TypeError("invalid number of arguments")
        g = f.reader()
        if spacing:
            x = S.asarray(spacing[0])
            if x.ndim == 0:
                h = x.at(())
                xs = lambda i: T.mul(i, h)
            else:
                if x.ndim != 1:
                    raise ValueError("distances must be either scalars or 1d")
                if not S.dims_equal(x.shape[0], n):
                    raise ValueError("when 1d, distances must match the length of the corresponding dimension")
                xr = x.reader()
                xs = lambda i: xr((i,))
                if x.dtype.kind == "M":
                    raise Unsupported("gradient with datetime spacing")
        else:
            xs = lambda i: i
        if C().branch(T.cmp("<", S.dz(n), 2)):
            raise ValueError("Shape of array too small to calculate a numerical gradient")
        C().assumption("numpy.gradient: second-order interior and first-order edge differences on real numbers")

        def at(idx):
            i = idx[axis]
            F = lambda k: g(idx[:axis] + (k,) + idx[axis + 1:])
            nz = S.dz(n)
            last = S.izs(T.sub(nz, 1))
            first_v = T.div(T.sub(F(1), F(0)), T.sub(xs(1), xs(0)))
            l2 = S.izs(T.sub(nz, 2))
            last_v = T.div(T.sub(F(last), F(l2)), T.sub(xs(last), xs(l2)))
            if isinstance(i, int) and i == 0:
                return first_v
            ip, im = S.izs(T.add(i, 1)), S.izs(T.sub(i, 1))
            d1, d2 = T.sub(xs(i), xs(im)), T.sub(xs(ip), xs(i))
            a = T.div(T.neg(d2), T.mul(d1, T.add(d1, d2)))
            b = T.div(T.sub(d2, d1), T.mul(d1, d2))
            c = T.div(d1, T.mul(d2, T.add(d1, d2)))
            mid = T.add(T.add(T.mul(a, F(im)), T.mul(b, F(i))), T.mul(c, F(ip)))
            return T.ite(T.cmp("==", i, 0), first_v, T.ite(T.cmp("==", i, last), last_v, mid))

        return S.SymArray(f.shape, "f", at)

    @staticmethod
    def unique(a, **k):
        if k:
            raise Unsupported("unique arguments")
        if isinstance(a, S.SymArray):
            if a.ndim != 1 or a.dtype.kind not in "fiM":
                raise Unsupported("unique")
            from . import seqs
            return seqs.ConcatSeq(seqs.SymList([("i", a)])).sym_unique()
        if hasattr(a, "sym_unique"):
            return a.sym_unique()
        raise Unsupported("unique")

    @staticmethod
    def argmin(a, axis=None):
        return arg_extremum(-1, a, axis)

    @staticmethod
    def argmax(a, axis=None):
        return arg_extremum(1, a, axis)

    @staticmethod
    def searchsorted(a, v, side="left", sorter=None):
        """Contract (a sorted): number of elements < v (left) or <= v (right)."""
        a = S.asarray(a)
        v = S.asarray(v)
        if sorter is not None or a.ndim != 1:
            raise Unsupported("searchsorted arguments")
        ctx = C()
        ga, gv = a.reader(), v.reader()
        n = S.dz(a.shape[0])
        sa, sv = (S.unit_ns(x.dtype.unit) if x.dtype.kind == "M" else 1 for x in (a, v))
        if a.dtype.kind != v.dtype.kind and "M" in (a.dtype.kind, v.dtype.kind):
            raise Unsupported("searchsorted on mixed types")
        A = lambda i: T.mul(ga((i,)), sa)
        i, j = z3.Int("i!"), z3.Int("j!")
        srt = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), T.zbool(T.cmp("<=", A(i), A(j)))))
        if not ctx.holds(srt):
            i2, j2 = z3.Int(ctx.fresh("ss_i")), z3.Int(ctx.fresh("ss_j"))
            ctx.prove(z3.Implies(z3.And(i2 >= 0, i2 <= j2, j2 < n), T.zbool(T.cmp("<=", A(i2), A(j2)))), "searchsorted requires a sorted array")
        tag = ctx.fresh("ss")
        R = T.fn(tag, *([T.IS] * v.ndim + [T.IS])) if v.ndim else None
        memo = {}
        lt, le = ("<", ">=") if side == "left" else ("<=", ">")

        def at(idx):
            k = S.ikey(idx)
            if k in memo:
                return memo[k][1]
            r = R(*[T.zint(x) for x in idx]) if v.ndim else z3.Int(tag)
            memo[k] = (idx, r)
            x = T.mul(gv(idx), sv)
            q = z3.Int("q!")
            c1, c2 = T.zbool(T.cmp(lt, A(q), x)), T.zbool(T.cmp(le, A(q), x))
            ctx.facts.append(z3.And(r >= 0, r <= n))
            ctx.solver.add(z3.And(r >= 0, r <= n))
            ctx.facts.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < r), c1)))
            ctx.facts.append(z3.ForAll([q], z3.Implies(z3.And(q >= r, q < n), c2)))
            # neighbours, instantiated
            ctx.facts.append(z3.Implies(r > 0, T.zbool(T.cmp(lt, A(r - 1), x))))
            ctx.facts.append(z3.Implies(r < n, T.zbool(T.cmp(le, A(r), x))))
            return r

        return S.SymArray(v.shape, "i", at)

    @staticmethod
    def array_equal(a, b):
        a, b = S.asarray(a), S.asarray(b)
        if a.ndim != b.ndim or not all(S.dims_equal(x, y) for x, y in zip(a.shape, b.shape)):
            return False
        return bool(NP.all(a == b))

    @staticmethod
    def errstate(**k):
        import contextlib
        return contextlib.nullcontext()

    @staticmethod
    def isscalar(x):
        return isinstance(x, (int, float, str)) or (isinstance(x, S.SymArray) and x.ndim == 0)


def _isnan(v):
    if isinstance(v, T.NUM):
        return False
    if C().store.get("no_nan"):   # a contract's precondition: no element is NaN
        return False
    if v.eq(S.NAN):
        return True
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_MUL and any(c.eq(S.NAN) for c in v.children()):
        return True
    if v.sort() == z3.IntSort():
        return False
    return T.fn("isnan", T.RS, T.BS)(v)


_ext_n = [0]


def extremum(sign, body, n):
    ctx = C()
    if ctx.branch(T.cmp("<=", S.dz(n), 0)):
        raise ValueError("zero-size array to reduction operation")
    k = z3.Int("k!ext")
    e = body(k)
    tag = ctx.fresh("ext")
    j = z3.Int(tag + "_at")
    v = z3.substitute(e, (k, j)) if T.is_z3(e) else e
    ctx.assume(z3.And(j >= 0, j < S.dz(n)))
    if T.is_z3(e):
        ctx.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < S.dz(n)), T.zbool(T.cmp("<=" if sign > 0 else ">=", e, v)))))
    return v


def arg_extremum(sign, a, axis):
    a = S.asarray(a)
    if axis is None and a.ndim != 1:
        raise Unsupported("argmin without axis")
    axis = S.norm_axis(0 if axis is None else axis, a.ndim)
    g = a.reader()
    n = a.shape[axis]
    ctx = C()
    if ctx.branch(T.cmp("<=", S.dz(n), 0)):
        raise ValueError("attempt to get argmin of an empty sequence")
    tag = ctx.fresh("argext")
    shape = a.shape[:axis] + a.shape[axis + 1:]
    R = T.fn(tag, *([T.IS] * len(shape) + [T.IS])) if shape else None
    memo = {}
    op = "<=" if sign > 0 else ">="
    ops = "<" if sign > 0 else ">"

    def at(idx):
        key = S.ikey(idx)
        if key in memo:
            return memo[key][1]
        r = R(*[T.zint(x) for x in idx]) if shape else z3.Int(tag)
        memo[key] = (idx, r)
        k = z3.Int("k!ext")
        F = lambda i: g(idx[:axis] + (i,) + idx[axis:])
        ctx.facts.append(z3.And(r >= 0, r < S.dz(n)))
        ctx.solver.add(z3.And(r >= 0, r < S.dz(n)))
        ctx.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < S.dz(n)), T.zbool(T.cmp(op, F(k), F(r))))))
        ctx.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r), T.zbool(T.cmp(ops, F(k), F(r))))))
        return r

    return S.SymArray(shape, "i", at)


np = NP()
