"""Symbolic arrays: a model of the numpy subset used by the verified code.

An array has a concrete rank, dimensions that are python ints or symbolic
(unbounded) integers, and a content function from index tuples to scalar terms.
Nothing is ever enumerated along a symbolic dimension.  Views share storage
cells, so in-place writes are modelled, and a write to a cell owned by an input
generates a frame obligation.
"""
import z3

from . import terms as T
from .terms import Unsupported
from .engine import C, SInt, SBool, mkint, mkbool, eint, ebool

RS, IS, BS = T.RS, T.IS, T.BS


# -------------------------------------------------------------------- dtypes
class DT:
    """dtype: kind f, i, u, b, q (quaternion), M (datetime64), U (string), O."""

    def __init__(self, kind, unit=None):
        self.kind, self.unit = kind, unit

    def __eq__(self, o):
        o = as_dt(o, None)
        return o is not None and o.kind == self.kind

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype(%s)" % self.kind

    @property
    def type(self):
        return {"f": np.float64, "i": np.int64, "b": np.bool_, "M": np.datetime64, "U": np.str_, "O": np.object_,
                "q": QTYPE[0], "u": np.uint64, "m": np.timedelta64}[self.kind]

    itemsize = 8

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "q": "quaternion", "U": "str"}.get(self.kind, "object")


class NT:
    """numpy scalar type / abstract type."""

    def __init__(self, name, kinds, default=None):
        self.name, self.kinds, self.default = name, kinds, default

    def __call__(self, x=0):
        return asarray(x).astype(self)

    def __repr__(self):
        return "np." + self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        if isinstance(o, DT):
            return o == self
        return self is o


QTYPE = [None]  # set by symquat


def as_dt(x, default="f"):
    if x is None:
        return None if default is None else DT(default)
    if isinstance(x, DT):
        return x
    if isinstance(x, NT):
        return DT(x.default) if x.default else None
    x = getattr(x, "_native", x)
    if x is float:
        return DT("f")
    if x is int:
        return DT("i")
    if x is bool:
        return DT("b")
    if isinstance(x, str):
        if x.startswith("datetime64[") and x.endswith("]"):
            return DT("M", x[11:-1])
        m = {"float": "f", "float64": "f", "f8": "f", "d": "f", "int": "i", "int64": "i", "bool": "b", "i8": "i"}
        if x in m:
            return DT(m[x])
        if default is None:
            return None
        raise Unsupported("dtype %r" % x)
    if QTYPE[0] is not None and x is QTYPE[0]:
        return DT("q")
    if default is None:
        return None
    raise Unsupported("dtype %r" % (x,))


UNIT_NS = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9, "m": 60 * 10**9, "h": 3600 * 10**9, "D": 86400 * 10**9}


def unit_ns(u):
    if u in UNIT_NS:
        return UNIT_NS[u]
    if T.is_z3(u):
        return u
    raise Unsupported("datetime unit %r" % (u,))


# ------------------------------------------------------------------ dimensions
def dz(d):
    return d.e if isinstance(d, SInt) else d


def dim(d):
    """Normalise a dimension."""
    if isinstance(d, SInt):
        return d
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    if isinstance(d, SymArray) and d.ndim == 0:
        return mkint(d.at(()))
    e = eint(d)
    if e is None:
        raise Unsupported("dimension %r" % (d,))
    return mkint(e)


def same_dim(a, b):
    """Syntactically equal dimensions."""
    a, b = dz(a), dz(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.eq(b)


def dims_equal(a, b):
    """Truth of a == b, forking if undetermined."""
    if same_dim(a, b):
        return True
    a, b = dz(a), dz(b)
    if isinstance(a, int) and isinstance(b, int):
        return False
    return C().branch(T.cmp("==", a, b))


def bdim(a, b):
    """Broadcast two dimensions; returns (result, a is stretched, b is stretched)."""
    if same_dim(a, b):
        return a, False, False
    if isinstance(a, int) and a == 1:
        return b, True, False
    if isinstance(b, int) and b == 1:
        return a, False, True
    if dims_equal(a, b):
        return (a if isinstance(a, int) else b), False, False
    if isinstance(a, SInt) and C().branch(T.cmp("==", dz(a), 1)):
        return b, True, False
    if isinstance(b, SInt) and C().branch(T.cmp("==", dz(b), 1)):
        return a, False, True
    raise ValueError("operands could not be broadcast together")


def broadcast_shape(*shapes):
    """Broadcast shapes; returns (shape, list of stretch tuples aligned to the right)."""
    nd = max(len(s) for s in shapes)
    out = [1] * nd
    st = [[False] * len(s) for s in shapes]
    for ax in range(nd):
        cur = 1
        # positions from the right
        pos = [len(s) - nd + ax for s in shapes]
        present = [i for i, p in enumerate(pos) if p >= 0]
        groups = []
        for i in present:
            d = shapes[i][pos[i]]
            r, sa, sb = bdim(cur, d)
            if sa:
                for j in groups:
                    st[j][pos[j]] = True
            if sb:
                st[i][pos[i]] = True
            groups.append(i)
            cur = r
        out[ax] = cur
    return tuple(out), [tuple(s) for s in st]


def bidx(idx, nd, stretch):
    """Index into an operand of a broadcast operation."""
    k = len(idx) - len(stretch)
    return tuple(0 if s else i for i, s in zip(idx[k:], stretch))


def ikey(idx):
    return tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)


def izs(i):
    """Simplify an index term."""
    if isinstance(i, int):
        return i
    s = z3.simplify(i)
    return s.as_long() if z3.is_int_value(s) else s


_keepalive = []


class Cell:
    """Storage."""

    def __init__(self, f, shape, kind, owner=None):
        self.shape, self.kind, self.owner = shape, kind, owner
        ctx = C()
        self.seq = 0
        if ctx is not None:
            self.seq = ctx.seq()
            ctx.cells[self.seq] = self
        self.set(f)
        self.version = 0

    def set(self, f):
        memo = {}

        def g(idx):
            k = ikey(idx)
            if k not in memo:
                memo[k] = (idx, f(idx))
            return memo[k][1]

        self.f = g
        self.version = getattr(self, "version", 0) + 1


WRITE_HOOKS = []


class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, dtype, f=None, cell=None, fwd=None, inv=None, writable=True, owner=None):
        self.shape = tuple(shape)
        self.dtype = DT(dtype) if isinstance(dtype, str) and len(dtype) == 1 else as_dt(dtype)
        if cell is None:
            cell = Cell(f, self.shape, self.dtype.kind, owner)
        self.cell, self.fwd, self.inv, self.writable = cell, fwd, inv, writable
        self.prov = None

    # ---- reading
    def reader(self):
        f, fwd = self.cell.f, self.fwd
        return f if fwd is None else (lambda idx: f(fwd(idx)))

    def at(self, idx):
        idx = tuple(idx)
        if len(idx) != len(self.shape):
            raise Unsupported("internal: index rank")
        return self.cell.f(idx if self.fwd is None else self.fwd(idx))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d if not (isinstance(r, int) and r == 1) else d
        return r

    nbytes = property(lambda self: 8 * self.size)

    @property
    def T(self):
        return transpose(self)

    real = property(lambda self: self)
    values = None
    flags = None

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in ("values", "coords", "dims", "name", "attrs", "data_vars", "to_array", "sel", "interp"):
            raise AttributeError(name)
        if self.dtype.kind == "q":
            from . import symquat
            f = symquat.METHODS.get(name)
            if f:
                return lambda *a, **k: f(self, *a, **k)
            if name in ("w", "x", "y", "z"):
                i = "wxyz".index(name)
                g = self.reader()
                return SymArray(self.shape, "f", lambda idx: g(idx)[i])
        raise Unsupported("ndarray.%s" % name)

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.shape, self.dtype.kind)

    def __format__(self, spec):
        return repr(self)

    __hash__ = object.__hash__

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        return d if isinstance(d, int) else d.concrete()

    def symlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if isinstance(n, SInt):
            n = n.concrete()
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        s = self.size
        if not (isinstance(s, int) and s == 1):
            if not dims_equal(s, 1):
                if dims_equal(s, 0):
                    return False
                raise ValueError("The truth value of an array with more than one element is ambiguous")
        v = self.at((0,) * self.ndim)
        if self.dtype.kind == "q":
            v = T.lor(*[T.cmp("!=", c, 0) for c in v])
        return C().branch(v if (isinstance(v, bool) or z3.is_bool(v)) else T.cmp("!=", v, 0))

    def __index__(self):
        if self.ndim == 0 and self.dtype.kind in "iu":
            v = self.at(())
            return v if isinstance(v, int) else SInt(v).concrete()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        v = self.item_term()
        if isinstance(v, T.NUM):
            return float(v)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        v = self.item_term()
        if isinstance(v, int):
            return v
        raise Unsupported("int() of a symbolic value")

    def item_term(self):
        return self.at((0,) * self.ndim)

    def item(self, *a):
        if a:
            raise Unsupported("item with index")
        return scalar(self.item_term(), self.dtype)

    def tolist(self):
        if self.ndim == 0:
            return self
        return [x.tolist() for x in self]

    # ---- arithmetic
    def _bin(self, o, op, r=False):
        o = operand(o)
        if o is NotImplemented:
            return NotImplemented
        return binop(op, o, self) if r else binop(op, self, o)

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __truediv__(self, o):
        return self._bin(o, "/")

    def __rtruediv__(self, o):
        return self._bin(o, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, "//")

    def __mod__(self, o):
        return self._bin(o, "%")

    def __rmod__(self, o):
        return self._bin(o, "%", True)

    def __pow__(self, o):
        return self._bin(o, "**")

    def __matmul__(self, o):
        return dot(self, asarray(o), mm=True)

    def __rmatmul__(self, o):
        return dot(asarray(o), self, mm=True)

    def __neg__(self):
        return unop(lambda v: T.qneg(v) if isinstance(v, tuple) else T.neg(v), self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return np.abs(self)

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("bitwise inversion of a non-boolean array")
        return unop(T.lnot, self, "b")

    def __lt__(self, o):
        return self._bin(o, "<")

    def __le__(self, o):
        return self._bin(o, "<=")

    def __gt__(self, o):
        return self._bin(o, ">")

    def __ge__(self, o):
        return self._bin(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            if self.dtype.kind in "UO":
                raise Unsupported("string comparison")
            return False
        return self._bin(o, "==")

    def __ne__(self, o):
        if o is None:
            return True
        return self._bin(o, "!=")

    def __and__(self, o):
        return self._bin(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, "!=") if self.dtype.kind == "b" else NotImplemented

    def _inplace(self, o, op):
        o = operand(o)
        if o is NotImplemented:
            return NotImplemented
        r = binop(op, self, o)
        if self.ndim == 0 and self.fwd is None and self.cell.owner is None:
            return r
        if r.ndim != self.ndim or not all(dims_equal(a, b) for a, b in zip(r.shape, self.shape)):
            raise ValueError("non-broadcastable output operand")
        if self.dtype.kind in "iu" and r.dtype.kind == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        assign(self, (Ellipsis,), r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, "+")

    def __isub__(self, o):
        return self._inplace(o, "-")

    def __imul__(self, o):
        return self._inplace(o, "*")

    def __itruediv__(self, o):
        return self._inplace(o, "/")

    # ---- methods
    def astype(self, dt, copy=True, **kw):
        t = as_dt(dt, None)
        if t is None:
            if isinstance(dt, NT) and dt.name == "datetime64":
                return self.copy() if self.dtype.kind == "M" else _bad("astype(datetime64)")
            raise Unsupported("astype(%r)" % (dt,))
        k, g = self.dtype.kind, self.reader()
        if t.kind == k and k != "M":
            return SymArray(self.shape, t, g)
        if k == "M":
            if t.kind == "M":
                if t.unit is None or t.unit == self.dtype.unit:
                    return SymArray(self.shape, self.dtype, g)
                if t.unit != "ns":
                    raise Unsupported("datetime conversion to %r" % (t.unit,))
                s = unit_ns(self.dtype.unit)
                return SymArray(self.shape, t, lambda i: T.mul(g(i), s))
            if t.kind in "fi":
                return SymArray(self.shape, t, (lambda i: T.zreal(g(i)) if T.is_z3(g(i)) else g(i)) if t.kind == "f" else g)
        if t.kind == "f" and k in "ib":
            return SymArray(self.shape, t, lambda i: T.zreal(g(i)) if T.is_z3(g(i)) else int(g(i)))
        if t.kind == "b" and k in "fi":
            return SymArray(self.shape, t, lambda i: T.cmp("!=", g(i), 0))
        if t.kind == "i" and k == "b":
            return SymArray(self.shape, t, lambda i: T.ite(g(i), 1, 0))
        if t.kind == "i" and k == "f":
            return SymArray(self.shape, t, lambda i: trunc(g(i)))
        if t.kind == "q" and k in "fi":
            return SymArray(self.shape, t, lambda i: (g(i), 0, 0, 0))
        raise Unsupported("astype %s -> %s" % (k, t.kind))

    def copy(self, *a, **k):
        return SymArray(self.shape, self.dtype, self.reader())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a):
        if a:
            raise Unsupported("view with dtype")
        return self[...]

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order != "C":
            raise Unsupported("reshape order")
        return reshape(self, shape)

    def ravel(self, *a):
        return reshape(self, (-1,))

    flatten = ravel

    def swapaxes(self, a, b):
        return np.swapaxes(self, a, b)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def squeeze(self, axis=None):
        return np.squeeze(self, axis)

    def sum(self, axis=None, **k):
        return np.sum(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        return np.mean(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return np.min(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return np.max(self, axis=axis, **k)

    def any(self, axis=None, **k):
        return np.any(self, axis=axis, **k)

    def all(self, axis=None, **k):
        return np.all(self, axis=axis, **k)

    def dot(self, o):
        return dot(self, asarray(o))

    def conjugate(self):
        if self.dtype.kind == "q":
            return unop(T.qconj, self)
        return self.copy()

    conj = conjugate

    def fill(self, v):
        assign(self, (Ellipsis,), asarray(v))

    def take(self, i, axis=None):
        return np.take(self, i, axis=axis)

    def repeat(self, n, axis=None):
        return np.repeat(self, n, axis=axis)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        assign(self, key, operand(value))


def _bad(what):
    raise Unsupported(what)


def trunc(v):
    """Conversion float -> int (towards zero)."""
    if isinstance(v, T.NUM):
        return int(v)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    v = T.zreal(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def scalar(e, dtype="f"):
    return SymArray((), dtype, lambda idx: e)


NAN = z3.Real("NaN")
INF = z3.Real("Infinity")


class Special:
    """-inf / +inf."""

    def __init__(self, sign):
        self.sign = sign

    def __neg__(self):
        return Special(-self.sign)

    def __repr__(self):
        return "inf" if self.sign > 0 else "-inf"


def const(x):
    """Python number -> term."""
    if isinstance(x, Special):
        return INF if x.sign > 0 else T.neg(INF)
    if isinstance(x, float):
        import math
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else T.neg(INF)
    if isinstance(x, complex):
        raise Unsupported("complex number")
    return T.num(x)


def operand(o):
    if isinstance(o, SymArray):
        return o
    if isinstance(o, bool):
        return scalar(o, "b")
    if isinstance(o, int):
        return scalar(o, "i")
    if isinstance(o, float) or type(o).__name__ == "Fraction":
        return scalar(const(o), "f")
    if isinstance(o, Special):
        return scalar(const(o), "f")
    if isinstance(o, SInt):
        return scalar(o.e, "i")
    if isinstance(o, SBool):
        return scalar(o.e, "b")
    if isinstance(o, (list, tuple)):
        return asarray(o)
    if hasattr(o, "__symarray__"):
        return o.__symarray__()
    return NotImplemented


def asarray(x, dtype=None, copy=False):
    if isinstance(x, SymArray):
        r = x
    elif isinstance(x, (list, tuple)) and not hasattr(x, "_sym_seq"):
        items = [asarray(y) for y in x]
        if not items:
            r = SymArray((0,), "f", lambda idx: 0)
        else:
            for it in items[1:]:
                if it.ndim != items[0].ndim or not all(dims_equal(a, b) for a, b in zip(it.shape, items[0].shape)):
                    raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            r = stack(items, 0)
    elif hasattr(x, "_sym_seq"):
        r = x.as_array()
    elif isinstance(x, range):
        r = asarray(list(x))
    elif isinstance(x, str):
        r = SymArray((), "U", lambda idx: x)
    elif x is None:
        r = SymArray((), "O", lambda idx: None)
    else:
        r = operand(x)
        if r is NotImplemented:
            raise Unsupported("asarray(%s)" % type(x).__name__)
    if dtype is not None and as_dt(dtype) != r.dtype:
        r = r.astype(dtype)
    elif dtype is not None and as_dt(dtype).kind == "M" and as_dt(dtype).unit != r.dtype.unit:
        r = r.astype(dtype)
    return r.copy() if copy and isinstance(x, SymArray) and r is x else r


def promote(*ks):
    for k in "qfmMiub":
        if k in ks:
            return k
    return ks[0]


def unop(fn, a, kind=None):
    g = a.reader()
    return SymArray(a.shape, DT(kind) if kind else a.dtype, lambda idx: fn(g(idx)))


def tofloat(v):
    return v


def _scalar_op(op, ka, kb):
    if ka == "q" or kb == "q":
        up = lambda v, k: v if k == "q" else (v, 0, 0, 0)
        if op == "*":
            def f(a, b):
                if ka != "q":
                    return T.qscale(b, a)
                if kb != "q":
                    return T.qscale(a, b)
                return T.qmul(a, b)
            return f, "q"
        if op == "/":
            def f(a, b):
                if kb != "q":
                    return tuple(T.div(c, b) for c in a)
                i = T.qinv(b)
                return T.qscale(i, a) if ka != "q" else T.qmul(a, i)
            return f, "q"
        if op == "+":
            return (lambda a, b: T.qadd(up(a, ka), up(b, kb))), "q"
        if op == "-":
            return (lambda a, b: T.qadd(up(a, ka), T.qneg(up(b, kb)))), "q"
        if op in ("==", "!="):
            return (lambda a, b: (T.land if op == "==" else T.lor)(
                *[T.cmp(op, x, y) for x, y in zip(up(a, ka), up(b, kb))])), "b"
        raise Unsupported("quaternion %s" % op)
    if op in ("<", "<=", ">", ">=", "==", "!="):
        return (lambda a, b: cmp_ext(op, a, b)), "b"
    if op in ("&", "|"):
        if ka == kb == "b":
            return (T.land if op == "&" else T.lor), "b"
        raise Unsupported("bitwise operation on integers")
    k = promote(ka, kb)
    if k == "b":
        if op == "+":
            return T.lor, "b"
        if op == "*":
            return T.land, "b"
        raise TypeError("numpy boolean subtract")
    if "M" in (ka, kb):
        raise Unsupported("datetime arithmetic")
    if op == "+":
        return T.add, k
    if op == "-":
        return T.sub, k
    if op == "*":
        return T.mul, k
    if op == "/":
        return T.div, "f"
    if op == "**":
        def p(a, b):
            if isinstance(b, T.NUM) and int(b) == b and b >= 0:
                r = 1
                for _ in range(int(b)):
                    r = T.mul(r, a)
                return r
            if isinstance(b, T.NUM) and int(b) == b:
                r = 1
                for _ in range(int(-b)):
                    r = T.mul(r, a)
                return T.div(1, r)
            if isinstance(b, T.NUM) and b * 2 == 1:
                return T.sqrt(a)
            raise Unsupported("power with symbolic or fractional exponent")
        return p, k
    if op in ("//", "%") and k == "i":
        def fm(a, b):
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return a // b if op == "//" else a % b
            if isinstance(b, int) and b > 0:
                return T.zint(a) / b if op == "//" else T.zint(a) % b
            raise Unsupported("integer division")
        return fm, "i"
    raise Unsupported("operator %s on %s,%s" % (op, ka, kb))


def cmp_ext(op, a, b):
    """Comparison where operands may be +-inf (all other values are finite)."""
    def sgn(x):
        if T.is_z3(x):
            if x.eq(INF):
                return 1
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS and x.arg(0).eq(INF):
                return -1
        return 0
    sa, sb = sgn(a), sgn(b)
    if sa or sb:
        return {"<": sa < sb, "<=": sa <= sb, ">": sa > sb, ">=": sa >= sb, "==": sa == sb, "!=": sa != sb}[op]
    if isinstance(a, str) or isinstance(b, str):
        return (a == b) if op == "==" else (a != b)
    return T.cmp(op, a, b)


def binop(op, a, b):
    f, kind = _scalar_op(op, a.dtype.kind, b.dtype.kind)
    if a.dtype.kind == "M" and b.dtype.kind == "M" and a.dtype.unit != b.dtype.unit:
        sa, sb = unit_ns(a.dtype.unit), unit_ns(b.dtype.unit)
        f0 = f
        f = lambda x, y: f0(T.mul(x, sa), T.mul(y, sb))
    elif ("M" in (a.dtype.kind, b.dtype.kind)) and a.dtype.kind != b.dtype.kind:
        other = b if a.dtype.kind == "M" else a
        ok = other.ndim == 0 and _is_inf(other.at(()))
        if not ok:
            raise Unsupported("comparison of datetime with non-datetime")
        raise TypeError("ufunc cannot use operands with types datetime64 and float64")
    shape, (sa_, sb_) = broadcast_shape(a.shape, b.shape)
    ga, gb = a.reader(), b.reader()
    nd = len(shape)
    dt = DT(kind)
    return SymArray(shape, dt, lambda idx: f(ga(bidx(idx, nd, sa_)), gb(bidx(idx, nd, sb_))))


def _is_inf(x):
    return T.is_z3(x) and (x.eq(INF) or (x.num_args() == 1 and x.arg(0).eq(INF)))


# ------------------------------------------------------------------- axes
def norm_axis(axis, nd):
    if isinstance(axis, SymArray):
        axis = axis.__index__()
    if isinstance(axis, SInt):
        axis = axis.concrete()
    if not isinstance(axis, int):
        raise TypeError("an integer is required (got %s)" % type(axis).__name__)
    if axis < -nd or axis >= nd:
        raise np.AxisError("axis %d is out of bounds for array of dimension %d" % (axis, nd))
    return axis % nd


def permute(a, perm):
    """View with result axis i = axis perm[i] of a."""
    n = len(perm)
    invp = [0] * n
    for i, p in enumerate(perm):
        invp[p] = i

    def fwd(idx):
        return tuple(idx[invp[p]] for p in range(n))

    def inv(b):
        return True, tuple(b[perm[i]] for i in range(n))

    return view_of(a, tuple(a.shape[p] for p in perm), fwd, inv)


def view_of(a, shape, fwd, inv, writable=True):
    if a.fwd is None:
        f2, i2 = fwd, inv
    else:
        af, ai = a.fwd, a.inv

        def f2(idx):
            return af(fwd(idx))

        if inv is None or ai is None:
            i2 = None
        else:
            def i2(b):
                c1, v1 = ai(b)
                c2, v2 = inv(v1)
                return T.land(c1, c2), v2
    r = SymArray(shape, a.dtype, cell=a.cell, fwd=f2, inv=i2, writable=writable and a.writable)
    return r


def transpose(a, axes=None):
    if axes is None:
        axes = tuple(reversed(range(a.ndim)))
    return permute(a, [norm_axis(x, a.ndim) for x in axes])


# --------------------------------------------------------------- indexing
def _slice_bounds(s, n):
    """Start, step and length of a slice along a dimension."""
    step = s.step
    if step is None:
        step = 1
    if isinstance(n, int) and not isinstance(s.start, SInt) and not isinstance(s.stop, SInt):
        st = [x.__index__() if isinstance(x, SymArray) else x for x in (s.start, s.stop)]
        a, b, c = slice(st[0], st[1], step).indices(n)
        return a, c, len(range(a, b, c))
    ctx = C()
    nz = T.zint(dz(n))
    if not isinstance(step, int):
        step = dz(dim(step))
        if not isinstance(step, int):
            if s.start is not None or s.stop is not None or not ctx.holds(T.cmp(">", step, 0)):
                raise Unsupported("symbolic slice step")
            # the number m of elements is ceil(n / step)
            m = z3.Int(ctx.fresh("sliced"))
            ctx.assume(z3.And(m >= 0, m * step >= nz, z3.Or(nz == 0, (m - 1) * step < nz), z3.Implies(nz == 0, m == 0)))
            return 0, step, mkint(m)

    def bound(x, default):
        if x is None:
            return default
        x = dz(dim(x))
        xz = T.zint(x)
        if ctx.branch(z3.simplify(xz < 0)):
            if ctx.branch(z3.simplify(nz + xz < 0)):
                return z3.IntVal(0)
            return nz + xz
        if ctx.branch(z3.simplify(xz > nz)):
            return nz
        return xz

    if step == 1:
        a = bound(s.start, z3.IntVal(0))
        b = bound(s.stop, nz)
        if ctx.branch(z3.simplify(b < a)):
            return izs(a), 1, 0
        return izs(a), 1, mkint(z3.simplify(b - a))
    if step == -1 and s.start is None and s.stop is None:
        return izs(nz - 1), -1, n
    if step > 1:
        a = bound(s.start, z3.IntVal(0))
        b = bound(s.stop, nz)
        if ctx.branch(z3.simplify(b <= a)):
            return izs(a), step, 0
        return izs(a), step, mkint(z3.simplify((b - a + (step - 1)) / step))
    raise Unsupported("slice with step %s" % step)


def check_int_index(i, n):
    """Normalise an integer index; raises IndexError on the paths where it is out of range."""
    i = dz(dim(i))
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
        return i % n
    iz, nz = T.zint(i), T.zint(dz(n))
    ctx = C()
    if isinstance(i, int):
        if i >= 0:
            if ctx.branch(nz <= i):
                raise IndexError("index out of bounds")
            return i
        if ctx.branch(nz < -i):
            raise IndexError("index out of bounds")
        return izs(nz + i)
    if ctx.branch(z3.simplify(iz < 0)):
        iz = iz + nz
        if ctx.branch(z3.simplify(iz < 0)):
            raise IndexError("index out of bounds")
        return izs(iz)
    if ctx.branch(z3.simplify(iz >= nz)):
        raise IndexError("index out of bounds")
    return izs(iz)


def _expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    norm = []
    for k in key:
        if isinstance(k, (list,)) and not hasattr(k, "_sym_seq"):
            k = asarray(k) if k else SymArray((0,), "i", lambda i: 0)
        if hasattr(k, "_sym_seq"):
            k = k.as_array()
        if hasattr(k, "__symarray__") and not isinstance(k, SymArray):
            k = k.__symarray__()
        if isinstance(k, SBool):
            k = bool(k)
        if isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        norm.append(k)
    key = norm
    n_used = sum((k.ndim if isinstance(k, SymArray) and k.dtype.kind == "b" else 1)
                 for k in key if k is not None and k is not Ellipsis)
    n_ell = sum(1 for k in key if k is Ellipsis)
    if n_ell > 1:
        raise IndexError("an index can only have a single ellipsis ('...')")
    if n_used > a.ndim:
        raise IndexError("too many indices for array")
    fill = [slice(None)] * (a.ndim - n_used)
    if n_ell:
        i = next(j for j, k in enumerate(key) if k is Ellipsis)
        key[i:i + 1] = fill
    else:
        key += fill
    return key


def is_adv(k):
    return isinstance(k, SymArray) and (k.ndim > 0 or k.dtype.kind == "b")


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices are valid indices")
    key = _expand_key(a, key)
    adv = [k for k in key if is_adv(k)]
    if not adv:
        return basic_view(a, key)
    if len(adv) > 1:
        return multi_adv(a, key)
    # apply the basic part first, keeping the advanced axis
    k = adv[0]
    pos = next(i for i, x in enumerate(key) if x is k)
    bk = key[:pos] + [slice(None)] * (k.ndim if k.dtype.kind == "b" else 1) + key[pos + 1:]
    base = basic_view(a, bk)
    ints_elsewhere = any(isinstance(x, (int, SInt)) or (isinstance(x, SymArray) and not is_adv(x)) for i, x in enumerate(key) if i != pos)
    if ints_elsewhere:
        # numpy treats integers as advanced indices too: only the adjacent/leading case keeps the position
        nb = [i for i, x in enumerate(key) if isinstance(x, (int, SInt)) or isinstance(x, SymArray)]
        if nb != list(range(nb[0], nb[0] + len(nb))):
            raise Unsupported("mixed advanced indexing")
    ax = sum(1 for x in key[:pos] if x is None or isinstance(x, slice))
    g = base.reader()
    if k.dtype.kind == "b":
        if k.ndim != 1:
            return mask_nd(base, k, ax)
        if not dims_equal(k.shape[0], base.shape[ax]):
            raise IndexError("boolean index did not match indexed array along axis")
        always = k.at((z3.Int("mask_probe!"),))
        if always is True or (z3.is_expr(always) and z3.is_true(always)):
            return SymArray(base.shape, a.dtype, g)
        F = filter_of(k)
        r = SymArray(base.shape[:ax] + (F.m,) + base.shape[ax + 1:], a.dtype,
                     lambda idx: g(idx[:ax] + (F.phi(idx[ax]),) + idx[ax + 1:]))
        if base.ndim == 1:
            r.prov = ("filter", base, F)
        return r
    if k.dtype.kind not in "iu":
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    n = base.shape[ax]
    kr = k.reader()
    kd = k.ndim
    check_bounds(k, n)
    nz = dz(n)

    def at(idx):
        j = kr(idx[ax:ax + kd])
        j = neg_wrap(j, nz)
        return g(idx[:ax] + (j,) + idx[ax + kd:])

    return SymArray(base.shape[:ax] + k.shape + base.shape[ax + 1:], a.dtype, at)


def neg_wrap(j, nz):
    if isinstance(j, int):
        return j if j >= 0 else izs(T.add(nz, j))
    if C().holds(j >= 0, ms=300):
        return j
    return T.ite(j < 0, j + T.zint(nz), j)


def generic_index(shape, name="i"):
    """A fresh arbitrary index (concrete where the dimension is concrete is left to the caller)."""
    out, cs = [], []
    for d in shape:
        v = z3.Int(C().fresh(name))
        cs += [v >= 0, v < dz(d)]
        out.append(v)
    return tuple(out), cs


def all_indices(shape, name="i"):
    """All index tuples: symbolic along symbolic dimensions, enumerated along concrete ones."""
    out = [((), [])]
    for ax, d in enumerate(shape):
        if isinstance(d, int):
            out = [(i + (j,), c) for i, c in out for j in range(d)]
        else:
            v = z3.Int(C().fresh(name))
            out = [(i + (v,), c + [v >= 0, v < d.e]) for i, c in out]
    return out


def check_bounds(k, n):
    nz = dz(n)
    for idx, cs in all_indices(k.shape):
        j = k.at(idx)
        g = T.land(T.cmp(">=", j, T.neg(nz)), T.cmp("<", j, nz))
        if g is True:
            continue
        if g is False:
            raise IndexError("index out of bounds")
        if not C().holds(g, extra=cs):
            C().prove(z3.Implies(z3.And(*cs), g) if cs else g, "index within bounds")


def multi_adv(a, key):
    adv = [(i, k) for i, k in enumerate(key) if is_adv(k)]
    if any(k.dtype.kind == "b" for _, k in adv):
        # convert masks to index arrays only if a single mask
        raise Unsupported("several advanced indices with masks")
    if any(x is None for x in key):
        raise Unsupported("newaxis with several advanced indices")
    arrs, posn = [], []
    for i, k in enumerate(key):
        if isinstance(k, SymArray):
            arrs.append(k)
            posn.append(i)
        elif isinstance(k, (int, SInt)):
            arrs.append(operand(k))
            posn.append(i)
    shape, sts = broadcast_shape(*[k.shape for k in arrs])
    for k, p in zip(arrs, posn):
        check_bounds(k, a.shape[p])
    adjacent = posn == list(range(posn[0], posn[0] + len(posn)))
    bk = [slice(None) if i in posn else k for i, k in enumerate(key)]
    base = basic_view(a, bk)
    g = base.reader()
    rest = [i for i in range(a.ndim) if i not in posn]
    start = posn[0] if adjacent else 0
    nd = len(shape)
    rs = [kk.reader() for kk in arrs]
    pre = [i for i in rest if i < start]
    post = [i for i in rest if i >= start]
    out_shape = tuple(base.shape[i] for i in pre) + shape + tuple(base.shape[i] for i in post)

    def at(idx):
        j = idx[start:start + nd]
        full = [None] * a.ndim
        for q, i in enumerate(pre):
            full[i] = idx[q]
        for q, i in enumerate(post):
            full[i] = idx[start + nd + q]
        for r, st, p in zip(rs, sts, posn):
            full[p] = neg_wrap(r(bidx(j, nd, st)), dz(a.shape[p]))
        return g(tuple(full))

    return SymArray(out_shape, a.dtype, at)


def basic_view(a, key):
    shape, plan = [], []  # plan per source axis: ("i", k) | ("s", start, step, outpos)
    ax = 0
    out = 0
    newpos = []
    for k in key:
        if k is None:
            shape.append(1)
            newpos.append(out)
            out += 1
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step in (None, 1):
                st, step, ln = 0, 1, n
            else:
                st, step, ln = _slice_bounds(k, n)
            plan.append(("s", st, step, out, ln))
            shape.append(ln)
            out += 1
        elif isinstance(k, (int, SInt)) or (isinstance(k, SymArray) and k.ndim == 0 and k.dtype.kind in "iu"):
            plan.append(("i", check_int_index(k, n)))
        elif k.__class__.__name__ in ("ndarray", "int64"):
            raise Unsupported("foreign index")
        else:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        ax += 1
    nout = out

    def fwd(idx):
        r = []
        for p in plan:
            if p[0] == "i":
                r.append(p[1])
            else:
                i = idx[p[3]]
                if not (isinstance(p[2], int) and p[2] == 1):
                    i = izs(T.mul(i, p[2]))
                r.append(i if isinstance(p[1], int) and p[1] == 0 else izs(T.add(i, p[1])))
        return tuple(r)

    def inv(b):
        conds, v = [], [0] * nout
        for sax, (p, x) in enumerate(zip(plan, b)):
            if p[0] == "i":
                conds.append(T.cmp("==", x, p[1]))
            else:
                _, st, step, o, ln = p
                if step == 1:
                    j = x if isinstance(st, int) and st == 0 else izs(T.sub(x, st))
                    if not (isinstance(st, int) and st == 0):
                        conds.append(T.cmp(">=", j, 0))
                    conds.append(T.cmp("<", j, dz(ln)) if not (isinstance(st, int) and st == 0 and same_dim(ln, a.shape[sax])) else True)
                    v[o] = j
                elif step == -1:
                    v[o] = izs(T.sub(st, x))
                else:
                    raise Unsupported("writing to a strided slice")
        return T.land(*conds), tuple(v)

    return view_of(a, tuple(shape), fwd, inv)


# ------------------------------------------------------------------- masks
class Filter:
    """The order-preserving enumeration of the positions where a mask holds."""

    def __init__(self, mask, n, name):
        self.mask, self.n, self.name = mask, n, name
        self.PHI = T.fn(name + "_phi", IS, IS)
        self.RANK = T.fn(name + "_rank", IS, IS)
        mz = z3.Int(name + "_m")
        self.m = SInt(mz)
        ctx = C()
        nz = T.zint(dz(n))
        ctx.assume(mz >= 0)
        ctx.assume(mz <= nz)
        j, k = z3.Int("j!"), z3.Int("k!")
        phi, rank = self.PHI, self.RANK
        i = z3.Int("i!")
        mi = mask((i,))
        ctx.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < mz), z3.And(phi(j) >= 0, phi(j) < nz)), patterns=[phi(j)]))
        ctx.facts.append(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < mz), phi(j) < phi(k)), patterns=[z3.MultiPattern(phi(j), phi(k))]))
        mphi = mask((phi(j),))
        ctx.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < mz), T.zbool(mphi)), patterns=[phi(j)]))
        ctx.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nz, T.zbool(mi)),
                                                   z3.And(rank(i) >= 0, rank(i) < mz, phi(rank(i)) == i)), patterns=[rank(i)]))

    def phi(self, j):
        # phi(rank(i)) = i wherever the mask holds (and only used there)
        if T.is_z3(j) and z3.is_app(j) and j.num_args() == 1 and j.decl().eq(self.RANK):
            return j.arg(0)
        return self.PHI(T.zint(j))

    def rank(self, i):
        if T.is_z3(i) and z3.is_app(i) and i.num_args() == 1 and i.decl().eq(self.PHI):
            return i.arg(0)
        return self.RANK(T.zint(i))

    def full_if(self):
        """Facts for an everywhere-true mask (phi is the identity)."""


def filter_of(mask):
    """Filter of a 1-d mask; equal masks share the same enumeration."""
    ctx = C()
    fs = ctx.store.setdefault("filters", [])
    n = mask.shape[0]
    g = mask.reader()
    i = z3.Int("fi!")
    e = T.zbool(g((i,)))
    rng = [i >= 0, i < dz(n)]
    for F, e2 in fs:
        if same_dim(F.n, n):
            if e2.eq(e):
                return F
    for F, e2 in fs:
        if dims_same_holds(F.n, n):
            if ctx.holds(e == e2, extra=rng):
                return F
    F = Filter(g, n, ctx.fresh("flt"))
    fs.append((F, e))
    return F


def dims_same_holds(a, b):
    if same_dim(a, b):
        return True
    a, b = dz(a), dz(b)
    if isinstance(a, int) and isinstance(b, int):
        return False
    return C().holds(T.cmp("==", a, b), ms=900)


def mask_nd(base, k, ax):
    raise Unsupported("multi-dimensional boolean mask")


# ----------------------------------------------------------------- writing
def assign(a, key, val):
    if val is NotImplemented:
        raise Unsupported("assigning a foreign object to an array")
    key = _expand_key(a, key)
    adv = [k for k in key if is_adv(k)]
    if len(adv) > 1:
        raise Unsupported("writing with several advanced indices")
    mask = None
    if adv:
        k = adv[0]
        pos = next(i for i, x in enumerate(key) if x is k)
        if k.dtype.kind != "b" or k.ndim != 1:
            if k.dtype.kind == "b" and k.ndim == a.ndim and len(key) == 1 and val.ndim == 0:
                kg = k.reader()
                old = a.reader()
                v0 = val.at(())
                write_all(a, lambda idx: T.ite(kg(idx), cast(v0, val.dtype.kind, a.dtype.kind), old(idx)))
                return
            raise Unsupported("writing with an index array")
        if any(isinstance(x, (int, SInt)) for x in key):
            raise Unsupported("writing with mixed indices")
        if not dims_equal(k.shape[0], a.shape[pos]):
            raise IndexError("boolean index did not match indexed array along axis")
        bk = key[:pos] + [slice(None)] + key[pos + 1:]
        ax = sum(1 for x in key[:pos] if x is None or isinstance(x, slice))
        always = k.at((z3.Int("mask_probe!"),))
        if not (always is True or (z3.is_expr(always) and z3.is_true(always))):
            mask = k
    else:
        bk = key
    tgt = basic_view(a, bk)
    if tgt.inv is None or not tgt.writable:
        raise Unsupported("writing through this view")
    vk, tk = val.dtype.kind, a.dtype.kind
    g = val.reader()
    if mask is None:
        shape = tgt.shape
        if val.ndim > len(shape):
            extra = val.ndim - len(shape)
            if not all(isinstance(d, int) and d == 1 for d in val.shape[:extra]):
                raise ValueError("could not broadcast input array into shape")
            val = val.reshape(val.shape[extra:])
            g = val.reader()
        st = []
        for vd, td in zip(val.shape, shape[len(shape) - val.ndim:]):
            if same_dim(vd, td):
                st.append(False)
            elif isinstance(vd, int) and vd == 1:
                st.append(True)
            elif dims_equal(vd, td):
                st.append(False)
            elif dims_equal(vd, 1):
                st.append(True)
            else:
                raise ValueError("could not broadcast input array into shape")
        st = tuple(st)
        val_at = lambda idx: g(bidx(idx, len(idx), st))
        cond_at = lambda idx: True
    else:
        mg = mask.reader()
        # shape of the selected region
        nd = tgt.ndim
        off = nd - val.ndim
        if off < 0:
            raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
        st = []
        uses_rank = False
        F = None
        for q, vd in enumerate(val.shape):
            taxis = q + off
            if taxis == ax:
                if isinstance(vd, int) and vd == 1:
                    st.append(True)
                else:
                    F = filter_of(mask)
                    if dims_equal(vd, F.m):
                        st.append(False)
                        uses_rank = True
                    elif dims_equal(vd, 1):
                        st.append(True)
                    else:
                        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            else:
                td = tgt.shape[taxis]
                if same_dim(vd, td) or dims_equal(vd, td):
                    st.append(False)
                elif dims_equal(vd, 1):
                    st.append(True)
                else:
                    raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
        st = tuple(st)

        def val_at(idx):
            if uses_rank:
                idx = idx[:ax] + (F.rank(idx[ax]),) + idx[ax + 1:]
            return g(bidx(idx, len(idx), st))

        cond_at = lambda idx: mg((idx[ax],))
    inv, cell = tgt.inv, a.cell
    old = cell.f

    def newf(b):
        c, v = inv(b)
        if c is False:
            return old(b)
        c2 = cond_at(v)
        c = T.land(c, c2)
        if c is False:
            return old(b)
        return T.ite(c, cast(val_at(v), vk, tk), old(b))

    commit(cell, newf)


def basic_inv(a):
    return a.inv if a.fwd is not None else (lambda b: (True, b))


def write_all(a, newf_view):
    inv = basic_inv(a)
    old = a.cell.f

    def newf(b):
        c, v = inv(b)
        return T.ite(c, newf_view(v), old(b))

    commit(a.cell, newf)


def cast(v, k_from, k_to):
    if k_from == k_to:
        return v
    if k_to == "f":
        if k_from == "q":
            raise TypeError("Cannot cast quaternion to float")
        return v
    if k_to == "i" and k_from == "f":
        return trunc(v)
    if k_to == "i" and k_from == "b":
        return T.ite(v, 1, 0)
    if k_to == "b":
        return T.cmp("!=", v, 0)
    if k_to == "q":
        return (v, 0, 0, 0)
    raise Unsupported("implicit cast %s -> %s" % (k_from, k_to))


def commit(cell, newf):
    """Replace the content of a storage cell (frame condition for inputs)."""
    ctx = C()
    if cell.owner is not None:
        old = cell.f
        for idx, cs in all_indices(cell.shape, "w"):
            a, b = newf(idx), old(idx)
            goal = value_eq(a, b)
            if goal is True:
                continue
            ctx.prove(z3.Implies(z3.And(*cs), T.zbool(goal)) if cs else goal,
                      "frame: %s is not modified" % cell.owner)
    for h in ctx.loops:
        h.written(cell)
    cell.set(newf)


def value_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        a = a if isinstance(a, tuple) else (a, 0, 0, 0)
        b = b if isinstance(b, tuple) else (b, 0, 0, 0)
        return T.land(*[T.cmp("==", x, y) for x, y in zip(a, b)])
    return T.cmp("==", a, b)


# ---------------------------------------------------------------- sums


def sum_over(body, n, name="s"):
    """Sum of body(k) for 0 <= k < n, linear in its canonical monomials.

    A sum of a product of factors that depend on the index is an uninterpreted
    function of the other integer terms in it; nested and flattened sums are one
    sum over a tuple of indices, in any order (Fubini).
    """
    if isinstance(n, int):
        if n > 64:
            raise Unsupported("long concrete sum")
        r = 0
        for k in range(n):
            r = T.add(r, body(k))
        return r
    from . import prover as P
    k = z3.Int(C().fresh("k!sum"))
    e = body(k)
    if not T.is_z3(e):
        return T.mul(dz(n), e)
    e = z3.simplify(T.zreal(e), som=False)
    try:
        terms = P.monomials(e)
    except P.TooHard:
        terms = [(1, [e])]
    if terms is None:
        terms = [(1, [e])]
    total = 0
    for coef, factors in terms:
        dep = [f for f in factors if P._occurs(k, f)]
        ind = [f for f in factors if not P._occurs(k, f)]
        t = coef
        for f in ind:
            t = T.mul(t, f)
        t = T.mul(t, dz(n) if not dep else _sum_atom(dep, k, n))
        total = T.add(total, t)
    return total


_BV = [z3.Int("b!%d" % i) for i in range(8)]
_AV = [z3.Int("a!%d" % i) for i in range(64)]


def _sum_atom(factors, k, n):
    """Canonical term for the sum over k < n of a product of factors."""
    bounds = [(k, n)]
    flat = []
    for f in factors:
        d = _sum_defs.get(f.decl().name()) if z3.is_app(f) else None
        if d is None:
            flat.append(f)
            continue
        # a nested sum: rename its bound variables apart and merge
        fs, bs, na = d
        sub = [(_AV[i], f.arg(i)) for i in range(na)]
        new = [z3.Int(C().fresh("k!sum")) for _ in bs]
        sub += list(zip(_BV, new))
        flat += [z3.substitute(x, *sub) for x in fs]
        bounds += [(v, dim(z3.substitute(T.zint(dz(m)), *sub))) for v, m in zip(new, bs)]
    factors = flat
    # a sum over a flattened index is a sum over the index tuple
    for pos, (v, m) in enumerate(list(bounds)):
        for fl in C().store.get("flattenings", []):
            if not any(_under(f, v, fl.U) for f in factors) or not _same_int(m, prod(fl.dims)):
                continue
            new = [z3.Int(C().fresh("k!sum")) for _ in fl.dims]
            sub = [(u(v), w) for u, w in zip(fl.U, new)]
            fs = [z3.substitute(f, *sub) for f in factors]
            from . import prover as P
            if any(P._occurs(v, f) for f in fs):
                continue
            factors = fs
            bounds = [b for b in bounds if b[0] is not v] + list(zip(new, fl.dims))
            break
    if len(bounds) > 4:
        raise Unsupported("sum over more than four indices")
    import itertools
    best = None
    for perm in itertools.permutations(range(len(bounds))):
        ren = [(bounds[p][0], _BV[i]) for i, p in enumerate(perm)]
        fs = [z3.substitute(f, *ren) for f in factors]
        ns = [z3.substitute(T.zint(dz(bounds[p][1])), *ren) for p in perm]
        fs.sort(key=lambda f: (_abstract([f], {}, blind=True)[0].sexpr(), f.sexpr()))
        amap = {}
        out = _abstract(fs + ns, amap)
        key = "|".join(x.sexpr() for x in out)
        if best is None or key < best[0]:
            best = key, out[:len(fs)], out[len(fs):], [t for t, _ in sorted(amap.values(), key=lambda p: p[1])]
    key, fs, ns, args = best
    if key not in _sum_names:
        _sum_names[key] = "SUM%d" % len(_sum_names)
        _sum_defs[_sum_names[key]] = (fs, ns, len(args))
    f = T.fn(_sum_names[key], *([T.IS] * len(args) + [T.RS])) if args else None
    return f(*args) if args else z3.Real(_sum_names[key])


def _same_int(a, b):
    from . import prover as P
    a, b = dz(a), dz(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return P.poly_equal(T.zreal(a), T.zreal(b), [], dens=False, groebner=False)


def _under(f, v, us):
    from . import prover as P
    return any(P._occurs(u(v), f) for u in us)


def _abstract(exprs, amap, blind=False):
    """Replace maximal integer terms without bound variables by placeholders."""
    hb = {}

    def has_b(e):
        if e.get_id() in hb:
            return hb[e.get_id()][1]
        r = any(e.eq(b) for b in _BV) or any(has_b(c) for c in e.children())
        hb[e.get_id()] = e, r
        return r

    def collect(e, acc, seen):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            raise Unsupported("sum over a quantified term")
        if e.sort() == T.IS and not has_b(e):
            acc.append(e)
            return
        for c in e.children():
            collect(c, acc, seen)

    out = []
    for e in exprs:
        acc = []
        collect(e, acc, set())
        sub = []
        for t in acc:
            if blind:
                sub.append((t, _AV[0]))
                continue
            kk = t.sexpr()
            if kk not in amap:
                if len(amap) >= len(_AV):
                    raise Unsupported("sum with too many parameters")
                amap[kk] = (t, len(amap))
            sub.append((t, _AV[amap[kk][1]]))
        out.append(z3.substitute(e, *sub) if sub else e)
    return out


_sum_names = {}
_sum_defs = {}


def exists_over(body, n, forall=False):
    if isinstance(n, int) and n <= 64:
        vals = [body(k) for k in range(n)]
        vals = [v if isinstance(v, bool) or z3.is_bool(v) else T.cmp("!=", v, 0) for v in vals]
        return T.land(*vals) if forall else T.lor(*vals)
    ctx = C()
    k = z3.Int(ctx.fresh("q"))
    v = body(k)
    if not (isinstance(v, bool) or z3.is_bool(v)):
        v = T.cmp("!=", v, 0)
    rng = z3.And(k >= 0, k < dz(n))
    if isinstance(v, bool):
        nonempty = T.cmp(">", dz(n), 0)
        return (True if v else T.lnot(nonempty)) if forall else (nonempty if v else False)
    return z3.ForAll([k], z3.Implies(rng, v)) if forall else z3.Exists([k], z3.And(rng, v))


def reduce_axes(a, axis, combine, kind, keepdims=False):
    """Generic reduction: combine(body, n) along each of the axes."""
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [norm_axis(x, a.ndim) for x in axis]
        if len(set(axes)) != len(axes):
            raise ValueError("duplicate value in 'axis'")
    else:
        axes = [norm_axis(axis, a.ndim)]
    g = a.reader()
    keep = [i for i in range(a.ndim) if i not in axes]
    shape = tuple((1 if i in axes else a.shape[i]) for i in range(a.ndim)) if keepdims else tuple(a.shape[i] for i in keep)

    def at(idx):
        full = [None] * a.ndim
        if keepdims:
            for i in keep:
                full[i] = idx[i]
        else:
            for i, x in zip(keep, idx):
                full[i] = x

        def rec(rem, full):
            if not rem:
                return g(tuple(full))
            ax = rem[0]

            def body(k):
                f2 = list(full)
                f2[ax] = k
                return rec(rem[1:], f2)

            return combine(body, a.shape[ax])

        return rec(axes, full)

    return SymArray(shape, kind, at)


def qsum_over(body, n):
    if isinstance(n, int):
        r = (0, 0, 0, 0)
        for k in range(n):
            r = T.qadd(r, body(k))
        return r
    return tuple(sum_over(lambda k: body(k)[c], n) for c in range(4))


# --------------------------------------------------------------- reshape
def prod(ds):
    r = 1
    for d in ds:
        r = d if isinstance(r, int) and r == 1 else r * d
    return r


def reshape(a, shape):
    shape = [dim(d) for d in shape]
    neg = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
    src = list(a.shape)
    if len(neg) > 1:
        raise ValueError("can only specify one unknown dimension")
    # strip equal trailing/leading dimensions
    if neg:
        k = neg[0]
        pre, post = shape[:k], shape[k + 1:]
        s = list(src)
        i = 0
        while i < len(pre) and i < len(s) and same_dim(pre[i], s[i]):
            i += 1
        j = 0
        while j < len(post) and j < len(s) - i and same_dim(post[-1 - j], s[-1 - j]):
            j += 1
        if i == len(pre) and j == len(post):
            mid = s[i:len(s) - j]
            shape[k] = prod(mid) if mid else 1
        else:
            tot = prod(src)
            known = prod(pre + post)
            if isinstance(tot, int) and isinstance(known, int):
                if known == 0 or tot % known:
                    raise ValueError("cannot reshape array")
                shape[k] = tot // known
            else:
                raise Unsupported("reshape with symbolic unknown dimension")
    g = a.reader()
    s, t = list(src), list(shape)
    # remove size-one dims mapping
    # match leading and trailing equal dims
    lead = 0
    while lead < min(len(s), len(t)) and same_dim(s[lead], t[lead]):
        lead += 1
    tail = 0
    while tail < min(len(s), len(t)) - lead and same_dim(s[-1 - tail], t[-1 - tail]):
        tail += 1
    ms, mt = s[lead:len(s) - tail], t[lead:len(t) - tail]

    def wrap(fmid):
        def at(idx):
            mid = idx[lead:len(idx) - tail]
            return g(tuple(idx[:lead]) + tuple(fmid(mid)) + tuple(idx[len(idx) - tail:]))
        return at

    ones = lambda l: all(isinstance(d, int) and d == 1 for d in l)
    ns, nt = [d for d in ms if not (isinstance(d, int) and d == 1)], [d for d in mt if not (isinstance(d, int) and d == 1)]
    if len(ns) == len(nt) and all(same_dim(x, y) or dims_equal(x, y) for x, y in zip(ns, nt)):
        # only size-one dimensions inserted or removed: a view
        def fmid(mid):
            it = iter([m for m, d in zip(mid, mt) if not (isinstance(d, int) and d == 1)])
            return [0 if (isinstance(d, int) and d == 1) else next(it) for d in ms]

        def fwd(idx):
            return tuple(idx[:lead]) + tuple(fmid(idx[lead:len(idx) - tail])) + tuple(idx[len(idx) - tail:])

        def inv(b):
            it = iter([m for m, d in zip(b[lead:len(b) - tail], ms) if not (isinstance(d, int) and d == 1)])
            mid = [0 if (isinstance(d, int) and d == 1) else next(it) for d in mt]
            return True, tuple(b[:lead]) + tuple(mid) + tuple(b[len(b) - tail:])

        return view_of(a, tuple(shape), fwd, inv)
    if all(isinstance(d, int) for d in ms + mt):
        if prod(ms) != prod(mt):
            raise ValueError("cannot reshape array of size into shape")

        def fmid(mid):
            flat = 0
            for m, d in zip(mid, mt):
                flat = T.add(T.mul(flat, d), m)
            out = []
            for d in reversed(ms):
                if isinstance(flat, int):
                    out.append(flat % d)
                    flat = flat // d
                else:
                    out.append(izs(flat % d))
                    flat = izs(flat / d)
            return list(reversed(out))

        return SymArray(tuple(shape), a.dtype, wrap(fmid))
    if len(nt) <= 1 and len(ns) > 1:
        # flattening of several dimensions: an uninterpreted bijection
        tot = prod(ns)
        if nt and not (same_dim(tot, nt[0]) or dims_equal(tot, nt[0])):
            raise ValueError("cannot reshape array")
        FL = flattening(tuple(ns))

        def fmid(mid):
            j = next((m for m, d in zip(mid, mt) if not (isinstance(d, int) and d == 1)), 0)
            it = iter(FL.unflatten(j))
            return [0 if (isinstance(d, int) and d == 1) else next(it) for d in ms]

        return SymArray(tuple(shape), a.dtype, wrap(fmid))
    if len(ns) == 1 and len(nt) > 1:
        FL = flattening(tuple(nt))
        tot = prod(nt)
        if not (same_dim(tot, ns[0]) or dims_equal(tot, ns[0])):
            raise ValueError("cannot reshape array")

        def fmid(mid):
            j = FL.flatten([m for m, d in zip(mid, mt) if not (isinstance(d, int) and d == 1)])
            return [0 if (isinstance(d, int) and d == 1) else j for d in ms]

        return SymArray(tuple(shape), a.dtype, wrap(fmid))
    if not ns and not nt:
        return SymArray(tuple(shape), a.dtype, wrap(lambda mid: [0] * len(ms)))
    raise Unsupported("reshape %s -> %s" % (src, shape))


class Flattening:
    """C-order flattening of a product of dimensions, as an uninterpreted bijection."""

    def __init__(self, dims, name):
        self.dims, self.name = dims, name
        self.U = [T.fn("%s_u%d" % (name, i), IS, IS) for i in range(len(dims))]
        self.F = T.fn(name + "_f", *([IS] * (len(dims) + 1)))
        ctx = C()
        j = z3.Int("j!")
        tot = dz(prod(dims))
        ctx.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tot), z3.And(
            *[z3.And(u(j) >= 0, u(j) < dz(d)) for u, d in zip(self.U, dims)])), patterns=[self.U[0](j)]))

    def unflatten(self, j):
        if T.is_z3(j) and z3.is_app(j) and j.num_args() == len(self.dims) and j.decl().eq(self.F):
            return [j.arg(i) for i in range(j.num_args())]
        return [u(T.zint(j)) for u in self.U]

    def flatten(self, mid):
        # flatten(unflatten(j)) = j
        if all(T.is_z3(m) and z3.is_app(m) and m.num_args() == 1 and m.decl().eq(u) for m, u in zip(mid, self.U)):
            if all(m.arg(0).eq(mid[0].arg(0)) for m in mid):
                return mid[0].arg(0)
        return self.F(*[T.zint(m) for m in mid])


def flattening(dims):
    ctx = C()
    fl = ctx.store.setdefault("flattenings", [])
    for f in fl:
        if len(f.dims) == len(dims) and all(same_dim(a, b) for a, b in zip(f.dims, dims)):
            return f
    f = Flattening(dims, ctx.fresh("flat"))
    fl.append(f)
    return f


# ---------------------------------------------------------------- dot
def dot(a, b, mm=False):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        if mm:
            raise ValueError("matmul: input operand does not have enough dimensions")
        return a * b
    if "q" in (a.dtype.kind, b.dtype.kind):
        raise Unsupported("dot of quaternions")
    n = a.shape[-1]
    bax = 0 if b.ndim == 1 else b.ndim - 2
    if not dims_equal(n, b.shape[bax]):
        raise ValueError("shapes not aligned")
    ga, gb = a.reader(), b.reader()
    k = promote(a.dtype.kind, b.dtype.kind)
    if mm and (a.ndim > 2 or b.ndim > 2):
        if a.ndim == 1 or b.ndim == 1:
            raise Unsupported("matmul of stacked vectors")
        bs, (sa, sb) = broadcast_shape(a.shape[:-2], b.shape[:-2])
        shape = bs + (a.shape[-2], b.shape[-1])

        def at(idx):
            lead = idx[:-2]
            ia, ib = bidx(lead, len(lead), sa), bidx(lead, len(lead), sb)
            return sum_over(lambda k_: T.mul(ga(ia + (idx[-2], k_)), gb(ib + (k_, idx[-1]))), n)

        return SymArray(shape, k, at)
    na = a.ndim - 1
    shape = a.shape[:-1] + b.shape[:bax] + b.shape[bax + 1:]

    def at(idx):
        ia, ib = idx[:na], idx[na:]
        return sum_over(lambda k_: T.mul(ga(ia + (k_,)), gb(ib[:bax] + (k_,) + ib[bax:])), n)

    return SymArray(shape, k, at)


def stack(arrays, axis=0):
    arrays = [asarray(a) for a in arrays]
    if not arrays:
        raise ValueError("need at least one array to stack")
    nd = arrays[0].ndim + 1
    axis = norm_axis(axis, nd)
    for a in arrays[1:]:
        if a.ndim != arrays[0].ndim or not all(dims_equal(x, y) for x, y in zip(a.shape, arrays[0].shape)):
            raise ValueError("all input arrays must have the same shape")
    rs = [a.reader() for a in arrays]
    kinds = [a.dtype.kind for a in arrays]
    k = promote(*kinds)
    dt = DT(k, next((a.dtype.unit for a in arrays if a.dtype.kind == "M"), None))
    shape = arrays[0].shape[:axis] + (len(arrays),) + arrays[0].shape[axis:]

    def at(idx):
        j = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        if isinstance(j, int):
            return cast(rs[j](rest), kinds[j], k)
        r = cast(rs[-1](rest), kinds[-1], k)
        for q in range(len(rs) - 2, -1, -1):
            r = T.ite(j == q, cast(rs[q](rest), kinds[q], k), r)
        return r

    return SymArray(shape, dt, at)


def concatenate(arrays, axis=0):
    if hasattr(arrays, "_sym_seq"):
        return arrays.concatenated(axis)
    arrays = [asarray(a) for a in arrays]
    if not arrays:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        arrays = [a.ravel() for a in arrays]
        axis = 0
    nd = arrays[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = norm_axis(axis, nd)
    for a in arrays[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for i, (x, y) in enumerate(zip(a.shape, arrays[0].shape)):
            if i != axis and not dims_equal(x, y):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    rs = [a.reader() for a in arrays]
    kinds = [a.dtype.kind for a in arrays]
    k = promote(*kinds)
    dt = DT(k, next((a.dtype.unit for a in arrays if a.dtype.kind == "M"), None))
    offs = [0]
    for a in arrays:
        offs.append(offs[-1] + a.shape[axis])
    shape = arrays[0].shape[:axis] + (offs[-1],) + arrays[0].shape[axis + 1:]

    def at(idx):
        j = idx[axis]

        def val(q):
            o = dz(offs[q])
            return cast(rs[q](idx[:axis] + (izs(T.sub(j, o)),) + idx[axis + 1:]), kinds[q], k)

        last = len(rs) - 1
        if isinstance(j, int) and all(isinstance(o, int) for o in offs):
            for q in range(len(rs)):
                if j < offs[q + 1]:
                    return val(q)
        r = val(last)
        for q in range(last - 1, -1, -1):
            r = T.ite(T.cmp("<", j, dz(offs[q + 1])), val(q), r)
        return r

    return SymArray(shape, dt, at)


from .npmod import np  # noqa: E402


def value_eq_vec(a, b):
    return T.land(*[T.cmp("==", x, y) for x, y in zip(a, b)])
