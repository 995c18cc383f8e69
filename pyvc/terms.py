"""Scalar terms and the rational-function normal form used by the prover.

A scalar is a python number (int, Fraction, bool) or a z3 expression of sort
Int, Real or Bool.  Floating-point numbers of the verified program are treated
as mathematical reals (recorded as an assumption in the evidence).
"""
from fractions import Fraction
import math
import z3

NUM = (int, Fraction)


class Unsupported(BaseException):
    """Something outside the modelled subset was used (never an alarm)."""


class PathEnd(BaseException):
    """The current path is finished (infeasible or fully discharged)."""


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def num(x):
    """Python number -> exact constant."""
    if isinstance(x, bool):
        return x
    if isinstance(x, NUM):
        return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite constant")
        f = Fraction(x)
        if f.denominator > 2**40:
            # decimal literal such as 1e-12: use the decimal value
            f = Fraction(repr(x))
        return num(f)
    if is_z3(x):
        return x
    raise Unsupported("constant of type %s" % type(x).__name__)


def zreal(x):
    x = num(x)
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    return x


def zint(x):
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if is_z3(x) and x.sort() == z3.IntSort():
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(int(x))
    raise Unsupported("integer term expected, got %r" % (x,))


def zbool(x):
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    if is_z3(x) and z3.is_bool(x):
        return x
    if is_z3(x):
        return x != 0
    raise Unsupported("boolean term expected")


def _isnum(x):
    return isinstance(x, NUM)


def _coerce(a, b):
    if is_z3(a) and z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if is_z3(b) and z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    ia = (is_z3(a) and a.sort() == z3.IntSort()) or isinstance(a, int)
    ib = (is_z3(b) and b.sort() == z3.IntSort()) or isinstance(b, int)
    if ia and ib:
        return zint(a), zint(b)
    return zreal(a), zreal(b)


def add(a, b):
    if _isnum(a) and _isnum(b):
        return num(a + b)
    if _isnum(a) and a == 0 and not z3.is_bool(b):
        return b
    if _isnum(b) and b == 0 and not z3.is_bool(a):
        return a
    a, b = _coerce(a, b)
    return a + b


def neg(a):
    if _isnum(a):
        return num(-a)
    if z3.is_bool(a):
        a = zint(z3.If(a, z3.IntVal(1), z3.IntVal(0)))
    return -a


def sub(a, b):
    if _isnum(a) and _isnum(b):
        return num(a - b)
    if _isnum(b) and b == 0:
        return a
    if _isnum(a) and a == 0:
        return neg(b)
    if is_z3(a) and is_z3(b) and a.eq(b):
        return 0
    a, b = _coerce(a, b)
    return a - b


def mul(a, b):
    if _isnum(a) and _isnum(b):
        return num(a * b)
    if _isnum(a):
        if a == 0:
            return 0
        if a == 1 and not z3.is_bool(b):
            return b
    if _isnum(b):
        if b == 0:
            return 0
        if b == 1 and not z3.is_bool(a):
            return a
    a, b = _coerce(a, b)
    return a * b


def div(a, b):
    """Real division (the prover shows divisors to be non-zero)."""
    if _isnum(b):
        if b == 0:
            return fn("div0", z3.RealSort())(zreal(a))
        return num(Fraction(a) / Fraction(b)) if _isnum(a) else mul(zreal(a), num(Fraction(1, 1) / Fraction(b)))
    if _isnum(a) and a == 0:
        # 0 / b is 0 only for b != 0, keep the term
        pass
    return zreal(a) / zreal(b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) and isinstance(b, bool) or (is_z3(a) and z3.is_bool(a)) or (is_z3(b) and z3.is_bool(b)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return z3.If(c, zbool(a), zbool(b))
    if not is_z3(a) and not is_z3(b) and a == b:
        return a
    if is_z3(a) and is_z3(b) and a.eq(b):
        return a
    a, b = _coerce(a, b)
    return z3.If(c, a, b)


def land(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        elif is_z3(c):
            if z3.is_false(c):
                return False
            if not z3.is_true(c):
                out.append(c)
        else:
            raise Unsupported("land")
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        elif z3.is_true(c):
            return True
        elif not z3.is_false(c):
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def cmp(op, a, b):
    """Comparison, returns bool or z3 Bool."""
    if _isnum(a) and _isnum(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if (is_z3(a) and z3.is_bool(a) or isinstance(a, bool)) and (is_z3(b) and z3.is_bool(b) or isinstance(b, bool)):
        a, b = zbool(a), zbool(b)
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
    if is_z3(a) and is_z3(b) and a.eq(b):
        return op in ("<=", ">=", "==")
    a, b = _coerce(a, b)
    r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
         "==": lambda: a == b, "!=": lambda: a != b}[op]()
    return r


_FN = {}


def fn(name, *sorts):
    """Cached uninterpreted function."""
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _FN:
        _FN[key] = z3.Function(name, *sorts) if len(sorts) > 1 else z3.Function(name, z3.RealSort(), sorts[0])
    return _FN[key]


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def rfun(name, n):
    return fn(name, *([RS] * n + [RS]))


PI = z3.Real("pi")


def sqrt(x):
    if _isnum(x):
        f = Fraction(x)
        if f >= 0:
            r = (math.isqrt(f.numerator), math.isqrt(f.denominator))
            if r[0] ** 2 == f.numerator and r[1] ** 2 == f.denominator:
                return num(Fraction(*r))
    return rfun("sqrt", 1)(zreal(x))


def cos(x):
    if _isnum(x) and x == 0:
        return 1
    return rfun("cos", 1)(zreal(x))


def sin(x):
    if _isnum(x) and x == 0:
        return 0
    return rfun("sin", 1)(zreal(x))


def absr(x):
    if _isnum(x):
        return abs(x)
    z, _ = _coerce(x, 0)
    return z3.If(z >= 0, z, -z)


# ---------------------------------------------------------------- quaternions
# a quaternion scalar is a 4-tuple (w, x, y, z)
def qmul(p, q):
    w, x, y, z = p
    a, b, c, d = q
    s = lambda *t: _sum(t)
    return (
        s(mul(w, a), neg(mul(x, b)), neg(mul(y, c)), neg(mul(z, d))),
        s(mul(w, b), mul(x, a), mul(y, d), neg(mul(z, c))),
        s(mul(w, c), neg(mul(x, d)), mul(y, a), mul(z, b)),
        s(mul(w, d), mul(x, c), neg(mul(y, b)), mul(z, a)),
    )


def _sum(ts):
    r = 0
    for t in ts:
        r = add(r, t)
    return r


def qconj(q):
    return (q[0], neg(q[1]), neg(q[2]), neg(q[3]))


def qnorm2(q):
    return _sum([mul(c, c) for c in q])


def qinv(q):
    n = qnorm2(q)
    return tuple(div(c, n) for c in qconj(q))


def qscale(q, s):
    return tuple(mul(c, s) for c in q)


def qadd(p, q):
    return tuple(add(a, b) for a, b in zip(p, q))


def qneg(q):
    return tuple(neg(a) for a in q)


def cross(a, b):
    return (
        sub(mul(a[1], b[2]), mul(a[2], b[1])),
        sub(mul(a[2], b[0]), mul(a[0], b[2])),
        sub(mul(a[0], b[1]), mul(a[1], b[0])),
    )


def dot(a, b):
    return _sum([mul(x, y) for x, y in zip(a, b)])


def vadd(a, b):
    return tuple(add(x, y) for x, y in zip(a, b))


def vsub(a, b):
    return tuple(sub(x, y) for x, y in zip(a, b))


def vscale(a, s):
    return tuple(mul(x, s) for x in a)


def rot(q, v):
    """q v q^-1 (specification of rotating a vector by a quaternion)."""
    p = qmul(qmul(q, (0,) + tuple(v)), qconj(q))
    n = qnorm2(q)
    return tuple(div(c, n) for c in p[1:])


class Opaque:
    """Something of a dependency that is not modelled: using it is unsupported."""

    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported(self._name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque(self._name + "." + n)

    def __mro_entries__(self, bases):
        return (object,)
