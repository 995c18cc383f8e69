"""C14: Euler angles are the chained half-angle rotations."""
import itertools

from contracts.common import *

ORDERS = ["".join(p) for p in itertools.permutations("rpy")]
HALF = T.num(0.5)


def half_angle(axis, a):
    """Unit quaternion of the rotation by a about a coordinate axis."""
    h = T.mul(a, HALF)
    q = [T.cos(h), 0, 0, 0]
    q["rpy".index(axis) + 1] = T.sin(h)
    return tuple(q)


def chain(order, angles):
    """Product of the given single-axis rotations in the order given (spec)."""
    q = (1, 0, 0, 0)
    for c in order:
        if angles.get(c) is not None:
            q = T.qmul(q, half_angle(c, angles[c]))
    return q


NAMES = {"r": "roll", "p": "pitch", "y": "yaw"}
SUBSETS = ["r", "p", "y", "rp", "ry", "py", "rpy"]


@contract("C14", ["utils.from_euler_angles"], rank=[0, 1, 2], given=SUBSETS, order=[None] + ORDERS, quat=[False, True])
def separate_angles(ctx, rank, given, order, quat):
    if rank == 2 and (order in ORDERS[1:]):
        return ctx.prove(True, "covered by lower ranks")
    shape = dims(rank)
    ang = {c: real_array(NAMES[c], shape) for c in given}
    kw = {NAMES[c]: a for c, a in ang.items()}
    if order:
        kw["order"] = order
    r = mod("utils").from_euler_angles(return_quaternion=quat, **kw)
    val = lambda i: chain(order or "rpy", {c: a.at(i) for c, a in ang.items()})
    if quat:
        check_array(r, shape, val, "product of the half-angle quaternions in the order given", kind="q")
    else:
        check_array(r, shape + (4,), lambda i: val(i[:-1])[i[-1]], "product of the half-angle quaternions in the order given")


@contract("C14", ["utils.from_euler_angles"], layout=[(r, a) for r in (1, 2, 3) for a in range(-r, r)], order=ORDERS, quat=[False, True])
def one_array(ctx, layout, order, quat):
    rank, axis = layout
    if rank == 3 and order not in ("rpy", "ypr", "pyr"):
        return ctx.prove(True, "covered by lower ranks")
    p = axis % rank
    shape = dims(rank, fixed={p: 3})
    rpy = real_array("rpy", shape)
    r = mod("utils").from_euler_angles(rpy, axis=axis, order=order, return_quaternion=quat)
    if quat:
        # quaternion dtype: the array keeps the shape with the components moved last and merged
        lead = list(shape)
        lead[p], lead[-1] = lead[-1], lead[p]
        lead = tuple(lead[:-1])

        def at(i):
            full = list(i) + [None]
            full[p], full[-1] = full[-1], full[p]
            return tuple(full)

        def val(i):
            f = at(i)
            return chain(order, {c: rpy.at(f[:p] + (k,) + f[p + 1:]) for k, c in enumerate("rpy")})

        check_array(r, lead, val, "product of the half-angle quaternions in the order given", kind="q")
    else:
        out = shape[:p] + (4,) + shape[p + 1:]
        check_array(r, out, lambda i: chain(order, {c: rpy.at(i[:p] + (k,) + i[p + 1:]) for k, c in enumerate("rpy")})[i[p]],
                    "product of the half-angle quaternions in the order given")


@contract("C14", ["utils.from_euler_angles"], quat=[False, True], scalars=[("r",), ("p", "y"), ("r", "p", "y")])
def plain_numbers(ctx, quat, scalars):
    v = {c: 0.25 * (k + 1) for k, c in enumerate(scalars)}
    r = mod("utils").from_euler_angles(return_quaternion=quat, **{NAMES[c]: x for c, x in v.items()})
    want = chain("rpy", {c: T.num(x) for c, x in v.items()})
    if quat:
        check_array(r, (), lambda i: want, "plain numbers", kind="q")
    else:
        check_array(r, (4,), lambda i: want[i[0]], "plain numbers")


@contract("C14", ["utils.from_euler_angles"])
def integer_angles(ctx):
    n = fresh_int("n")
    a = real_array("yaw", (n,), kind="i")
    r = mod("utils").from_euler_angles(yaw=a)
    check_array(r, (n, 4), lambda i: half_angle("y", a.at(i[:1]))[i[1]], "integer angles")


@contract("C14", ["spec"], order=ORDERS)
def unit_norm(ctx, order):
    a = {c: z3.Real(c) for c in "rpy"}
    ctx.prove(T.qnorm2(chain(order, a)) == 1, "lemma: the result is a unit quaternion")


@contract("C14", ["utils.from_euler_angles"], pair=["rp", "ry", "py"])
def rejects_shapes(ctx, pair):
    n, m = fresh_int("n"), fresh_int("m")
    ctx.assume(n.e != m.e)
    f = mod("utils").from_euler_angles
    a, b = (NAMES[c] for c in pair)
    must_raise(lambda: f(**{a: real_array(a, (n,)), b: real_array(b, (m,))}), ValueError, "inconsistent shapes are rejected")
    must_raise(lambda: f(**{a: real_array(a, (n,)), b: real_array(b, (n, 1))}), ValueError, "inconsistent shapes are rejected")
    k = fresh_int("k", 2)
    must_raise(lambda: f(**{a: real_array(a, (1,)), b: real_array(b, (k,))}), ValueError, "inconsistent shapes are rejected")


@contract("C14", ["utils.from_euler_angles"], order=["", "r", "rp", "rpp", "rpyr", "xyz", "rpx", "ryyp", "RPY", "rrr"])
def rejects_order(ctx, order):
    n = fresh_int("n")
    f = mod("utils").from_euler_angles
    must_raise(lambda: f(real_array("rpy", (n, 3)), order=order), ValueError, "orders that are not permutations are rejected")
    must_raise(lambda: f(roll=real_array("roll", (n,)), order=order), ValueError, "orders that are not permutations are rejected")


@contract("C14", ["utils.from_euler_angles"], extra=["roll", "pitch", "yaw"])
def rejects_mixed(ctx, extra):
    n = fresh_int("n")
    f = mod("utils").from_euler_angles
    must_raise(lambda: f(real_array("rpy", (n, 3)), **{extra: real_array(extra, (n,))}), ValueError, "rpy and separate angles are rejected")
    must_raise(lambda: f(), ValueError, "no angles are rejected")
