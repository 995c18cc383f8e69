"""Discharging proof obligations.

Order: structural/linear simplification, polynomial normal form over the
field of rational functions (sympy ring arithmetic, with case splits on
if-then-else conditions and reduction by equality hypotheses), z3, cvc5.
A goal counts as discharged only if one of these says so; anything else is
reported as 'refuted' (z3 model) or 'unknown'.
"""
import subprocess
import tempfile
import os
import re
import time
from fractions import Fraction
import z3
from sympy import QQ
from sympy.polys.rings import ring as _ring

SCALE = [1.0]       # a failed case is retried with longer time limits
TIMEOUT_MS = int(os.environ.get("PYVC_Z3_MS", "4000"))
STATS = {"time": {}, "count": {}}


def _stat(backend, dt, n=1):
    STATS["time"][backend] = STATS["time"].get(backend, 0.0) + dt
    STATS["count"][backend] = STATS["count"].get(backend, 0) + n


class TooHard(Exception):
    pass


def _k(e):
    return e.decl().kind()


ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_POWER}

_norm_cache = {}
_keep = []


def normalize(e):
    """Canonical form of the arguments of uninterpreted applications."""
    i = e.get_id()
    if i in _norm_cache:
        return _norm_cache[i]
    r = _normalize(e)
    _norm_cache[i] = r
    _keep.append(e)
    return r


def _normalize(e):
    if z3.is_quantifier(e) or z3.is_var(e):
        return e
    if e.num_args() == 0:
        return e
    if e.sort() == z3.RealSort() and _k(e) in ARITH:
        return canon_real(e)
    args = [normalize(a) for a in e.children()]
    if any(not a.eq(b) for a, b in zip(args, e.children())):
        e = e.decl()(*args)
    if e.sort() == z3.IntSort() and _k(e) in ARITH | {z3.Z3_OP_ITE}:
        e = z3.simplify(e)
    return e


def canon_real(e):
    """Canonical z3 term for a real arithmetic term (polynomials only)."""
    atoms = {}
    try:
        _collect(e, atoms)
    except TooHard:
        return e.decl()(*[normalize(a) for a in e.children()])
    names = sorted(atoms, key=lambda k: str(atoms[k]))
    if not names:
        return z3.simplify(e)
    R, *g = _ring(["a%d" % i for i in range(len(names))], QQ)
    env = {k: x for k, x in zip(names, g)}
    try:
        n, d = _eval(e, env, R)
    except TooHard:
        return e.decl()(*[normalize(a) for a in e.children()])
    if not d.is_ground:
        g_ = n.gcd(d)
        if not g_.is_ground:
            n, d = n.quo(g_), d.quo(g_)
    # scale the denominator to be monic in the leading term
    lc = d.LC
    n, d = n.quo_ground(lc), d.quo_ground(lc)
    t = _topoly(n, [atoms[k] for k in names])
    if d != 1:
        t = t / _topoly(d, [atoms[k] for k in names])
    return t


def _q(c):
    return z3.RealVal(str(c))


def _topoly(p, atoms):
    ts = []
    for mon, c in sorted(p.terms()):
        fs = []
        for a, k in zip(atoms, mon):
            fs += [a] * k
        t = _q(c)
        if fs:
            m = fs[0]
            for f in fs[1:]:
                m = m * f
            t = m if c == 1 else t * m
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def _collect(e, atoms):
    """Collect the atoms (non-arithmetic subterms) of a real/int term."""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_rational_value(x) or z3.is_int_value(x):
            continue
        k = _k(x)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            stack.extend(x.children())
        elif k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(x.arg(1))):
            stack.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            raise TooHard("ite")
        else:
            a = normalize(x)
            if not a.eq(x) and _k(a) in ARITH:
                stack.append(a)
                _alias[x.get_id()] = a
                _keep.append(x)
                continue
            if z3.is_rational_value(a) or z3.is_int_value(a):
                _alias[x.get_id()] = a
                _keep.append(x)
                continue
            _alias[x.get_id()] = a
            _keep.append(x)
            atoms[a.get_id()] = a
            _keep.append(a)
    return atoms


_alias = {}


def _cancel(n, D):
    """Numerator and factored denominator {factor: exponent} in lowest known terms."""
    if not n:
        return n, {}
    out = {}
    for f, k in D.items():
        while k:
            q, r = divmod(n, f)
            if r:
                break
            n, k = q, k - 1
        if k:
            out[f] = k
    return n, out


def _expand(D, R):
    d = R(1)
    for f, k in D.items():
        d = d * f ** k
    return d


def _div_by(n, D, c, E, R, known):
    """(n/D) / (c/E): the divisor's numerator is split into already known factors and a rest."""
    if not c:
        raise TooHard("division by zero")
    for f, k in E.items():
        n = n * f ** k
    D = dict(D)
    for f in list(known):
        while not c.is_ground:
            q, r = divmod(c, f)
            if r:
                break
            c = q
            D[f] = D.get(f, 0) + 1
    lc = c.LC
    c, n = c.quo_ground(lc), n.quo_ground(lc)
    if not c.is_ground:
        if len(c) <= 60:
            _, fs = c.factor_list()
        else:
            fs = [(c, 1)]
        for f, k in fs:
            g = f.quo_ground(f.LC)
            n = n.quo_ground(f.LC ** k)
            known.append(g)
            D[g] = D.get(g, 0) + k
    return _cancel(n, D)


def _eval(e, env, R, cache=None, expand=True, known=None):
    """e as a fraction: numerator and denominator (a polynomial, or factored)."""
    cache = {} if cache is None else cache
    known = [] if known is None else known
    one = R(1)

    def ev(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        if z3.is_rational_value(x):
            r = (R(QQ(x.numerator_as_long(), x.denominator_as_long())), {})
        elif z3.is_int_value(x):
            r = (R(x.as_long()), {})
        else:
            k = _k(x)
            if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                ch = [ev(c) for c in x.children()]
                n, D = ch[0]
                for n2, D2 in ch[1:]:
                    s = n2 if k == z3.Z3_OP_ADD else -n2
                    if D != D2:
                        m = {f: max(D.get(f, 0), D2.get(f, 0)) for f in list(D) + list(D2)}
                        for f, q in m.items():
                            if q > D.get(f, 0):
                                n = n * f ** (q - D.get(f, 0))
                            if q > D2.get(f, 0):
                                s = s * f ** (q - D2.get(f, 0))
                        D = m
                    n = n + s
                    if len(n) > 20000:
                        raise TooHard("polynomial too large")
                r = _cancel(n, D) if D else (n, D)
            elif k == z3.Z3_OP_MUL:
                n, D = one, {}
                for c in x.children():
                    a, B = ev(c)
                    n = n * a
                    if B:
                        D = dict(D)
                        for f, q in B.items():
                            D[f] = D.get(f, 0) + q
                r = _cancel(n, D) if D else (n, D)
            elif k == z3.Z3_OP_UMINUS:
                a, b = ev(x.arg(0))
                r = (-a, b)
            elif k == z3.Z3_OP_DIV:
                a, b = ev(x.arg(0))
                c, d = ev(x.arg(1))
                r = _div_by(a, b, c, d, R, known)
            elif k == z3.Z3_OP_TO_REAL:
                r = ev(x.arg(0))
            elif k == z3.Z3_OP_POWER:
                p = z3.simplify(x.arg(1)).as_long()
                a, b = ev(x.arg(0))
                q = (a ** abs(p), {f: k_ * abs(p) for f, k_ in b.items()})
                r = q if p >= 0 else _div_by(one, {}, q[0], q[1], R, known)
            else:
                a = _alias.get(i, x)
                if a.get_id() != i and (_k(a) in ARITH or z3.is_rational_value(a) or z3.is_int_value(a)):
                    r = ev(a)
                else:
                    r = (env[a.get_id()], {})
        if len(r[0]) > 20000:
            raise TooHard("polynomial too large")
        cache[i] = r
        return r

    n, D = ev(e)
    return (n, _expand(D, R)) if expand else (n, D)


def monomials(e):
    """e as a sum of (coefficient, [atoms]); a denominator d becomes the atom 1/d."""
    e = _fold_ite(e)
    atoms = {}
    _collect(e, atoms)
    ids = list(atoms)
    R, *g = _ring(["a%d" % i for i in range(max(1, len(ids)))], QQ)
    n, d = _eval(e, dict(zip(ids, g)), R)
    out = []
    inv = []
    if not d.is_ground:
        g_ = n.gcd(d)
        if not g_.is_ground:
            n, d = n.quo(g_), d.quo(g_)
    if d.is_ground:
        n = n.quo_ground(d.LC)
    else:
        lc = d.LC
        n, d = n.quo_ground(lc), d.quo_ground(lc)
        inv = [z3.RealVal(1) / _topoly(d, [atoms[k] for k in ids])]
    for mon, c in sorted(n.terms()):
        fs = []
        for k, p in zip(ids, mon):
            fs += [atoms[k]] * p
        out.append((Fraction(int(c.numerator), int(c.denominator)), [zreal_(f) for f in fs] + inv))
    return out


def zreal_(f):
    return z3.ToReal(f) if f.sort() == z3.IntSort() else f


def denominators(e, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if e.get_id() in seen or z3.is_quantifier(e):
        return acc
    seen.add(e.get_id())
    if z3.is_app(e):
        if _k(e) == z3.Z3_OP_DIV:
            d = e.arg(1)
            if not z3.is_rational_value(d):
                if not any(d.eq(x) for x in acc):
                    acc.append(d)
        for c in e.children():
            denominators(c, acc, seen)
    return acc


def find_ite(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen or not z3.is_app(e):
        return None
    seen.add(e.get_id())
    if _k(e) == z3.Z3_OP_ITE:
        inner = find_ite(e.arg(0), seen)
        return inner if inner is not None else e.arg(0)
    for c in e.children():
        r = find_ite(c, seen)
        if r is not None:
            return r
    return None


def assume_in(e, c, val):
    """Replace condition c by a truth value in e."""
    return z3.simplify(z3.substitute(e, (c, z3.BoolVal(val))), arith_ineq_lhs=False) if False else _subst_cond(e, c, val)


def _subst_cond(e, c, val):
    e2 = z3.substitute(e, (c, z3.BoolVal(val)))
    return _fold_ite(e2)


def _fold_ite(e, cache=None):
    cache = {} if cache is None else cache

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        if not z3.is_app(x) or x.num_args() == 0:
            r = x
        else:
            ch = [go(a) for a in x.children()]
            k = _k(x)
            if k == z3.Z3_OP_ITE and (z3.is_true(ch[0]) or z3.is_false(ch[0])):
                r = ch[1] if z3.is_true(ch[0]) else ch[2]
            elif z3.is_bool(x) and k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
                r = x.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch))
                if any(z3.is_true(c) or z3.is_false(c) for c in ch):
                    r = z3.simplify(r)
            elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            else:
                r = x
        cache[i] = (r)
        _keep.append(x)
        return r

    return go(e)


def _eqs(hyps):
    """Equalities between real terms among the hypotheses."""
    out = []
    for h in hyps:
        if z3.is_and(h):
            out += _eqs(h.children())
        elif z3.is_eq(h) and h.arg(0).sort() in (z3.RealSort(),):
            out.append((h.arg(0), h.arg(1)))
    return out


def _int_eqs(hyps):
    out = []
    for h in hyps:
        if z3.is_and(h):
            out += _int_eqs(h.children())
        elif z3.is_eq(h) and h.arg(0).sort() == z3.IntSort():
            a, b = h.arg(0), h.arg(1)
            if z3.is_const(a) and not z3.is_int_value(a):
                out.append((a, b))
            elif z3.is_const(b) and not z3.is_int_value(b):
                out.append((b, a))
    return out


def _lemma_eqs(atoms):
    """Defining equations of sqrt/cos/sin terms (trusted axioms)."""
    out = []
    for a in atoms:
        if not z3.is_app(a) or a.num_args() == 0:
            continue
        n = a.decl().name()
        if n == "sqrt":
            out.append((a * a, a.arg(0)))
        elif n == "cos":
            s = z3.Function("sin", z3.RealSort(), z3.RealSort())(a.arg(0))
            out.append((s * s, 1 - a * a))
        elif n == "sin":
            c = z3.Function("cos", z3.RealSort(), z3.RealSort())(a.arg(0))
            out.append((a * a, 1 - c * c))
    return out


def _quick(goal, hyps, ms):
    s = z3.Solver()
    s.set("timeout", int(ms * SCALE[0]))
    s.add(*hyps)
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    _stat("z3", time.time() - t, 0)
    return r, s


_lin = {}


def _linear(h):
    """No quantifier, no product of unknowns, no division by an unknown."""
    i = h.get_id()
    if i not in _lin:
        _keep.append(h)
        from .engine import _cheap
        _lin[i] = _cheap(h)
    return _lin[i]


_nz_cache = {}


def quaternion_facts(e, seen=None):
    """Stored rotations (functions nz_*) and SQUAD interpolations of them are never zero (precondition)."""
    acc = []
    _apps(e, acc, set() if seen is None else seen, consts=True)
    out = {}
    for a in acc:
        m = re.match(r"(nz_.*|col_squad.*)_([0-3])$", a.decl().name())
        if m:
            f = [_like(a, "%s_%d" % (m.group(1), c)) for c in range(4)]
            out[m.group(1) + str(a.children())] = sum([x * x for x in f[1:]], f[0] * f[0]) > 0
    return list(out.values())


def _like(a, name):
    if not a.num_args():
        return z3.Const(name, a.sort())
    return z3.Function(name, *[a.arg(i).sort() for i in range(a.num_args())], a.sort())(*a.children())


def nonzero(d, hyps):
    """Show a denominator to be non-zero."""
    q = quaternion_facts(d)
    if q and _known_product(d, q, hyps):
        return True
    hyps = hyps + q if q else hyps
    r, _ = _quick(d != 0, hyps + axioms_for([d] + hyps), 2000)
    if r == z3.unsat:
        return True
    k = _k(d)
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS):
        return all(nonzero(c, hyps) for c in d.children() if not z3.is_rational_value(c))
    if k == z3.Z3_OP_DIV:
        return nonzero(d.arg(0), hyps) and nonzero(d.arg(1), hyps)
    # hypothesis of the form e != 0 / e > 0 that is the same polynomial
    for h in hyps:
        for x in _nonzero_facts(h):
            if poly_equal(d, x, hyps, dens=False):
                return True
    return False


def _known_product(d, facts, hyps):
    """d is a constant times powers of polynomials known to be non-zero (its own denominators are checked by the caller)."""
    try:
        ps = [x for h in facts for x in _nonzero_facts(h)]
        atoms = {}
        for x in ps + [d]:
            _collect(x, atoms)
        names = list(atoms)
        R, *g = _ring(["a%d" % i for i in range(max(1, len(names)))], QQ)
        env = dict(zip(names, g))
        known = []
        for x in ps:
            n, _ = _eval(x, env, R, expand=False)
            if n and not n.is_ground:
                known.append(n.quo_ground(n.LC))
        n, D = _eval(d, env, R, expand=False, known=list(known))
    except TooHard:
        return False
    if not n:
        return False
    for f in known:
        while not n.is_ground:
            q, r = divmod(n, f)
            if r:
                break
            n = q
    return n.is_ground


def _nonzero_facts(h):
    if z3.is_and(h):
        return [x for c in h.children() for x in _nonzero_facts(c)]
    if z3.is_not(h) and z3.is_eq(h.arg(0)) and h.arg(0).arg(0).sort() == z3.RealSort():
        return [h.arg(0).arg(0) - h.arg(0).arg(1)]
    if z3.is_distinct(h) and h.arg(0).sort() == z3.RealSort():
        return [h.arg(0) - h.arg(1)]
    if (z3.is_gt(h) or z3.is_lt(h)) and h.arg(0).sort() == z3.RealSort():
        return [h.arg(0) - h.arg(1)]
    return []


def poly_equal(a, b, hyps, dens=True, groebner=True):
    """a == b by normal form (modulo equality hypotheses)."""
    if a.eq(b):
        return True
    diff = a - b
    atoms = {}
    _collect(diff, atoms)
    if dens:
        for d in denominators(diff):
            if not nonzero(d, hyps):
                return False
    base = dict(atoms)
    # cheap attempt without hypotheses
    names = list(base)
    R, *g = _ring(["a%d" % i for i in range(max(1, len(names)))], QQ)
    n, _ = _eval(diff, dict(zip(names, g)), R, expand=False)
    if not n:
        return True
    if not groebner:
        return False
    # hypotheses: equalities that share atoms (two rounds of relevance)
    eqs = _eqs(hyps)
    rel = []
    used = set()
    for _ in range(3):
        cand = [(x, y) for (x, y) in _lemma_eqs(list(base.values())) + eqs]
        grew = False
        for x, y in cand:
            key = (x.get_id(), y.get_id())
            _keep.extend((x, y))
            if key in used:
                continue
            at = {}
            try:
                _collect(x - y, at)
            except TooHard:
                continue
            if not set(at) & set(base):
                continue
            used.add(key)
            rel.append((x, y))
            if set(at) - set(base):
                grew = True
            base.update(at)
        if not grew:
            break
    if not rel or len(base) > 60:
        return False
    names = list(base)
    R, *g = _ring(["a%d" % i for i in range(len(names))], QQ)
    env = dict(zip(names, g))
    n, _ = _eval(diff, env, R, expand=False)
    polys = []
    for x, y in rel:
        try:
            p, q = _eval(x - y, env, R, expand=False)
        except TooHard:
            continue
        if p:
            if dens and not all(nonzero(d, hyps) for d in denominators(x - y)):
                continue
            polys.append(p)
    return _ideal_member(n, polys, R)


def _ideal_member(n, polys, R, budget=6.0):
    t0 = time.time()
    try:
        r = n.rem(polys)
        if not r:
            return True
    except Exception:
        pass
    if len(polys) > 24:
        return False
    import multiprocessing as mp
    # Buchberger can blow up: run with a time limit
    return _timed_groebner(n, polys, R, budget)


def _timed_groebner(n, polys, R, budget):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        ok = b"0"
        try:
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(budget) + 1)
            from sympy.polys.groebnertools import groebner
            G = groebner(polys, R)
            if not n.rem(G):
                ok = b"1"
        except BaseException:
            pass
        finally:
            os.write(w, ok)
            os._exit(0)
    os.close(w)
    data = os.read(r, 1)
    os.close(r)
    os.waitpid(pid, 0)
    return data == b"1"


def _apps(e, acc, seen, consts=False):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        return
    if z3.is_app(e):
        if (e.num_args() or consts) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.append(e)
        for c in e.children():
            _apps(c, acc, seen, consts)


def axioms_for(exprs):
    """Ground axioms for sqrt, sin, cos, atan2 terms occurring in exprs."""
    acc, seen = [], set()
    for e in exprs:
        if is_expr(e):
            _apps(e, acc, seen, consts=True)
    out = []
    done = set()
    R = z3.RealSort()
    cosf, sinf = z3.Function("cos", R, R), z3.Function("sin", R, R)
    sqrtf = z3.Function("sqrt", R, R)
    trig = {}

    def addtrig(x):
        if x.get_id() in trig:
            return
        trig[x.get_id()] = x
        c, s = cosf(x), sinf(x)
        out.append(c * c + s * s == 1)
        out.append(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))

    for a in acc:
        if a.get_id() in done:
            continue
        done.add(a.get_id())
        n = a.decl().name()
        if n == "sqrt":
            x = a.arg(0)
            out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            out.append(z3.Implies(x > 0, a > 0))
        elif n in ("cos", "sin"):
            addtrig(a.arg(0))
        elif n == "atan2":
            y, x = a.arg(0), a.arg(1)
            r2 = x * x + y * y
            r = sqrtf(r2)
            pi = z3.Real("pi")
            out.append(z3.And(r >= 0, r * r == r2))
            addtrig(a)
            out.append(z3.And(r * cosf(a) == x, r * sinf(a) == y))
            out.append(z3.And(a <= pi, a >= -pi))
            out.append(z3.Implies(y >= 0, a >= 0))
            out.append(z3.Implies(y < 0, a < 0))
            out.append(z3.Implies(z3.And(x == 0, y == 0), a == 0))
        elif n == "arccos":
            x = a.arg(0)
            pi = z3.Real("pi")
            addtrig(a)
            out.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(cosf(a) == x, a >= 0, a <= pi, sinf(a) >= 0)))
        elif n == "arcsin":
            x = a.arg(0)
            addtrig(a)
            out.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(sinf(a) == x, cosf(a) >= 0)))
    for a in acc:
        if a.decl().name()[:3] == "nz_":
            out += quaternion_facts(a)
    pi = z3.Real("pi")
    out.append(z3.And(pi > z3.Q(314159, 100000), pi < z3.Q(314160, 100000)))
    return out


def is_expr(e):
    return isinstance(e, z3.ExprRef)


class Result:
    def __init__(self, status, backend, model=None, reason="", time_=0.0):
        self.status, self.backend, self.model, self.reason, self.time = status, backend, model, reason, time_

    def __bool__(self):
        return self.status == "proved"


def prove(goal, hyps, ms=None, depth=0, want_model=True):
    t0 = time.time()
    r = _prove(goal, hyps, ms or TIMEOUT_MS, depth, want_model)
    r.time = time.time() - t0
    if r.status == "proved" and depth == 0:
        _stat(r.backend, r.time)
    return r


def _prove(goal, hyps, ms, depth, want_model):
    if isinstance(goal, bool):
        if goal:
            return Result("proved", "simplifier")
        goal = z3.BoolVal(False)
    hyps = [h for h in hyps if is_expr(h) and not z3.is_true(h)]
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result("proved", "simplifier")
    # conjunctions: prove each conjunct
    if z3.is_and(goal):
        bk = "simplifier"
        for c in goal.children():
            r = prove(c, hyps, ms, depth, want_model)
            if not r:
                return r
            bk = r.backend if r.backend != "simplifier" else bk
        return Result("proved", bk)
    if z3.is_implies(goal):
        return prove(goal.arg(1), hyps + [goal.arg(0)], ms, depth, want_model)
    ie = _int_eqs(hyps)
    if ie and depth == 0:
        # substitute solved integer variables (x == t with x not in t)
        for x, t in ie:
            if not _occurs(x, t):
                goal = z3.substitute(goal, (x, t))
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
        r = _prove_eq(goal.arg(0), goal.arg(1), hyps, ms, depth)
        if r is not None:
            return r
    ax = axioms_for([goal] + hyps)
    if want_model and any(_has_quantified_product(h) for h in hyps):
        res, s = _quick(goal, hyps + ax, min(ms, 1000))
        if res == z3.unsat:
            return Result("proved", "z3")
        # weaken: products of unknowns become an uninterpreted function
        cache = {}
        res, s = _quick(_opaque_products(goal, cache), [_opaque_products(h, cache) for h in hyps], min(ms, 4000))
        if res == z3.unsat:
            return Result("proved", "z3")
    res, s = _quick(goal, hyps + ax, ms)
    if res == z3.unsat:
        return Result("proved", "z3")
    if res == z3.sat and want_model:
        return Result("refuted", "z3", model=s.model(), reason="z3 found a counterexample")
    # try without irrelevant (non-linear) hypotheses, with another tactic
    r = (want_model or ms >= 1000) and cvc5_prove(goal, hyps + ax, ms * 2)
    if r:
        return Result("proved", "cvc5")
    return Result("unknown", "z3", reason="z3: %s" % (s.reason_unknown() if res == z3.unknown else res))


_qp = {}


def _has_quantified_product(h):
    i = h.get_id()
    if i not in _qp:
        _keep.append(h)
        acc, seen, r = [(h, False)], set(), False
        while acc and not r:
            e, q = acc.pop()
            if (e.get_id(), q) in seen:
                continue
            seen.add((e.get_id(), q))
            if z3.is_quantifier(e):
                acc.append((e.body(), True))
            elif z3.is_app(e):
                r = q and (_is_product(e) or e.decl().kind() == z3.Z3_OP_TO_REAL)
                acc.extend((c, q) for c in e.children())
        _qp[i] = r
    return _qp[i]


def _is_product(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in e.children()) > 1
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        return not z3.is_rational_value(e.arg(1))
    return False


def _opaque_products(e, cache):
    """The same formula with the real products and quotients of unknowns replaced by uninterpreted functions."""
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    if z3.is_quantifier(e):
        vs = [z3.Const("op!%d!%d" % (i, k), e.var_sort(k)) for k in range(e.num_vars())]
        b = _opaque_products(z3.substitute_vars(e.body(), *reversed(vs)), cache)
        r = z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b) if e.is_exists() else e
    elif not z3.is_app(e) or not e.num_args():
        r = e
    elif e.decl().kind() == z3.Z3_OP_TO_REAL:
        def cast(t):
            if z3.is_int_value(t):
                return z3.RealVal(t.as_long())
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_ITE):
                ch = t.children()
                return z3.If(ch[0], cast(ch[1]), cast(ch[2])) if z3.is_app_of(t, z3.Z3_OP_ITE) else z3.Sum([cast(c) for c in ch])
            return z3.Function("opaque_real", z3.IntSort(), z3.RealSort())(t)
        r = cast(_opaque_products(e.arg(0), cache))
    else:
        ch = [_opaque_products(c, cache) for c in e.children()]
        if e.sort() == z3.RealSort() and _is_product(e):
            R = z3.RealSort()
            if e.decl().kind() == z3.Z3_OP_MUL:
                f = z3.Function("opaque_mul", R, R, R)
                num = [c for c in ch if z3.is_rational_value(c)]
                ch = sorted((c for c in ch if not z3.is_rational_value(c)), key=lambda c: c.decl().name() if z3.is_app(c) else "")
                r = ch[0]
                for c in ch[1:]:
                    r = f(r, c)
                for c in num:
                    r = c * r
            else:
                r = z3.Function("opaque_%d" % e.decl().kind(), R, R, R)(*ch)
        else:
            r = e.decl()(*ch)
    cache[i] = (e, r)
    return r


def _occurs(x, t):
    acc = [t]
    seen = set()
    while acc:
        e = acc.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        acc.extend(e.children())
    return False


def _prove_eq(a, b, hyps, ms, depth, light=False):
    if a.eq(b):
        return Result("proved", "simplifier")
    a, b = _fold_ite(a), _fold_ite(b)
    c = find_ite(a - b)
    if c is not None:
        if depth > 12:
            return None
        out = []
        for val in (True, False):
            h = c if val else z3.Not(c)
            # skip impossible cases
            cheap = [x for x in hyps if _linear(x)]
            r, _ = _quick(z3.Not(h), cheap, 1000)
            if r == z3.unsat:
                continue
            a2, b2 = _subst_cond(a, c, val), _subst_cond(b, c, val)
            rr = _prove_eq(a2, b2, hyps + [h], ms, depth + 1, light=True) if not z3.is_true(z3.simplify(a2 == b2)) else Result("proved", "simplifier")
            if rr:
                out.append(rr.backend)
                continue
            if light:
                return None
            if len(cheap) < len(hyps):
                r, _ = _quick(z3.Not(h), hyps, 1000)
                if r == z3.unsat:
                    continue
            rr = prove(a2 == b2, hyps + [h], ms, depth + 1)
            if not rr:
                return rr
            out.append(rr.backend)
        return Result("proved", next((o for o in out if o != "simplifier"), "simplifier"))
    try:
        t = time.time()
        if poly_equal(a, b, hyps, groebner=not light):
            return Result("proved", "polynomial-normal-form")
    except TooHard:
        pass
    return None


def cvc5_prove(goal, hyps, ms):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run(
            ["cvc5", "--lang=smt2", "--tlimit=%d" % (ms * SCALE[0]), "--nl-ext-tplanes", "-"],
            input="(set-logic ALL)\n" + txt.replace("(set-info :status unknown)", ""),
            capture_output=True, text=True, timeout=ms * SCALE[0] / 1000 + 5,
        )
        ok = p.stdout.strip().startswith("unsat")
    except Exception:
        ok = False
    _stat("cvc5", time.time() - t, 0)
    return ok
