"""Loading of the verified modules: the source text of /repo, instrumented mechanically.

The instrumentation is purely syntactic and applied on every run:
  * `for` statements call the loop rule (`__rt__.loop`) - ordinary iteration for
    concrete iterables, the induction rule for symbolic ones;
  * comprehensions with one generator are passed to `__rt__.comp`;
  * `zip(*rows)` becomes `__rt__.unzip(zip, rows)`, which also accepts a symbolic number of rows;
  * the empty list display becomes a list that can have symbolic segments;
  * builtins such as len, range, zip, isinstance are replaced by versions that
    also accept symbolic values; imports resolve to the contracts of the
    dependencies.
Nothing else is changed or dropped.
"""
import ast
import builtins
import collections
import os
import sys
import types

from . import terms as T
from .terms import Unsupported
from .engine import C, SInt, SBool, mkint, mkbool, eint, ebool
from .terms import Opaque as _Opaque
from . import symnp as S
from . import symquat as Q
from . import seqs
from . import loops

REPO = os.environ.get("PYVC_REPO", "/repo")


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.func = []
        self.n = 0

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not node.elts:
            return ast.copy_location(_call("mklist", []), node)
        return node

    def _comp(self, node, kind, elt):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        self.generic_visit(node)
        has_bad = any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node))
        if has_bad:
            return node
        elt = node.elt if kind != "dict" else ast.Tuple([node.key, node.value], ast.Load())
        conds = g.ifs
        cond = None
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)

        def lam(body):
            # lambda __x: (lambda TARGET: body)(*__x) is not general; use a one-element comprehension instead
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg("_vcx_")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Subscript(
                    ast.ListComp(elt=body, generators=[ast.comprehension(
                        target=_copy(g.target), iter=ast.Tuple([ast.Name("_vcx_", ast.Load())], ast.Load()), ifs=[], is_async=0)]),
                    ast.Constant(0), ast.Load()))

        args = [ast.Constant(kind), g.iter, lam(elt), lam(cond) if cond is not None else ast.Constant(None)]
        return ast.copy_location(_call("comp", args), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "zip" and len(node.args) == 1 and not node.keywords and isinstance(node.args[0], ast.Starred):
            return ast.copy_location(_call("unzip", [node.func, node.args[0].value]), node)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, "list", None)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", None)

    def visit_SetComp(self, node):
        return self._comp(node, "set", None)

    def visit_For(self, node):
        names = assigned_names(node)
        self.generic_visit(node)
        if not self.func:
            return node
        self.n += 1
        lid = "%s.%s#%d" % (self.modname, ".".join(self.func), node.lineno)
        var = "_vcL%d_" % self.n
        pre = ast.Assign([ast.Name(var, ast.Store())], _call("loop", [
            node.iter, ast.Constant(lid), ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
            ast.Tuple([ast.Constant(n) for n in sorted(target_names(node.target))], ast.Load())]))
        loc = lambda: ast.Call(ast.Name("locals", ast.Load()), [], [])

        def setter(method):
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
            return ast.Assign([tgt], ast.Call(ast.Attribute(ast.Name(var, ast.Load()), method, ast.Load()), [loc()], []))

        carried = [n for n in names]
        if carried:
            head = [setter("head")]
            tail = [setter("tail")]
        else:
            head = [ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "head", ast.Load()), [loc()], []))]
            tail = [ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "tail", ast.Load()), [loc()], []))]
        # the target is bound after the state has been set
        bind = ast.Assign([node.target], ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "element", ast.Load()), [], []))
        new = ast.For(ast.Name("_vcit%d_" % self.n, ast.Store()), ast.Name(var, ast.Load()), head + [bind] + node.body, tail + node.orelse)
        return [ast.copy_location(pre, node), ast.copy_location(new, node)]


    def visit_While(self, node):
        """A loop that counts is a loop over a range; any other is executed as it is, without symbolic iterations."""
        if not self.func:
            self.generic_visit(node)
            return node
        self.n += 1
        new = counting(node, "_vcw%d_" % self.n)
        if new is not None:
            out = []
            for st in new:
                ast.copy_location(st, node)
                ast.fix_missing_locations(st)
                st = self.visit(st)
                out += st if isinstance(st, list) else [st]
            return out
        self.generic_visit(node)
        var = "_vcw%d_" % self.n
        pre = ast.Assign([ast.Name(var, ast.Store())], _call("whl", []))
        new = ast.While(ast.Call(ast.Name(var, ast.Load()), [ast.Lambda(_noargs(), node.test)], []), node.body, node.orelse)
        return [ast.copy_location(pre, node), ast.copy_location(new, node)]


def _noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def _step(st):
    """(name, +1 or -1) of `i += 1`, `i = i + 1`, ..."""
    one = lambda e: isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and one(st.value):
        op, name = st.op, st.target.id
    elif (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp)
          and isinstance(st.value.left, ast.Name) and st.value.left.id == st.targets[0].id and one(st.value.right)):
        op, name = st.value.op, st.targets[0].id
    else:
        return None
    return (name, 1) if isinstance(op, ast.Add) else (name, -1) if isinstance(op, ast.Sub) else None


def counting(node, tag):
    """`while i < N: ...; i += 1` (N fixed, the step first or last) as a for loop, or None."""
    test, more = node.test, []
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and not node.orelse:
        test, more = test.values[0], test.values[1:]
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    a, op, b = test.left, test.ops[0], test.comparators[0]
    first, last = _step(node.body[0]), _step(node.body[-1])
    for pos, st in ((0, first), (-1, last)):
        if st is None:
            continue
        i, d = st
        l, o, r = a, type(op), b
        if not (isinstance(l, ast.Name) and l.id == i):
            l, r = r, l
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o)
        if not (isinstance(l, ast.Name) and l.id == i) or o not in ((ast.Lt, ast.LtE) if d > 0 else (ast.Gt, ast.GtE)):
            continue
        body = node.body[1:] if pos == 0 else node.body[:-1]
        inner = [x for s in body for x in ast.walk(s)]
        if any(isinstance(x, ast.Name) and x.id == i and not isinstance(x.ctx, ast.Load) for x in inner):
            continue
        if any(isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for x in inner):
            continue
        if not _fixed(r, inner):
            continue
        name = lambda n, c=ast.Load: ast.Name(n, c())
        const = ast.Constant
        bound = _copy(r) if o in (ast.Lt, ast.Gt) else ast.BinOp(_copy(r), ast.Add() if d > 0 else ast.Sub(), const(1))
        n = ast.BinOp(bound, ast.Sub(), name(i)) if d > 0 else ast.BinOp(name(i), ast.Sub(), bound)
        pre = [ast.Assign([name(tag + "0", ast.Store)], name(i)), ast.Assign([name(tag + "n", ast.Store)], n)]
        at = lambda: ast.BinOp(name(tag + "0"), ast.Add() if d > 0 else ast.Sub(), name(tag + "k"))
        head = [ast.Assign([name(i, ast.Store)], at())]
        guards = [ast.If(ast.UnaryOp(ast.Not(), e), [ast.Break()], []) for e in more]
        step = [node.body[0]] if pos == 0 else []
        end = [ast.Assign([name(i, ast.Store)], _call("whend", [name(tag + "0"), name(tag + "n"), const(d)]))]
        loop = ast.For(name(tag + "k", ast.Store), ast.Call(name("range"), [name(tag + "n")], []), head + guards + step + body, end + node.orelse)
        return pre + [loop]
    return None


def _fixed(e, inner):
    """An expression whose value the loop does not change."""
    base = e
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.BinOp):
        return _fixed(e.left, inner) and _fixed(e.right, inner)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
        base = e.args[0]
    elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
        base = e.value.value
    if not isinstance(base, ast.Name):
        return False
    for x in inner:
        if isinstance(x, ast.Name) and x.id == base.id and not isinstance(x.ctx, ast.Load):
            return False
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == base.id and x.attr in (
                "append", "extend", "insert", "pop", "remove", "clear", "add", "discard", "update", "popleft", "appendleft"):
            return False
    return True


def _call(name, args):
    return ast.Call(ast.Attribute(ast.Name("__rt__", ast.Load()), name, ast.Load()), args, [])


def _copy(n):
    import copy
    return copy.deepcopy(n)


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(node):
    """Local variables assigned in a loop (target and body)."""
    out = set(target_names(node.target))

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    v = V()
    for s in node.body:
        v.visit(s)
    return sorted(out)


# ----------------------------------------------------------------- runtime
class RT:
    @staticmethod
    def mklist():
        return seqs.SymList()

    @staticmethod
    def loop(it, lid, names, targets):
        return loops.Loop(it, lid, names, targets)

    @staticmethod
    def whend(start, n, d):
        """The counter after all iterations."""
        return start + d * _minmax("max")(n, 0)

    @staticmethod
    def whl():
        from .engine import C
        ctx = C()
        rounds = []

        def test(f):
            if ctx is None:
                return f()
            ctx.store["while"] = True
            if rounds and len(ctx.decisions) > rounds[0] and (len(rounds) > 4 or rounds[-1] == "symbolic"):
                raise Unsupported("while loop with a symbolic condition")
            before = len(ctx.decisions)
            v = bool(f())
            if not rounds:
                rounds.append(len(ctx.decisions))
            rounds.append("symbolic" if len(ctx.decisions) > before else "concrete")
            return v
        return test

    @staticmethod
    def unzip(zip_, rows):
        """zip(*rows), for any number of rows that are tuples of the same length."""
        s = seqs.as_seq(rows)
        if s is None or s.concrete():
            return zip_(*(rows if s is None else s.items()))
        if not bool(s):
            return iter(())
        row = s.first()
        if not isinstance(row, tuple):
            raise Unsupported("zip of a symbolic number of sequences")
        return iter([RT.comp("list", s, lambda r, i=i: r[i], None) for i in range(len(row))])

    @staticmethod
    def comp(kind, it, elt, cond):
        s = seqs.as_seq(it)
        if s is None or s.concrete():
            src = it if s is None else s.items()
            if kind == "gen":
                return (elt(x) for x in src if cond is None or truth(cond(x)))
            out = [elt(x) for x in src if cond is None or truth(cond(x))]
            if kind == "set":
                return set(out)
            return out
        if kind == "set":
            raise Unsupported("set comprehension over a symbolic sequence")
        parts = []
        for p in s.parts:
            if isinstance(p, tuple):
                if cond is None or truth(cond(p[1])):
                    parts.append(("i", elt(p[1])))
            else:
                memo = {}

                def c(k, p=p, memo=memo):
                    base = p.c(k)
                    if cond is None:
                        return base
                    return T.land(base, seqs.formula_of(lambda: cond(p.item(k)), p.range(k, base)))
                parts.append(seqs.Seg(p.n, lambda k, p=p: elt(p.item(k)), c if (cond is not None or p.cond is not None) else None))
        return seqs.SymList(parts)


def truth(x):
    return bool(x)


def _len(x):
    if isinstance(x, (S.SymArray, seqs.SymList, seqs.SymRange)):
        return x.symlen()
    if hasattr(x, "symlen"):
        return x.symlen()
    return len(x)


class _range(type):
    pass


def _range_fn(*a):
    a = [x if isinstance(x, int) else S.dim(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return seqs.SymRange(0, a[0])
    if len(a) == 2 or (len(a) == 3 and a[2] == 1):
        return seqs.SymRange(a[0], a[1])
    raise Unsupported("range with a symbolic bound and a step")


def _any_all(name):
    native = getattr(builtins, name)

    def f(x):
        s = seqs.as_seq(x)
        if s is not None and not s.concrete():
            return s.quantify(name == "all")
        # no short-circuit forks for symbolic values: python semantics
        return native(x if s is None else s.items())
    return f


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        u = getattr(u, "_t", u) if type(u).__name__ == "_TypeProxy" else u
        if u is int or u is _int_fn:
            if isinstance(x, int) or isinstance(x, SInt):
                return True
        elif u is bool or u is _bool_fn:
            if isinstance(x, (bool, SBool)):
                return True
        elif u is float or u is _float_fn:
            if isinstance(x, float) or (isinstance(x, S.SymArray) and x.ndim == 0 and x.dtype.kind == "f"):
                return True
        elif u is list or u is _list_fn:
            if isinstance(x, (list, seqs.SymList)):
                return True
        elif u is tuple or u is _tuple_fn:
            if isinstance(x, tuple):
                return True
        elif u is str or u is _str_fn:
            if isinstance(x, str) or getattr(x, "_sym_str", False):
                return True
        elif isinstance(u, S.NT):
            if isinstance(x, S.SymArray) and x.ndim == 0 and x.dtype.kind in u.kinds:
                return True
        elif u is slice or u is set or u is dict or u is type or isinstance(u, type):
            if isinstance(x, u):
                return True
        elif callable(u):
            nt = getattr(u, "_native", None)
            if nt is not None and isinstance(x, nt):
                return True
    return False


def _wrap(native, f):
    f._native = native
    return f


def _float_fn(x=0.0):
    if isinstance(x, (SInt,)):
        return S.scalar(T.zreal(x.e), "f")
    if isinstance(x, S.SymArray):
        v = x.item_term()
        return S.scalar(v, "f")
    if isinstance(x, (int, float, str)):
        return float(x)
    raise Unsupported("float(%s)" % type(x).__name__)


def _int_fn(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, S.SymArray):
        v = x.item_term()
        if x.dtype.kind == "f":
            v = S.trunc(v)
        return mkint(v) if not isinstance(v, bool) else int(v)
    return int(x, *a)


def _bool_fn(x=False):
    return bool(x)


def _str_fn(x="", *a):
    if getattr(x, "_sym_str", False):
        return x
    return str(x, *a)


def _list_fn(x=()):
    s = seqs.as_seq(x)
    if s is not None:
        return s.copy()
    return list(x)


def _tuple_fn(x=()):
    s = seqs.as_seq(x)
    if s is not None:
        return tuple(s.items()) if s.concrete() else s.copy()
    return tuple(x)


def _zip(*a, strict=False):
    if any((seqs.as_seq(x) is not None and not seqs.as_seq(x).concrete()) for x in a):
        return seqs.zip_seqs(a)
    return zip(*a)


def _enumerate(x, start=0):
    s = seqs.as_seq(x)
    if s is not None and not s.concrete():
        return seqs.zip_seqs((seqs.Count(start), s))
    return enumerate(x if s is None else s.items(), start)


def _reversed(x):
    s = seqs.as_seq(x)
    if s is not None and not s.concrete():
        return seqs.reversed_seq(s)
    return reversed(list(x))


def _minmax(name):
    native = getattr(builtins, name)

    def f(*a, **k):
        if k:
            return native(*a, **k)
        if len(a) == 1:
            s = seqs.as_seq(a[0])
            if s is not None and not s.concrete():
                return s.extremum(1 if name == "max" else -1)
            a = list(a[0]) if s is None else s.items()
        if any(isinstance(x, (S.SymArray, SInt)) for x in a):
            r = a[0]
            for x in a[1:]:
                if isinstance(r, (int, SInt)) and isinstance(x, (int, SInt)):
                    b = x > r if name == "max" else x < r
                    r = x if bool(b) else r
                elif all(isinstance(y, S.SymArray) and y.ndim == 0 for y in (r, x)) and r.dtype == x.dtype and r.dtype.kind in "fi":
                    r = (S.np.maximum if name == "max" else S.np.minimum)(r, x)
                else:
                    r = x if bool(x > r if name == "max" else x < r) else r
            return r
        return native(a)
    return f


def _sum(x, start=0):
    s = seqs.as_seq(x)
    if s is not None and not s.concrete():
        raise Unsupported("sum of a symbolic list")
    r = start
    for v in (x if s is None else s.items()):
        r = r + v
    return r


def _abs(x):
    return abs(x)


def _type(x, *a):
    if a:
        return type(x, *a)
    return type(x)


def _sorted(x, **k):
    s = seqs.as_seq(x)
    if s is not None and not s.concrete():
        raise Unsupported("sorted of a symbolic list")
    return sorted(x if s is None else s.items(), **k)


def _map(f, *its):
    if len(its) == 1:
        s = seqs.as_seq(its[0])
        if s is not None and not s.concrete():
            return RT.comp("list", s, f, None)
    return map(f, *its)


def _filter(f, it):
    s = seqs.as_seq(it)
    if s is not None and not s.concrete():
        return RT.comp("list", s, lambda x: x, f)
    return filter(f, it)


def _reduce(f, seq, *init):
    import functools
    s = seqs.as_seq(seq)
    if s is not None and not s.concrete():
        h = C().store.get("reduce_rule")
        if h is not None:
            return h(f, s, *init)
        raise Unsupported("reduce over a symbolic list")
    return functools.reduce(f, seq if s is None else s.items(), *init)


class WarningsShim(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")

    @staticmethod
    def warn(msg, *a, **k):
        C().store.setdefault("warnings", []).append(str(msg))


def _anytree():
    """The installed anytree package (pure Python), executed as it is on trees built by the program."""
    try:
        import anytree
    except ImportError:
        import glob
        for p in glob.glob(os.environ.get("PYVC_SITE", "/opt/venv/lib/python3*/site-packages")):
            sys.path.append(p)
            try:
                import anytree
                break
            except ImportError:
                pass
            finally:
                sys.path.remove(p)
        else:
            return AnyAttr("anytree")
    real = anytree.Walker

    class Walker(real):
        """anytree.Walker: the real one, or the path given by the proof."""

        def walk(self, a, b):
            h = C().store.get("walk")
            return h(a, b) if h is not None else super().walk(a, b)

    def preorder(node, *a, **k):
        """anytree.PreOrderIter: the real one, or the sequence given by the proof."""
        h = C().store.get("preorder")
        return h(node) if h is not None and not a and not k else anytree.PreOrderIter(node, *a, **k)

    return _Shim("anytree", NodeMixin=anytree.NodeMixin, Walker=Walker, RenderTree=anytree.RenderTree, PreOrderIter=preorder)


class _Shim(types.ModuleType):
    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Opaque("%s.%s" % (self.__name__, name))


class AnyAttr(types.ModuleType):
    """A module of which nothing is modelled."""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Opaque("%s.%s" % (self.__name__, name))


_CODE = {}


def compiled(name, path):
    """Source text and instrumented code of a module."""
    if (name, path) in _CODE:
        return _CODE[name, path]
    with open(path) as f:
        src = f.read()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(src, path)
    tree = Instrument(name).visit(tree)
    ast.fix_missing_locations(tree)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code = compile(tree, path, "exec")
    _CODE[name, path] = (src, code)
    return src, code


class Loader:
    """One instrumented copy of the package."""

    PURE = {"collections", "functools", "operator", "itertools", "copy", "math", "pathlib", "io", "os", "sys", "json", "csv", "re", "typing", "contextlib", "abc", "string", "datetime", "numbers", "dataclasses", "enum", "types"}

    def __init__(self, shims=None):
        self.mods = {}
        self.shims = {
            "numpy": S.np, "quaternion": Q.QuatModule(), "scipy.interpolate": Q.InterpModule(),
            "scipy.spatial": Q.SpatialModule(), "scipy.signal": Q.SignalModule(), "warnings": WarningsShim(),
            "anytree": _anytree(),
            "scipy": _Shim("scipy", interpolate=Q.InterpModule(), spatial=Q.SpatialModule(), signal=Q.SignalModule()),
            "functools": _FuncTools(),
        }
        from . import symxr
        self.shims.update(symxr.SHIMS)
        self.shims.update(shims or {})
        self.sources = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            "len": _len, "range": _wrap(range, _range_fn), "any": _any_all("any"), "all": _any_all("all"),
            "isinstance": _isinstance, "zip": _zip, "enumerate": _enumerate, "reversed": _reversed,
            "max": _minmax("max"), "min": _minmax("min"), "sum": _sum, "abs": _abs, "sorted": _sorted,
            "map": _map, "filter": _filter,
            "float": _wrap(float, _float_fn), "int": _wrap(int, _int_fn), "list": _wrap(list, _list_fn),
            "tuple": _wrap(tuple, _tuple_fn), "str": _wrap(str, _str_fn),
            "__import__": self._import, "print": lambda *a, **k: None,
        })
        # types used as types must still compare as types
        for n in ("float", "int", "list", "tuple", "str"):
            self.builtins[n] = _TypeProxy(getattr(builtins, n), self.builtins[n])

    def path_of(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path_of(name)
        src, code = compiled(name, path)
        self.sources[name] = src
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__rt__"] = RT
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        exec(code, m.__dict__)
        from .engine import C
        hook = C() and C().store.get("on_load")
        if hook:
            hook(m)
        if "." in name:
            par = name.rpartition(".")[0]
            if par in self.mods:
                setattr(self.mods[par], name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            name = base + ("." + name if name else "")
        m = self._resolve(name)
        if fromlist:
            for f in fromlist:
                sub = name + "." + f
                if name.startswith("rigid_body_motion") and f not in vars(m) and (sub in self.shims or os.path.exists(self.path_of(sub))):
                    setattr(m, f, self._resolve(sub))
            return m
        top = name.split(".")[0]
        if top == name:
            return m
        t = self._resolve(top)
        return t

    def _resolve(self, name):
        if name in self.shims:
            return self.shims[name]
        if name.split(".")[0] == "rigid_body_motion":
            if not os.path.exists(self.path_of(name)):
                raise ImportError(name)
            if name == "rigid_body_motion" and name not in self.mods and self.shims.get("__package_stub__", True):
                # the package itself: only loaded on request (its import needs everything)
                m = types.ModuleType(name)
                m.__path__ = [os.path.join(REPO, "rigid_body_motion")]
                m.__package__ = name
                m.__getattr__ = lambda a: self._package_attr(a)
                self.mods.setdefault("__stub__", m)
                return self.mods["__stub__"]
            return self.load(name)
        if name in self.PURE:
            return __import__(name, fromlist=["x"])
        return AnyAttr(name)

    def _package_attr(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if os.path.exists(self.path_of("rigid_body_motion." + a)):
            return self.load("rigid_body_motion." + a)
        full = self.load("rigid_body_motion")
        return getattr(full, a)


class _FuncTools(types.ModuleType):
    def __init__(self):
        super().__init__("functools")
        import functools
        self.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})
        self.reduce = _reduce


class _TypeProxy:
    """A builtin type: callable with symbolic arguments, but still usable as the type."""

    def __init__(self, t, f):
        self._t, self._native, self._f = t, t, f

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __eq__(self, o):
        return o is self or o is self._t

    def __hash__(self):
        return hash(self._t)

    def __getattr__(self, n):
        return getattr(self._t, n)

    def __mro_entries__(self, bases):
        return (self._t,)

    def __or__(self, o):
        return self

    @property
    def __name__(self):
        return self._t.__name__
