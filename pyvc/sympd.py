"""Contracts of the pandas subset used by the file import: frames with concrete column labels and symbolic values.

A file is a list of header rows of strings and one column of symbolic values per field; `read_csv` selects header rows by
their number in the file, counting blank lines as asked.  Timestamps are nanoseconds since 1970; `to_timedelta` of floats is
an uninterpreted rounding that stays within one unit of the exact product.
"""
import datetime
import types

import numpy as np
import z3

from . import terms as T
from .terms import Unsupported
from .engine import C
from . import symnp as S
from . import symxr

PROTOCOL = ("symlen", "sym_seq", "sym_subst", "attrs", "dims", "coords", "ndim", "dtype")


def stack_columns(cols, n):
    if not cols:
        raise Unsupported("a frame without columns")
    gs = [S.asarray(c).reader() for c in cols]

    def at(idx):
        i, k = idx
        if isinstance(k, int):
            return gs[k]((i,))
        r = gs[-1]((i,))
        for j in range(len(gs) - 2, -1, -1):
            r = T.ite(T.cmp("==", k, j), gs[j]((i,)), r)
        return r

    return S.SymArray((n, len(cols)), S.asarray(cols[0]).dtype, at)


def exported(a):
    """Values handed out: whether writing to them changes the frame is not part of the contract."""
    C().store.setdefault("pandas values", []).append((a.cell, a.cell.version))
    return a


def unwritten():
    for cell, v in C().store.get("pandas values", []):
        if cell.version != v:
            raise Unsupported("writing to the values of a frame")


class Str:
    def __init__(self, lab):
        self.lab = lab

    def __getattr__(self, k):
        if k not in ("lower", "upper", "strip", "replace", "title", "capitalize"):
            raise Unsupported("Index.str.%s" % k)
        if self.lab.nlevels > 1:
            raise AttributeError("Can only use .str accessor with Index, not MultiIndex")
        return lambda *a, **kw: Labels([(getattr(c[0], k)(*a, **kw),) for c in self.lab.items], self.lab.names)


class Labels:
    """Index of column labels (one level or several)."""

    def __init__(self, items, names=None):
        self.items = [c if isinstance(c, tuple) else (c,) for c in items]
        k = {len(c) for c in self.items}
        if len(k) > 1:
            raise Unsupported("labels with different numbers of levels")
        self.names = list(names) if names is not None else [None] * (k.pop() if k else 1)

    nlevels = property(lambda self: len(self.names))
    str = property(Str)

    def plain(self):
        return [c[0] if self.nlevels == 1 else c for c in self.items]

    def __iter__(self):
        return iter(self.plain())

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.plain()[k]
        if isinstance(k, slice):
            return Labels(self.items[k], self.names)
        raise Unsupported("column labels[%r]" % (k,))

    def __contains__(self, k):
        return k in self.plain()

    def level(self, level):
        if level in self.names and level is not None and not isinstance(level, int):
            return self.names.index(level)
        if isinstance(level, int) and -self.nlevels <= level < self.nlevels:
            return level % self.nlevels
        raise KeyError("Level %s not found" % (level,))

    def set_names(self, names, level=None):
        if level is not None:
            raise Unsupported("set_names of a level")
        names = [names] if isinstance(names, str) else list(names)
        if len(names) != self.nlevels:
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return Labels(self.items, names)

    def get_level_values(self, level):
        k = self.level(level)
        return Labels([(c[k],) for c in self.items], [self.names[k]])

    @property
    def levels(self):
        return [Labels(sorted({c[k] for c in self.items})) for k in range(self.nlevels)]

    def droplevel(self, level=0):
        k = self.level(level)
        return Labels([c[:k] + c[k + 1:] for c in self.items], self.names[:k] + self.names[k + 1:])

    def unique(self, level=None):
        if level is not None:
            return self.get_level_values(level).unique()
        return Labels(list(dict.fromkeys(self.items)), self.names)

    def map(self, f):
        return Labels([f(c) for c in self.plain()], self.names)

    def tolist(self):
        return self.plain()

    to_list = tolist

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("column labels: %s" % k)


class Index:
    """Row labels: an array and a name."""

    def __init__(self, arr, name=None):
        self.arr, self.name = arr, name

    @property
    def values(self):
        return exported(self.arr)

    def to_numpy(self):
        return self.values

    def __symarray__(self):
        return self.arr

    def __len__(self):
        raise Unsupported("number of rows")

    def symlen(self):
        return self.arr.shape[0]

    def rename(self, name):
        return Index(self.arr, name)

    def copy(self):
        return Index(self.arr, self.name)

    def __add__(self, o):
        if isinstance(o, Delta):
            return o + self
        raise Unsupported("row labels plus %s" % type(o).__name__)

    __radd__ = __add__

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("row labels: %s" % k)


class Stamp:
    """One point in time."""

    def __init__(self, ns):
        self.ns = ns

    def __add__(self, o):
        return o.__radd__(self) if isinstance(o, Delta) else NotImplemented

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("Timestamp.%s" % k)


class Delta:
    """Time differences along the rows."""

    def __init__(self, arr):
        self.arr = arr

    def __add__(self, o):
        g = self.arr.reader()
        if isinstance(o, Stamp):
            return Index(S.SymArray(self.arr.shape, S.DT("M", "ns"), lambda idx: T.add(o.ns, g(idx))))
        if isinstance(o, Index) and o.arr.dtype.kind == "M" and S.dims_equal(o.arr.shape[0], self.arr.shape[0]):
            f, s = o.arr.reader(), S.unit_ns(o.arr.dtype.unit)
            return Index(S.SymArray(self.arr.shape, S.DT("M", "ns"), lambda idx: T.add(T.mul(f(idx), s), g(idx))), o.name)
        return NotImplemented

    __radd__ = __add__

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("TimedeltaIndex.%s" % k)


class Row:
    """Frame.groupby: the parts by the values of one level of the columns, in sorted order."""

    def __init__(self, frame, level):
        self.frame, self.k = frame, frame.columns.level(level)

    def __iter__(self):
        for v in sorted({c[self.k] for c in self.frame._cols.items}):
            yield v, self.frame._pick([i for i, c in enumerate(self.frame._cols.items) if c[self.k] == v])

    @property
    def groups(self):
        return {v: f.columns for v, f in self}

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("groupby.%s" % k)


class Loc:
    def __init__(self, f, byname):
        self.f, self.byname = f, byname

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None)):
            raise Unsupported("rows of a frame")
        k = k[1]
        if self.byname:
            if isinstance(k, str) or isinstance(k, tuple):
                return self.f[k]
            if isinstance(k, list):
                return self.f[k]
        elif isinstance(k, int):
            return Column(self.f._data[k], self.f._index, self.f._cols.plain()[k])
        elif isinstance(k, (slice, list)):
            ids = list(range(len(self.f._data)))
            return self.f._pick(ids[k] if isinstance(k, slice) else [ids[i] for i in k])
        raise Unsupported("loc[:, %r]" % (k,))


class Column:
    """Series."""

    def __init__(self, arr, index, name=None):
        self.arr, self.index, self.name = arr, index, name

    @property
    def values(self):
        unwritten()
        return exported(self.arr.copy())

    def to_numpy(self):
        return self.values

    def __symarray__(self):
        unwritten()
        return self.arr

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        raise Unsupported("Series.%s" % k)


class Frame:
    """DataFrame: columns of symbolic values under concrete labels."""

    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, data=None, index=None, columns=None, **kw):
        if kw or columns is None or not isinstance(index, Index):
            raise Unsupported("DataFrame(%s)" % ", ".join(sorted(kw)))
        if isinstance(data, Frame):
            raise Unsupported("DataFrame of a DataFrame")
        a = S.asarray(data)
        cols = columns if isinstance(columns, Labels) else Labels(list(columns))
        if a.ndim != 2:
            raise ValueError("Must pass 2-d input")
        if not isinstance(a.shape[1], int):
            raise Unsupported("number of columns")
        if a.shape[1] != len(cols):
            raise ValueError("Shape of passed values does not match the columns")
        symxr._require_size("index", "rows", index.arr.shape[0], a.shape[0], {})
        self._set([a[:, i].copy() for i in range(len(cols))], index, cols)

    def _set(self, data, index, cols):
        unwritten()
        d = self.__dict__
        d["_data"], d["_index"], d["_cols"] = list(data), index, cols
        return self

    @classmethod
    def _make(cls, data, index, cols):
        return cls.__new__(cls)._set(data, index, cols)

    def _pick(self, ids, cols=None):
        return Frame._make([self._data[i] for i in ids], self._index, cols or Labels([self._cols.items[i] for i in ids], self._cols.names))

    # -- structure
    @property
    def columns(self):
        return self._cols

    @property
    def index(self):
        return self._index

    @property
    def shape(self):
        return (self._index.arr.shape[0], len(self._data))

    @property
    def values(self):
        return exported(self.__symarray__())

    def to_numpy(self):
        return self.values

    def __symarray__(self):
        unwritten()
        return stack_columns(self._data, self.shape[0])

    def symlen(self):
        return self.shape[0]

    def __setattr__(self, k, v):
        if k == "columns":
            v = v if isinstance(v, Labels) else Labels(list(v))
            if len(v) != len(self._cols):
                raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._cols), len(v)))
            self.__dict__["_cols"] = v
        elif k == "index" and isinstance(v, (Index, S.SymArray)):
            self.__dict__["_index"] = self.set_index(v)._index
        else:
            raise Unsupported("setting DataFrame.%s" % k)

    iloc = property(lambda self: Loc(self, False))
    loc = property(lambda self: Loc(self, True))

    def _under(self, k):
        key = k if isinstance(k, tuple) else (k,)
        if not isinstance(k, (str, tuple)):
            raise Unsupported("DataFrame[%s]" % type(k).__name__)
        return key, [i for i, c in enumerate(self._cols.items) if c[:len(key)] == key]

    def __getitem__(self, k):
        if isinstance(k, list) and all(isinstance(x, (str, tuple)) for x in k):
            ids = [i for x in k for i in self._under(x)[1]]
            if any(not self._under(x)[1] for x in k):
                raise KeyError(k)
            return self._pick(ids)
        key, ids = self._under(k)
        if not ids:
            raise KeyError(k)
        m = len(key)
        if m == self._cols.nlevels:
            if len(ids) > 1:
                raise Unsupported("columns with the same label")
            return Column(self._data[ids[0]], self._index, k)
        return self._pick(ids, Labels([self._cols.items[i][m:] for i in ids], self._cols.names[m:]))

    def __setitem__(self, k, v):
        key, ids = self._under(k)
        if not ids or self._cols.nlevels != len(key) + 1 or not isinstance(v, Frame) or v._index.arr is not self._index.arr:
            raise Unsupported("setting these columns of a frame")
        rest = [self._cols.items[i][len(key):] for i in ids]
        if len(set(rest)) != len(rest) or len(set(v._cols.items)) != len(v._cols.items) or not set(rest) <= set(v._cols.items):
            raise Unsupported("setting columns with other labels")
        new = list(self._data)
        for i, r in zip(ids, rest):
            new[i] = v._data[v._cols.items.index(r)]
        self._set(new, self._index, self._cols)

    def __contains__(self, k):
        return bool(self._under(k)[1])

    def __iter__(self):
        return iter(self._cols)

    def __getattr__(self, k):
        if k.startswith("_") or k in PROTOCOL:
            raise AttributeError(k)
        if self._under(k)[1]:
            return self[k]
        raise Unsupported("DataFrame.%s" % k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    # -- operations
    def set_index(self, keys, **kw):
        if kw or not isinstance(keys, (Index, S.SymArray)):
            raise Unsupported("set_index of columns")
        ix = keys if isinstance(keys, Index) else Index(keys)
        symxr._require_size("index", "rows", self.shape[0], ix.arr.shape[0], {})
        return Frame._make(self._data, ix, self._cols)

    def rename_axis(self, mapper=None, axis=0, **kw):
        if kw.keys() - {"index", "columns"}:
            raise Unsupported("rename_axis")
        r = self
        if "index" in kw or (not kw and axis in (0, "index")):
            r = Frame._make(r._data, r._index.rename(kw.get("index", mapper)), r._cols)
        if "columns" in kw or (not kw and axis in (1, "columns")):
            r = Frame._make(r._data, r._index, r._cols.set_names(kw.get("columns", mapper)))
        return r

    def rename(self, mapper=None, columns=None, axis=None, **kw):
        if axis in (1, "columns"):
            columns = mapper
        if kw or columns is None or self._cols.nlevels > 1:
            raise Unsupported("rename")
        f = columns if callable(columns) else lambda c: columns.get(c, c)
        return Frame._make(self._data, self._index, self._cols.map(f))

    def set_axis(self, labels, axis=0, **kw):
        if axis in (0, "index"):
            return self.set_index(labels)
        r = self.copy()
        r.columns = labels
        return r

    def groupby(self, by=None, axis=0, level=None, **kw):
        if axis not in (1, "columns") or by is not None or level is None or kw:
            raise Unsupported("groupby")
        return Row(self, level)

    def xs(self, key, axis=0, level=None, drop_level=True):
        if axis not in (1, "columns"):
            raise Unsupported("xs of rows")
        k = self._cols.level(0 if level is None else level)
        ids = [i for i, c in enumerate(self._cols.items) if c[k] == key]
        if not ids:
            raise KeyError(key)
        sub = self._pick(ids)
        return Frame._make(sub._data, self._index, sub._cols.droplevel(k)) if drop_level else sub

    def droplevel(self, level, axis=0):
        if axis not in (1, "columns"):
            raise Unsupported("droplevel of rows")
        return Frame._make(self._data, self._index, self._cols.droplevel(level))

    def copy(self, deep=True):
        return Frame._make(self._data, self._index, self._cols)

    def _arith(self, o, op, swap=False):
        if isinstance(o, (Frame, Column, S.SymArray, Index)) and getattr(o, "ndim", 1):
            raise Unsupported("arithmetic of frames")
        o = S.asarray(o)
        return Frame._make([S.binop(op, *((o, c) if swap else (c, o))) for c in self._data], self._index, self._cols)

    def __truediv__(self, o):
        return self._arith(o, "/")

    def __mul__(self, o):
        return self._arith(o, "*")

    def __rmul__(self, o):
        return self._arith(o, "*", True)

    def __add__(self, o):
        return self._arith(o, "+")

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, "-")

    def __neg__(self):
        return self._arith(-1, "*")

    div = divide = truediv = __truediv__
    mul = multiply = __mul__

    def __hash__(self):
        return id(self)


def concat(objs, axis=0, keys=None, names=None, **kw):
    if kw or names is not None or axis not in (1, "columns"):
        raise Unsupported("concat")
    if hasattr(objs, "items"):
        objs, keys = list(objs.values()), list(objs.keys())
    objs = list(objs)
    if not all(isinstance(f, Frame) for f in objs) or any(f._index.arr is not objs[0]._index.arr for f in objs):
        raise Unsupported("concat of frames with other row labels")
    nl = {f._cols.nlevels for f in objs}
    if len(nl) > 1:
        raise Unsupported("concat of frames with different levels")
    items, data = [], []
    for i, f in enumerate(objs):
        pre = () if keys is None else (keys[i] if isinstance(keys[i], tuple) else (keys[i],))
        items += [pre + c for c in f._cols.items]
        data += f._data
    same = all(f._cols.names == objs[0]._cols.names for f in objs)
    tail = objs[0]._cols.names if same else [None] * nl.pop()
    return Frame._make(data, objs[0]._index, Labels(items, [None] * (len(items[0]) - len(tail)) + list(tail)))


def to_datetime(x, format=None, **kw):
    if not isinstance(x, str) or kw:
        raise Unsupported("to_datetime")
    if format is None:
        raise Unsupported("to_datetime without a format")
    t = datetime.datetime.strptime(x, format) - datetime.datetime(1970, 1, 1)
    return Stamp((t.days * 86400 + t.seconds) * 10**9 + t.microseconds * 1000)


UNITS = {"s": "s", "sec": "s", "second": "s", "seconds": "s", "S": "s", "ms": "ms", "us": "us", "ns": "ns", "m": "m", "min": "m", "h": "h", "D": "D",
         "milliseconds": "ms", "microseconds": "us"}


def to_timedelta(x, unit=None, **kw):
    if kw or (unit or "ns") not in UNITS:
        raise Unsupported("to_timedelta")
    u = UNITS[unit or "ns"]
    a = S.asarray(x)
    if a.ndim != 1 or a.dtype.kind not in "if":
        raise Unsupported("to_timedelta")
    ns = S.unit_ns(u)
    f, g = T.fn("to_timedelta_" + u, T.RS, T.IS), a.reader()

    def at(idx):
        t = T.zreal(g(idx))
        C().facts.append(z3.And(f(t) - ns * t <= 1, ns * t - f(t) <= 1))
        return f(t)

    return Delta(S.SymArray(a.shape, S.DT("m", "ns"), at))


class CsvFile:
    """A file: header rows (None is a line without any character) and one column of values per field."""

    def __init__(self, path, head, columns, n):
        self.path, self.head, self.columns, self.n = path, head, columns, n

    def read_csv(self, path, **kw):
        if path is not self.path:
            raise FileNotFoundError(path)
        keep = kw.pop("skip_blank_lines", True)
        lines = [r for r in self.head if r is not None or not keep]
        if kw == {"nrows": 1, "header": None}:
            row = lines[0] + [float("nan")] * (len(self.columns) - len(lines[0]))
            cells = np.empty((1, len(row)), object)
            cells[0] = [_number(v) for v in row]
            r = types.SimpleNamespace(values=cells, to_numpy=lambda: cells, iloc=cells)
            return r
        if set(kw) - {"index_col"} == {"header"} and kw.get("index_col", None) == 0 and isinstance(kw["header"], (list, tuple)):
            h = list(kw["header"])
            if h != sorted(h) or any(not isinstance(k, int) or k < 0 or k >= len(lines) for k in h) or any(lines[k] is None for k in h):
                raise Unsupported("header rows %s" % h)
            if h[-1] != len(lines) - 1:
                raise Unsupported("header rows among the values")
            cols = [tuple(lines[k][c] or "Unnamed: %d_level_%d" % (c, j) for j, k in enumerate(h)) for c in range(len(self.columns))]
            ix = Index(self.columns[0])
            return Frame._make(self.columns[1:], ix, Labels(cols[1:], [None] * (len(h) - 1) + [cols[0][-1]]))
        raise Unsupported("read_csv(%s)" % ", ".join(sorted(kw)))


def _number(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return v


def xr_dataarray(data=None, coords=None, dims=None, name=None, attrs=None):
    """xarray takes the row and column labels of a frame as coordinates."""
    if not isinstance(data, Frame):
        return symxr.DataArray(data, coords, dims, name, attrs)
    if coords is not None or data._cols.nlevels > 1:
        raise Unsupported("DataArray of a frame")
    dims = tuple(dims) if dims is not None else (data.index.name or "dim_0", data.columns.names[0] or "dim_1")
    if len(dims) != 2:
        raise ValueError("different number of dimensions on data and dims: 2 vs %d" % len(dims))
    return symxr.DataArray(data.__symarray__(), {dims[0]: data.index.arr, dims[1]: S.asarray(data.columns.plain())}, dims, name, attrs)


def xr_merge(objects, **kw):
    objects = list(objects)
    if kw or not all(isinstance(a, symxr.DataArray) and a.name for a in objects):
        raise Unsupported("merge")
    seen = {}
    for a in objects:
        for k, (d, c, _) in a._coords.items():
            if k in seen and seen[k] is not c:
                raise Unsupported("merge of different coordinates")
            seen[k] = c
    return symxr.Dataset({a.name: a for a in objects})


def modules(world):
    pd, xr = types.ModuleType("pandas"), types.ModuleType("xarray")
    pd.read_csv, pd.to_datetime, pd.to_timedelta, pd.DataFrame, pd.concat = world.read_csv, to_datetime, to_timedelta, Frame, concat
    xr.DataArray, xr.Dataset, xr.merge = xr_dataarray, symxr.Dataset, xr_merge
    return {"pandas": pd, "xarray": xr}
