"""Contracts of the xarray subset used by the verified code (DataArray, Dataset)."""
import types

import z3

from . import terms as T
from .terms import Unsupported
from .engine import C, SInt
from . import symnp as S
from . import symquat as Q


def sdata(x):
    """The array behind an object."""
    if isinstance(x, DataArray):
        return x._data
    return S.asarray(x)


def as_time(a):
    """Reader of a coordinate as real numbers (datetimes in nanoseconds)."""
    g = a.reader()
    if a.dtype.kind == "M":
        s = S.unit_ns(a.dtype.unit)
        return lambda k: T.zreal(T.mul(g((k,)), s))
    return lambda k: T.zreal(g((k,)))


def nearest(xs, n, t):
    """Index of the sample nearest to t (spec function of the column xs)."""
    tid = Q.column_token("nearest", lambda k: [xs(k)], n)
    i = T.fn(tid, T.RS, T.IS)(T.zreal(t))
    ctx = C()
    ctx.facts.append(z3.Implies(T.zbool(T.cmp(">", S.dz(n), 0)), z3.And(i >= 0, i < S.dz(n))))
    return i


class Coords:
    """da.coords: a mapping of names to DataArrays."""

    def __init__(self, owner):
        self._o = owner

    def keys(self):
        return list(self._o._coords)

    def __iter__(self):
        return iter(list(self._o._coords))

    def __len__(self):
        return len(self._o._coords)

    symlen = __len__

    def __contains__(self, k):
        return k in self._o._coords

    def __getitem__(self, k):
        d, a, at = self._o._coords[k]
        sub = {c: v for c, v in self._o._coords.items() if set(v[0]) <= set(d)}
        return DataArray._make(a, d, sub, k, at)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __setitem__(self, k, v):
        self._o._touch("coordinate %s" % k)
        self._o._coords[k] = _coord(k, v, self._o.sizes)

    def __delitem__(self, k):
        self._o._touch("coordinate %s" % k)
        del self._o._coords[k]

    def update(self, other):
        for k in other:
            self[k] = other[k]

    def to_dataset(self):
        raise Unsupported("coords.to_dataset")


def _require_size(name, d, have, got, sizes):
    if S.same_dim(have, got):
        return
    if not C().branch(T.cmp("==", S.dz(have), S.dz(got))):
        raise ValueError("conflicting sizes for dimension %r on coordinate %r" % (d, name))


def _coord(k, v, sizes):
    """(dims, array, attrs) of a coordinate given to a constructor."""
    at = {}
    if isinstance(v, DataArray):
        d, a, at = v._dims, v._data, dict(v.attrs)
    elif isinstance(v, tuple) and len(v) in (2, 3):
        d, a = v[0], S.asarray(v[1])
        d = (d,) if isinstance(d, str) else tuple(d)
        at = dict(v[2]) if len(v) == 3 else {}
    else:
        a = S.asarray(v)
        d = () if a.ndim == 0 else (k,)
        if a.ndim > 1:
            raise ValueError("coordinate %s has more than one dimension" % k)
    if len(d) != a.ndim:
        raise ValueError("dimensions %s must have the same length as the number of data dimensions" % (d,))
    if k in sizes and d != (k,):
        raise ValueError("coordinate %s has dimensions %s, but these are not a subset of the DataArray dimensions" % (k, d))
    for x, n in zip(d, a.shape):
        if x not in sizes:
            raise ValueError("coordinate %s has dimensions %s, but these are not a subset of the DataArray dimensions" % (k, d))
        _require_size(k, x, sizes[x], n, sizes)
    return d, a, at


class DataArray:
    _sym_xr = True
    __hash__ = object.__hash__
    __array_priority__ = 2000

    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None, **kw):
        if kw:
            raise Unsupported("DataArray arguments %s" % list(kw))
        src = data
        data = sdata(data)
        if isinstance(src, DataArray) and (dims is None or coords is None):
            raise Unsupported("DataArray of a DataArray")
        if dims is None:
            if coords is None:
                dims = tuple("dim_%d" % i for i in range(data.ndim))
            else:
                raise ValueError("inferring DataArray dimensions from dictionary like coords is no longer supported")
        dims = (dims,) if isinstance(dims, str) else tuple(dims)
        if len(dims) != data.ndim:
            raise ValueError("different number of dimensions on data and dims: %d vs %d" % (data.ndim, len(dims)))
        if len(set(dims)) != len(dims):
            raise ValueError("duplicate dimensions %s" % (dims,))
        self._data, self._dims, self.name = data, dims, name
        self.attrs = Attrs(attrs or {})
        self._frozen = None
        self._coords = {}
        sizes = self.sizes
        src = coords or {}
        for k in (src.keys() if hasattr(src, "keys") else _bad_coords(src)):
            self._coords[k] = _coord(k, src[k], sizes)

    @classmethod
    def _make(cls, data, dims, coords, name=None, attrs=None):
        r = cls.__new__(cls)
        r._data, r._dims, r._coords, r.name = data, tuple(dims), dict(coords), name
        r.attrs = Attrs(attrs or {})
        r._frozen = None
        return r

    def _touch(self, what):
        if self._frozen:
            C().fail("frame: %s is not modified" % self._frozen, what)

    def freeze(self, name):
        """Mark as an argument: any modification is an obligation failure."""
        self._frozen = name
        self.attrs._frozen = name
        return self

    def __setattr__(self, k, v):
        if k in ("name", "attrs") and self.__dict__.get("_frozen"):
            self._touch(k)
        object.__setattr__(self, k, v)

    # -- structure
    def __symarray__(self):
        return self._data

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        self.values = v

    @property
    def values(self):
        return self._data

    @values.setter
    def values(self, v):
        self._touch("values")
        v = sdata(v)
        if v.ndim != self._data.ndim:
            raise ValueError("replacement data must match the Variable's shape")
        for a, b in zip(v.shape, self._data.shape):
            if not S.same_dim(a, b) and not C().branch(T.cmp("==", S.dz(a), S.dz(b))):
                raise ValueError("replacement data must match the Variable's shape")
        object.__setattr__(self, "_data", v)

    def to_numpy(self):
        return self._data

    @property
    def dims(self):
        return self._dims

    @property
    def sizes(self):
        return dict(zip(self._dims, self._data.shape))

    ndim = property(lambda self: self._data.ndim)
    shape = property(lambda self: self._data.shape)
    dtype = property(lambda self: self._data.dtype)
    size = property(lambda self: self._data.size)
    coords = property(lambda self: Coords(self))

    def get_axis_num(self, d):
        if d not in self._dims:
            raise ValueError("%r not found in array dimensions %r" % (d, self._dims))
        return self._dims.index(d)

    def symlen(self):
        return self._data.symlen()

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __bool__(self):
        return bool(self._data)

    def copy(self, deep=True, data=None):
        d = self._data.copy() if deep else self._data
        r = DataArray._make(d if data is None else sdata(data), self._dims,
                            {k: (v[0], v[1].copy() if deep else v[1], dict(v[2])) for k, v in self._coords.items()}, self.name, dict(self.attrs))
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _same(self, data):
        return DataArray._make(data, self._dims, self._coords, self.name)

    def astype(self, *a, **k):
        return self._same(self._data.astype(*a, **k))

    def _operand(self, o):
        if isinstance(o, DataArray):
            if o is self or (o._data.cell is self._data.cell and o._dims == self._dims):
                return o._data
            raise Unsupported("arithmetic between different DataArrays")
        return o

    def _bin(self, o, name):
        o = self._operand(o)
        if not isinstance(o, S.SymArray):
            o = S.operand(o)
            if o is NotImplemented:
                return NotImplemented
        r = getattr(self._data, name)(o)
        if r.ndim != self.ndim:
            raise ValueError("arithmetic with an array of other dimensions")
        return self._same(r)

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self._coords:
                return self.coords[key]
            if key in self._dims:
                n = self.sizes[key]
                return DataArray._make(S.SymArray((n,), "i", lambda i: i[0]), (key,), {}, key)
            raise KeyError(key)
        if isinstance(key, dict):
            raise Unsupported("dict indexing of a DataArray")
        if isinstance(key, DataArray):
            key = key._data
        r = self._data[key]
        if r.ndim == self.ndim:
            return DataArray._make(r, self._dims, {}, self.name, dict(self.attrs))
        k0 = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if isinstance(k0, (int, SInt)) and r.ndim == self.ndim - 1:
            return DataArray._make(r, self._dims[1:], {}, self.name, dict(self.attrs))
        raise Unsupported("indexing of a DataArray")

    def __setitem__(self, key, v):
        self._touch("data")
        if isinstance(key, str):
            raise Unsupported("item assignment of a DataArray")
        self._data[key] = sdata(v)

    # -- selection
    def _indexer(self, coords, kw):
        c = dict(coords or {})
        c.update(kw)
        if len(c) != 1:
            raise Unsupported("selection along several dimensions")
        (d, t), = c.items()
        if d not in self._dims:
            raise KeyError(d)
        if d not in self._coords:
            raise Unsupported("selection along a dimension without coordinate")
        return d, sdata(t)

    def interp(self, coords=None, method="linear", **kw):
        d, t = self._indexer(coords, kw)
        if method != "linear":
            raise Unsupported("interp method")
        if t.ndim != 1:
            raise Unsupported("interp at multi-dimensional positions")
        if self._data.dtype.kind not in "fi":
            raise TypeError("interp only works for a numeric type array")
        C().assumption("xarray interp: linear interpolation of numeric coordinates along the dimension (values inside the sampled range)")
        x = self._coords[d][1]
        xs, to = as_time(x), as_time(t)
        ax = self._dims.index(d)
        g = self._data.reader()
        n = self._data.shape[ax]
        at = lambda i: Q.spec_lerp(xs, lambda k: T.zreal(g(i[:ax] + (k,) + i[ax + 1:])), n, to(i[ax]))
        r = S.SymArray(self._data.shape[:ax] + t.shape + self._data.shape[ax + 1:], "f", at)
        co = {k: v for k, v in self._coords.items() if d not in v[0]}
        co[d] = ((d,), t, {})
        return DataArray._make(r, self._dims, co, self.name, dict(self.attrs))

    def sel(self, indexers=None, method=None, **kw):
        d, t = self._indexer(indexers, kw)
        if method != "nearest" or t.ndim != 1:
            raise Unsupported("sel")
        C().assumption("xarray sel(method='nearest'): the entry at the nearest label")
        x = self._coords[d][1]
        xs, to = as_time(x), as_time(t)
        n = x.shape[0]
        pick = lambda k: nearest(xs, n, to(k))

        def take(dims, a):
            if d not in dims:
                return a
            ax = dims.index(d)
            g = a.reader()
            return S.SymArray(a.shape[:ax] + t.shape + a.shape[ax + 1:], a.dtype, lambda i: g(i[:ax] + (pick(i[ax]),) + i[ax + 1:]))
        return DataArray._make(take(self._dims, self._data), self._dims,
                               {k: (v[0], take(v[0], v[1]), v[2]) for k, v in self._coords.items()}, self.name, dict(self.attrs))

    def isel(self, indexers=None, **kw):
        raise Unsupported("isel")

    def transpose(self, *dims):
        if not dims:
            dims = self._dims[::-1]
        if set(dims) != set(self._dims):
            raise ValueError("transpose dimensions")
        return DataArray._make(S.transpose(self._data, tuple(self._dims.index(d) for d in dims)), dims, self._coords, self.name, dict(self.attrs))

    @property
    def T(self):
        return self.transpose()

    def rename(self, x):
        if not isinstance(x, dict):
            r = self.copy(deep=False)
            r.name = x
            return r
        f = lambda k: x.get(k, k)
        return DataArray._make(self._data, tuple(map(f, self._dims)), {f(k): (tuple(map(f, v[0])), v[1], v[2]) for k, v in self._coords.items()},
                               self.name, dict(self.attrs))

    def assign_coords(self, coords=None, **kw):
        r = self.copy(deep=False)
        c = dict(coords or {})
        c.update(kw)
        for k in c:
            r.coords[k] = c[k]
        return r

    def drop_vars(self, names):
        names = [names] if isinstance(names, str) else list(names)
        return DataArray._make(self._data, self._dims, {k: v for k, v in self._coords.items() if k not in names}, self.name, dict(self.attrs))

    def equals(self, o):
        raise Unsupported("DataArray.equals")

    def __getattr__(self, k):
        if k.startswith("_") or k in ("data_vars", "to_array"):
            raise AttributeError(k)
        if k in self.__dict__.get("_coords", {}):
            return self.coords[k]
        if k in self.__dict__.get("_dims", ()):
            return self[k]
        raise Unsupported("DataArray.%s" % k)


def _bad_coords(src):
    raise Unsupported("coordinates that are not a mapping")


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"):
    def _mk(nm):
        return lambda self, o: self._bin(o, nm)
    setattr(DataArray, "__%s__" % _n, _mk("__%s__" % _n))
DataArray.__neg__ = lambda self: self._same(-self._data)
DataArray.__invert__ = lambda self: self._same(~self._data)
for _n in ("min", "max", "sum", "mean", "any", "all"):
    def _mk2(nm):
        def f(self, *a, **k):
            if a or k:
                raise Unsupported("DataArray.%s with arguments" % nm)
            return DataArray._make(getattr(self._data, nm)(), (), {}, self.name)
        return f
    setattr(DataArray, _n, _mk2(_n))


class Attrs(dict):
    """Attributes; modification of a frozen object's attributes is reported."""

    _frozen = None

    def _t(self):
        if self._frozen:
            C().fail("frame: %s is not modified" % self._frozen, "attributes")

    def __setitem__(self, k, v):
        self._t()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._t()
        dict.__delitem__(self, k)

    def update(self, *a, **k):
        self._t()
        dict.update(self, *a, **k)

    def pop(self, *a):
        self._t()
        return dict.pop(self, *a)

    def setdefault(self, k, v=None):
        if k not in self:
            self._t()
        return dict.setdefault(self, k, v)

    def clear(self):
        self._t()
        dict.clear(self)

    def copy(self):
        return Attrs(self)


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.__dict__["_vars"] = {}
        self.__dict__["_coords"] = {}
        self.__dict__["attrs"] = Attrs(attrs or {})
        sizes = {}
        co, items = {}, {}
        for k, v in (coords or {}).items():
            if isinstance(v, tuple):
                d, a = v[0], S.asarray(v[1])
            elif isinstance(v, DataArray):
                d, a = v._dims, v._data
            else:
                a = S.asarray(v)
                d = (k,) if a.ndim else ()
            items[k] = ((d,) if isinstance(d, str) else tuple(d), a, True)
        for k, v in (data_vars or {}).items():
            if isinstance(v, DataArray):
                d, a = v._dims, v._data
                for c, x in v._coords.items():
                    items.setdefault(c, (x[0], x[1], True))
            elif isinstance(v, tuple):
                d, a = v[0], S.asarray(v[1])
            else:
                a = S.asarray(v)
                d = (k,) if a.ndim else ()
            items[k] = ((d,) if isinstance(d, str) else tuple(d), a, False)
        for k, (d, a, isc) in items.items():
            if len(d) != a.ndim:
                raise ValueError("dimensions %s of %s must have the same length as the number of data dimensions, ndim=%d" % (d, k, a.ndim))
            for x, n in zip(d, a.shape):
                if x in sizes:
                    _require_size(k, x, sizes[x], n, sizes)
                else:
                    sizes[x] = n
            if isc:
                co[k] = (d, a, {})
        self.__dict__["_coords"] = co
        self.__dict__["sizes"] = sizes
        for k, (d, a, isc) in items.items():
            if not isc:
                self._vars[k] = DataArray._make(a, d, {c: x for c, x in co.items() if set(x[0]) <= set(d)}, k)

    @property
    def coords(self):
        return Coords(self)

    @property
    def data_vars(self):
        return self._vars

    @property
    def dims(self):
        return self.sizes

    def to_array(self, *a):
        raise Unsupported("Dataset.to_array")

    def _touch(self, what):
        pass

    def __contains__(self, k):
        return k in self._vars or k in self._coords

    def __iter__(self):
        return iter(self._vars)

    def __getitem__(self, k):
        if k in self._vars:
            return self._vars[k]
        if k in self._coords:
            return self.coords[k]
        if k in self.sizes:
            return DataArray._make(S.SymArray((self.sizes[k],), "i", lambda i: i[0]), (k,), {}, k)
        raise KeyError(k)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._vars or k in self._coords:
            return self[k]
        if k in ("name", "values"):
            raise AttributeError(k)
        raise Unsupported("Dataset.%s" % k)

    def __setitem__(self, k, v):
        raise Unsupported("Dataset item assignment")


def either_dict_or_kwargs(pos_kwargs, kw_kwargs, func_name):
    if pos_kwargs is None or pos_kwargs == {}:
        return kw_kwargs
    if not isinstance(pos_kwargs, dict):
        raise ValueError("the first argument to .%s must be a dictionary" % func_name)
    if kw_kwargs:
        raise ValueError("cannot specify both keyword and positional arguments to .%s" % func_name)
    return pos_kwargs


def register_dataarray_accessor(name):
    def deco(cls):
        setattr(DataArray, name, property(lambda self: cls(self)))
        return cls
    return deco


class _Mod(types.ModuleType):
    def __init__(self, name, **attrs):
        super().__init__(name)
        self.__dict__.update(attrs)
        self.__dict__["__path__"] = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return T.Opaque("%s.%s" % (self.__name__, k))


utils = _Mod("xarray.core.utils", either_dict_or_kwargs=either_dict_or_kwargs)
core = _Mod("xarray.core", utils=utils)
xarray = _Mod("xarray", DataArray=DataArray, Dataset=Dataset, register_dataarray_accessor=register_dataarray_accessor, core=core)
SHIMS = {"xarray": xarray, "xarray.core": core, "xarray.core.utils": utils}
