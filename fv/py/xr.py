"""Contracts of the parts of xarray the package uses (trusted): labelled arrays over symbolic data.  Anything else is Unsupported."""
from .values import *                                       # noqa
from . import values as V
from .values import S as PS
from .shim import Mod, Dummy, diff


class Coords:
    """the coordinates of an object: name -> labelled array"""

    def __init__(self, d):
        self.d = d                      # name -> (dims, Arr)

    def __contains__(self, n):
        return n in self.d

    def __getitem__(self, n):
        if n not in self.d:
            raise KeyError(n)
        dims, a = self.d[n]
        return DataArray(a, {m: c for m, c in self.d.items() if set(c[0]) <= set(dims)}, dims, n)

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def keys(self):
        return list(self.d)

    def items(self):
        return [(n, self[n]) for n in self.d]

    def values(self):
        return [self[n] for n in self.d]


def coordinates(coords, dims):
    out = {}
    if isinstance(coords, Coords):
        return dict(coords.d)
    for n, c in (coords or {}).items():
        if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple) and isinstance(c[1], Arr):
            out[n] = c
        elif isinstance(c, tuple):
            d = c[0] if isinstance(c[0], (tuple, list)) else (c[0],)
            out[n] = (tuple(d), toarr(c[1]).snapshot())
        elif isinstance(c, DataArray):
            # the labels of an array that itself has another dimension name
            out[n] = (c.dims if len(c.dims) != 1 or c.dims[0] == n else (n,), c.data.snapshot())
            if len(c.dims) == 1 and c.dims[0] != n:
                raise ValueError('conflicting dimension of coordinate %s' % n)
        else:
            a = toarr(c)
            out[n] = ((n,) if a.ndim == 1 else (), a.snapshot())
    return out


def unknown(o, n):
    if n.startswith('__'):
        raise AttributeError(n)
    raise Unsupported('xarray: %s.%s' % (type(o).__name__, n))


def candidates(t, l, v):
    """values of v at which t could be l: the atoms of t that mention v against those of l"""
    va = atom_of(v)

    def pairs(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            if va not in x.fv:
                return
            for k in (1, -1):
                off = x - k * v
                if va not in off.fv:
                    yield k * (y - off)
                    return
            for a in x.atomset:
                if va in a.fv:
                    for b in y.atomset:
                        if a.kind == b.kind and len(a.args) == len(b.args):
                            yield from pairs(a, b)
        elif not isinstance(x, (str, bool, int)) and hasattr(x, 'args') and x.kind != 'var':
            for p, q in zip(x.args, y.args):
                if isinstance(p, Poly) and isinstance(q, Poly) and va in p.fv:
                    yield from pairs(p, q)
    seen = []
    for c in pairs(t, l):
        if c.isint and c not in seen:
            seen.append(c)
            yield c


def position(c, label):
    """contract of a lookup by label: the index at which the (unique) labels have this value"""
    v = fresh('ps')
    t, l = c.elem([v]), term(label)
    for p in candidates(t, l, v):
        if subst(t, {atom_of(v): p}) == l or PS.ctx.decide(cmp_eq(subst(t, {atom_of(v): p}), l)) is True:
            return p
    raise Unsupported('xarray: position of a label')


class DataArray:
    def __init__(self, data=None, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, DataArray):
            coords, dims, name, data = coords or data._c, dims or data.dims, name or data.name, data.data
        self._a = toarr(data)
        if dims is None:
            if self._a.ndim == 0:
                dims = ()
            else:
                raise Unsupported('xarray: array without dimension names')
        self.dims = (dims,) if isinstance(dims, str) else tuple(dims)
        if len(self.dims) != self._a.ndim:
            raise ValueError('different number of dimensions on data and dims: %d vs %d' % (self._a.ndim, len(self.dims)))
        self._c = coordinates(coords, self.dims)
        for n, (d, a) in self._c.items():
            if not set(d) <= set(self.dims):
                raise ValueError('coordinate %s has dimensions %s, but these are not a subset of the DataArray dimensions' % (n, d))
            for x, m in zip(d, a._shape):
                if not same_extent(m, self._a._shape[self.dims.index(x)]):
                    raise ValueError('conflicting sizes for dimension %r' % x)
        self.name, self.attrs = name, dict(attrs or {})

    def __getattr__(self, n):
        unknown(self, n)

    data = property(lambda s: s._a)
    values = property(lambda s: s._a if s._a.ndim else mknum(s._a.elem([])))
    shape = property(lambda s: s._a.shape)
    size = property(lambda s: s._a.size)
    ndim = property(lambda s: s._a.ndim)
    dtype = property(lambda s: s._a.dtype)
    coords = property(lambda s: Coords(s._c))
    sizes = property(lambda s: dict(zip(s.dims, s._a.shape)))

    def to_numpy(self):
        return self.values

    def item(self):
        return mknum(self._a.elem([]))

    def __len__(self):
        return len(self._a)

    def __float__(self):
        raise Unsupported('float of a labelled array')

    def __bool__(self):
        return bool(self._a)

    def new(self, a, dims, c, name=None):
        return DataArray(a, {n: v for n, v in c.items() if set(v[0]) <= set(dims)}, dims, name)

    def rename(self, n):
        if not isinstance(n, str) and n is not None:
            raise Unsupported('xarray: rename of dimensions')
        r = DataArray(self._a, self._c, self.dims, n, self.attrs)
        return r

    def copy(self, deep=True):
        return DataArray(self._a.copy() if deep else self._a, self._c, self.dims, self.name, self.attrs)

    def isel(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        key = tuple(plain(ix.get(d, slice(None))) for d in self.dims)
        for d in ix:
            if d not in self.dims:
                raise ValueError('Dimensions {%r} do not exist' % d)
        dims = tuple(d for d, k in zip(self.dims, key) if not isnum(k))
        c = {}
        for n, (cd, a) in self._c.items():
            k = tuple(key[self.dims.index(d)] for d in cd)
            b = a[k] if k else a
            c[n] = (tuple(d for d, q in zip(cd, k) if not isnum(q)), toarr(b).snapshot())
        return self.new(toarr(self._a[key]) if key else self._a, dims, {n: v for n, v in c.items()}, self.name)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k in self._c:
                return Coords(self._c)[k]
            if k in self.dims:
                n = self._a._shape[self.dims.index(k)]
                return DataArray(Arr.of((n,), lambda ix: ix[0], isint=True), None, (k,), k)
            raise KeyError(k)
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis or x is None for x in k):
            raise Unsupported('xarray: index')
        return self.isel(dict(zip(self.dims, k)))

    def sel(self, indexers=None, method=None, **kw):
        ix = dict(indexers or {}, **kw)
        if method is not None or any(isinstance(v, slice) for v in ix.values()):
            raise Unsupported('xarray: sel')
        key, dims = [], []
        for d, n in zip(self.dims, self._a._shape):
            if d in ix:
                l = plain(ix[d])
                if not isnum(l):
                    raise Unsupported('xarray: sel of several labels')
                key.append(position(self._c[d][1], l))
            else:
                key.append(None)
        for d in ix:
            if d not in self.dims:
                raise KeyError("'%s' is not a valid dimension or coordinate" % d)
        return self.pick(key)

    def pick(self, key):
        free = [q for q, k in enumerate(key) if k is None]
        if len(free) == len(key):
            return DataArray(self._a, self._c, self.dims, self.name, self.attrs)
        a = self._a.snapshot()

        def at(ix):
            full = list(key)
            for q, x in zip(free, ix):
                full[q] = x
            return a.elem(full)
        c = {n: v for n, v in self._c.items() if set(v[0]) <= {self.dims[q] for q in free}}
        return self.new(Arr.of([a._shape[q] for q in free], at), tuple(self.dims[q] for q in free), c, self.name)

    def reindex(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        r = self
        for d, l in ix.items():
            r = r.take(d, toarr(plain(l)).snapshot())
        return r

    def take(self, d, labels):
        """the elements at these labels (all of them present)"""
        if d not in self.dims:
            return self
        q, a = self.dims.index(d), self._a.snapshot()
        co = self._c[d][1]
        pos = lambda m: position(co, mknum(labels.elem([m])))
        v = fresh('lb')
        p = pos(v)
        if not PS.ctx.child(cmp_ge(v, 0), cmp_lt(v, labels._shape[0])).decide(c_and(cmp_ge(p, 0), cmp_lt(p, a._shape[q]))):
            raise Unsupported('xarray: labels outside the index')
        sh = list(a._shape)
        sh[q] = labels._shape[0]
        c = {n: x for n, x in self._c.items() if d not in x[0]}
        for n, x in self._c.items():
            if d in x[0] and n != d:
                raise Unsupported('xarray: further coordinate along a reindexed dimension')
        c[d] = ((d,), labels)
        return self.new(Arr.of(sh, lambda i: a.elem(i[:q] + [pos(i[q])] + i[q + 1:])), self.dims, c, self.name)

    def transpose(self, *dims):
        if not dims:
            dims = self.dims[::-1]
        return self.new(self._a.transpose(*[self.dims.index(d) for d in dims]), tuple(dims), self._c, self.name)

    def assign_coords(self, coords=None, **kw):
        return DataArray(self._a, dict(self._c, **coordinates(dict(coords or {}, **kw), self.dims)), self.dims, self.name, self.attrs)

    def integrate(self, coord=None, datetime_unit=None):
        """trapezoidal rule over the labels of the coordinate"""
        if not isinstance(coord, str):
            raise Unsupported('xarray: integrate')
        x = seconds(self._c[coord][1], datetime_unit)
        q, a = self.dims.index(coord), self._a.snapshot()
        n = a._shape[q]

        def at(ix):
            v = fresh('tr')
            f = lambda t: a.elem(ix[:q] + [t] + ix[q:])
            return mk_sum(v, ZERO, n - 2, (f(v) + f(v + 1)) / 2 * (x.elem([v + 1]) - x.elem([v])))
        dims = self.dims[:q] + self.dims[q + 1:]
        return self.new(Arr.of(a._shape[:q] + a._shape[q + 1:], at), dims, self._c, self.name)

    def diff(self, dim, n=1, label='upper'):
        q = self.dims.index(dim)
        c = {m: v for m, v in self._c.items() if dim not in v[0]}
        return self.new(diff(self._a, n, axis=q), self.dims, c, self.name)

    def sum(self, dim=None, **k):
        if not isinstance(dim, str):
            raise Unsupported('xarray: sum')
        q = self.dims.index(dim)
        return self.new(self._a.sum(axis=q), self.dims[:q] + self.dims[q + 1:], self._c, self.name)

    def __neg__(self):
        return self.new(-self._a, self.dims, self._c, self.name)

    def __abs__(self):
        return self.new(abs(self._a), self.dims, self._c, self.name)

    __hash__ = None


def _op(f):
    def g(self, o):
        if isinstance(o, Dataset):
            return NotImplemented
        if isinstance(o, DataArray):
            dims = self.dims + tuple(d for d in o.dims if d not in self.dims)
            for d in o.dims:
                if d in self._c and d in o._c:
                    v = fresh('al')
                    x, y = self._c[d][1], o._c[d][1]
                    if PS.ctx.child(cmp_ge(v, 0), cmp_lt(v, x._shape[0])).decide(c_and(cmp_eq(x._shape[0], y._shape[0]), cmp_eq(x.elem([v]), y.elem([v])))) is not True:
                        raise Unsupported('xarray: alignment')
            a, b = (spread(z, dims) if z.dims != dims else z._a for z in (self, o))
            return self.new(f(a, b), dims, dict(o._c, **self._c), self.name if self.name == o.name else None)
        return self.new(f(self._a, o), self.dims, self._c, self.name)
    return g


def spread(z, dims):
    if not z._a.ndim:
        return z._a
    return z._a.transpose(*[z.dims.index(d) for d in dims if d in z.dims])[tuple(slice(None) if d in z.dims else None for d in dims)]


for _n, _f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, truediv=lambda a, b: a / b).items():
    setattr(DataArray, '__%s__' % _n, _op(_f))
    setattr(DataArray, '__r%s__' % _n, _op(lambda a, b, _f=_f: _f(b, a)))
for _n, _f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
    setattr(DataArray, '__%s__' % _n, _op(_f))


def plain(x):
    if isinstance(x, DataArray):
        return x.values
    return x


def seconds(x, unit):
    """time axis in these units"""
    from .shim import UNITS
    if unit not in UNITS:
        raise Unsupported('xarray: time unit')
    return Arr.of(x._shape, lambda ix: x.elem(ix) * V.T.var(V.TICK) / UNITS[unit])


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self._v, self._c, self.attrs = {}, coordinates(coords, ()), dict(attrs or {})
        self.owner = None
        for n, v in (data_vars or {}).items():
            if isinstance(v, tuple):
                v = DataArray(v[1], None, v[0])
            self.put(n, v)

    def __getattr__(self, n):
        unknown(self, n)

    def put(self, n, v):
        if not isinstance(v, DataArray):
            raise Unsupported('xarray: variable from %s' % type(v).__name__)
        for m, (d, a) in v._c.items():
            if m in self._c and m != n:
                same(self._c[m][1], a)
            elif m != n or v.dims == (n,):
                self._c[m] = (d, a)
        if v.dims == (n,):
            self._c[n] = ((n,), v._a.snapshot())
        else:
            self._v[n] = (v.dims, v._a, dict(v.attrs))

    data_vars = property(lambda s: {n: s[n] for n in s._v})
    coords = property(lambda s: Coords(s._c))
    dims = property(lambda s: tuple(dict.fromkeys(d for ds, a in list(s._c.values()) + [v[:2] for v in s._v.values()] for d in ds)))

    def __contains__(self, n):
        return n in self._v or n in self._c

    def __iter__(self):
        return iter(self._v)

    def keys(self):
        return list(self._v)

    def __getitem__(self, n):
        if isinstance(n, DataArray) or not isinstance(n, str):
            raise Unsupported('xarray: dataset index')
        if n in self._v:
            d, a, at = self._v[n]
            return DataArray(a, {m: c for m, c in self._c.items() if set(c[0]) <= set(d)}, d, n, at)
        if n in self._c:
            return Coords(self._c)[n]
        raise KeyError(n)

    def __setitem__(self, n, v):
        if self.owner:
            PS.touched.append((self.owner, n))
        if not isinstance(v, DataArray):
            raise Unsupported('xarray: assignment')
        if n in self._c and v.dims != (n,):
            raise Unsupported('xarray: assignment of a coordinate')
        self.put(n, v)

    def each(self, f, extra=None):
        r = Dataset()
        r.attrs = dict(self.attrs)
        for n in self._c:
            if n not in (extra or {}):
                d, a = self._c[n]
                x = f(DataArray(a, {n: (d, a)} if d == (n,) else {m: c for m, c in self._c.items() if set(c[0]) <= set(d)}, d, n))
                r._c[n] = (x.dims, x._a)
        for n in self._v:
            x = f(self[n])
            r._v[n] = (x.dims, x._a, dict(x.attrs))
            for m, c in x._c.items():
                r._c.setdefault(m, c)
        return r

    def copy(self, deep=False):
        return self.each(lambda x: x.copy(deep))

    def reindex(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        return self.each(lambda x: x.reindex({d: l for d, l in ix.items() if d in x.dims}))

    def sel(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        if not all(isnum(plain(l)) for l in ix.values()):
            if all(isinstance(plain(l), Arr) for l in ix.values()):
                return self.reindex(ix)
            raise Unsupported('xarray: sel')
        return self.each(lambda x: x.sel({d: l for d, l in ix.items() if d in x.dims}) if x.name not in ix else x)

    def isel(self, indexers=None, **kw):
        ix = dict(indexers or {}, **kw)
        return self.each(lambda x: x.isel({d: l for d, l in ix.items() if d in x.dims}))

    def assign_coords(self, coords=None, **kw):
        r = self.each(lambda x: x)
        for n, v in dict(coords or {}, **kw).items():
            r._c[n] = coordinates({n: v}, ())[n]
        return r

    def assign(self, variables=None, **kw):
        r = self.each(lambda x: x)
        for n, v in dict(variables or {}, **kw).items():
            r.put(n, v)
        return r


def same(a, b, exact=False):
    """the two coordinates have the same labels; exact: anything else is an error"""
    if a is b:
        return
    if not exact:
        vs = [fresh('sm') for _ in a._shape]
        c = c_and(*[cmp_eq(x, y) for x, y in zip(a._shape, b._shape)], cmp_eq(a.elem(vs), b.elem(vs))) if a.ndim == b.ndim else FALSE
        if PS.ctx.child(*[q for v, n in zip(vs, a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, n))]).decide(c) is not True:
            raise Unsupported('xarray: coordinates of the arguments differ')
    elif a.ndim != b.ndim or not all(same_extent(x, y) for x, y in zip(a._shape, b._shape)) or truth_(any_(a != b)):
        raise ValueError('cannot align objects with join=exact where index/labels/sizes are not equal along these coordinates')


def truth_(c):
    return c if isinstance(c, bool) else bool(c)


def merge(objs, compat='no_conflicts', join='outer', **k):
    if k or join not in ('exact', 'outer', 'inner', 'left', 'right', 'override') or compat not in ('identical', 'equals', 'broadcast_equals', 'no_conflicts', 'override', 'minimal'):
        raise (Unsupported if k else ValueError)('merge')
    r = Dataset()
    for o in objs:
        for x in [o] if isinstance(o, DataArray) else [o[n] for n in o._v]:
            for n, (d, a) in x._c.items():
                if n in r._c:
                    same(r._c[n][1], a, exact=join == 'exact')
            r.put(x.name, DataArray(x._a, {n: r._c.get(n, c) for n, c in x._c.items()}, x.dims, x.name, x.attrs))
    return r


def concat(objs, dim, **k):
    if k or not isinstance(dim, str):
        raise Unsupported('xarray: concat')
    objs = list(objs)
    if all(isinstance(o, DataArray) for o in objs):
        o = objs[0]
        if dim not in o.dims or any(x.dims != o.dims for x in objs):
            raise Unsupported('xarray: concat')
        q = o.dims.index(dim)
        c = {n: v for n, v in o._c.items() if dim not in v[0]}
        c[dim] = ((dim,), concatenate([x._c[dim][1] for x in objs]))
        return o.new(concatenate([x._a for x in objs], q), o.dims, c, o.name)
    r = Dataset()
    r.attrs = dict(objs[0].attrs)
    for n in objs[0]._v:
        parts = [o[n] for o in objs]
        if dim not in parts[0].dims:
            raise Unsupported('xarray: concat of a variable without the dimension')
        r.put(n, concat(parts, dim))
    for n, c in objs[0]._c.items():
        if dim not in c[0]:
            r._c.setdefault(n, c)
    if dim not in r._c:
        r._c[dim] = ((dim,), concatenate([o._c[dim][1] for o in objs]))
    return r


XR = Mod('xarray', DataArray=DataArray, Dataset=Dataset, merge=merge, concat=concat, Coordinates=Coords)
