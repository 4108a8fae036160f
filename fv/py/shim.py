"""numpy, math and scipy as the executor sees them.  Functions that are not listed are outside the subset."""
import numbers
import types

from .values import *                                       # noqa
from . import values as V
from .. import terms as T
from ..prover import prove_zero


class Dummy:
    """a type nothing is an instance of"""


def dims(shape):
    if isinstance(shape, (tuple, list)):
        return [term(x) for x in shape]
    return [term(shape)]


def elementwise(f):
    def g(x, *a, **k):
        if a and not isinstance(a[0], (Num, int, float)) or k:
            raise Unsupported('ufunc arguments')
        if isinstance(x, Flat):
            return Flat(lift(f, x.a))
        return lift(f, x)
    return g


def u(name):
    return elementwise(lambda x: fn(name, x))


def binary(f, log=False):
    def g(a, b):
        if isinstance(a, Flat) and isinstance(b, Flat):
            return Flat(lift(f, a.a, b.a))
        if isinstance(a, Flat):
            return Flat(lift(f, a.a, b))
        if isinstance(b, Flat):
            return Flat(lift(f, a, b.a))
        return lift(f, a, b, log=log)
    return g


def typed(a, dtype):
    i = V.intdtype(dtype)
    if i == 'bool':
        return a.astype('bool')
    if i:
        a.buf.decl = a.buf.cell.isint = True
    return a


def zeros(shape, dtype=None, order=None):
    return typed(Arr.of(dims(shape), lambda idx: ZERO), dtype)


def full(shape, v, dtype=None, order=None):
    t = term(v)
    if V.intdtype(dtype) is True and not t.isint:
        t = fn('int', t)
    return typed(Arr.of(dims(shape), lambda idx: t), dtype)


def empty(shape, dtype=None, order=None):
    n = next(V._bid)
    i = V.intdtype(dtype) is True
    return typed(Arr.of(dims(shape), lambda idx: sel('undef:py%d' % n, *idx, *S.active, isint=i)), dtype)


def ones(shape, dtype=None, order=None):
    return full(shape, 1, dtype)


def like(make):
    def g(a, *v, dtype=None, **k):
        a = toarr(a)
        if a.comp:
            raise Unsupported('shape of a selection')
        return make(tuple(a._shape), *v, dtype='int' if dtype is None and a.buf.decl else 'bool' if dtype is None and a.islog else dtype)
    return g


def result_type(*xs):
    """bool < int < float; a scalar counts by its kind"""
    ks = []
    for x in xs:
        if isinstance(x, (Arr, MaskedArr)) or hasattr(x, 'dtype'):
            a = x if isinstance(x, Arr) else toarr(x.data if isinstance(x, MaskedArr) else x)
            ks.append(0 if a.islog else 1 if a.buf.decl else 2)
        elif isinstance(x, (bool, Bool)):
            ks.append(0)
        elif isinstance(x, int):
            ks.append(1)
        elif isinstance(x, (float, Fraction, Num)):
            ks.append(2)
        else:
            i = V.intdtype(x)
            ks.append(0 if i == 'bool' else 1 if i else 2)
    return ('bool', 'int', 'float')[max(ks)]


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    lo, hi, st = term(lo), term(hi), term(st)
    if st.const not in (1, -1):
        # a real step: the number of points is the ceiling of the quotient
        q = (hi - lo) / st
        n = S.ctx.simp(neg(fn('floor', neg(q))))
        return Arr.of((n,), lambda idx: lo + st * idx[0])
    s = int(st.const)
    n = (hi - lo) if s > 0 else (lo - hi)
    if not n.isint:
        n = neg(fn('floor', neg(n)))
    if not truth(cmp_ge(n, 0)):
        n = ZERO
    r = Arr.of((S.ctx.simp(n),), lambda idx: lo + s * idx[0] if s > 0 else lo - idx[0], isint=lo.isint)
    r.rng = (lo, hi, s)
    return r


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b, n = term(a), term(b), term(num)
    if retstep or not isinstance(endpoint, bool):
        raise Unsupported('linspace')
    d = n - 1 if endpoint else n
    return Arr.of((n,), lambda idx: a + (b - a) * idx[0] / d)


def diff(a, n=1, axis=-1):
    a = toarr(a)
    if n != 1:
        raise Unsupported('diff of order %s' % n)
    ax = int(axis) % a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[ax], lo[ax] = slice(1, None), slice(None, -1)
    return a[tuple(hi)] - a[tuple(lo)]


def where(c, *ab):
    if not ab:
        if isinstance(c, FlatMask):
            return c
        if isinstance(c, Arr):
            return Mask(c.snapshot() if c.islog else lift(lambda x: cmp_ne(x, 0), c, log=True))
        raise Unsupported('np.where')
    a, b = ab
    if not isinstance(c, Arr):
        return lift(lambda x, y: ite(cond_of(c), x, y), a, b) if isinstance(a, Arr) or isinstance(b, Arr) else mknum(ite(cond_of(c), term(a), term(b)))
    cc = asint(c) if c.islog else c
    return lift(lambda q, x, y: ite(cmp_ne(q, 0), x, y), cc, a, b)


class ArgWhere:
    def __init__(self, c):
        self.c = c

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return self.first()
        raise Unsupported('np.argwhere')

    def first(self):
        """row of the first position at which the condition holds"""
        return [V.first_position(self.c)]

    def flatten(self):
        return self.first()

    ravel = flatten

    @property
    def size(self):
        return count(self.c)

    def __len__(self):
        raise Unsupported('len of np.argwhere')


def argwhere(c):
    return ArgWhere(c.snapshot())


def flip(a, axis=None):
    a = toarr(a)
    for x in axis if isinstance(axis, (list, tuple)) else [] if axis is None else [axis]:
        if not -a.ndim <= int(x) < a.ndim:
            raise ValueError('axis %d is out of bounds for array of dimension %d' % (int(x), a.ndim))
    ax = range(a.ndim) if axis is None else [int(x) % a.ndim for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
    return a[tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(a.ndim))]


def digitize(x, bins, right=False):
    if right:
        raise Unsupported('digitize(right)')
    src = x.a if isinstance(x, Flat) else toarr(x)
    b = toarr(bins)
    r = Arr.of(src._shape, lambda idx: fn('digit', src.elem(idx)), isint=True)
    r.dig = (src.snapshot(), b.snapshot())
    S.calls.append(dict(name='digitize', bins=b.snapshot(), x=src.snapshot(), ctx=S.ctx))
    if isinstance(x, Flat):
        f = Flat(r)
        f.a.dig = r.dig
        return f
    return r


_intern = {}
_known = []        # (key, number)


def _same_key(a, b):
    """keys equal as functions, under the preconditions"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple):
            # (element at the canonical index, number of elements): equal at every index
            (ex, nx), (ey, ny) = x, y
            if not same_extent(nx, ny):
                return False
            if ex is ey:
                continue
            m = mkparams(1, 'm')[0]
            v = ivar('m!')
            cx = S.base.child(cmp_ge(v, 0), cmp_lt(v, nx))
            d = subst(ex, {m: v}) - subst(ey, {m: v})
            if prove_zero(d, cx, 6.0)[0] != 'proved':
                return False
        elif isinstance(x, Poly) and isinstance(y, Poly):
            if prove_zero(x - y, S.base, 4.0)[0] != 'proved':
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True


def intern(*key):
    """a number identifying a tuple of terms up to provable equality (two numbers for equal tuples are harmless, one number for
    different ones never happens)"""
    r = _intern.get(key)
    if r is None:
        for k, n in _known:
            if k[0] == key[0] and _same_key(k, key):
                r = n
                break
        else:
            r = len(_known)
            _known.append((key, r))
        _intern[key] = r
    return r


def canon(a, ps):
    return a.elem(ps)


def interp(x, xp, fp, left=None, right=None, period=None):
    """np.interp: linear in fp with weights that depend on x and xp only"""
    if left is not None or right is not None or period is not None:
        raise Unsupported('np.interp options')
    xp, fp = toarr(xp).snapshot(), toarr(fp).snapshot()
    if not same_extent(xp._shape[0], fp._shape[0]):
        raise ValueError('fp and xp are not of the same length.')
    p = [P(q) for q in mkparams(1, 'm')]
    k = intern('np.interp', (xp.elem(p), xp._shape[0]), *S.active)
    S.calls.append(dict(name='np.interp', xp=xp, fp=fp, x=x, id=k, ctx=S.ctx))

    def at(t):
        v = fresh('w')
        return mk_sum(v, ZERO, fp._shape[0] - 1, sel('W:npinterp%d' % k, t, v) * fp.elem([v]))
    if isinstance(x, Arr):
        return lift(at, x)
    return mknum(at(term(x)))


class Interp1d:
    """scipy.interpolate.interp1d: linear in y, with weights that depend on the two sets of abscissae and the kind only"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        x, y = toarr(x).snapshot(), toarr(y).snapshot()
        ax = int(axis) % y.ndim
        if not same_extent(x._shape[0], y._shape[ax]):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.x, self.y, self.ax, self.kind, self.fill = x, y, ax, kind, fill_value
        self.bounds_error = bounds_error
        p = [P(q) for q in mkparams(1, 'm')]
        self.outside = None
        if isinstance(fill_value, (tuple, list)) and len(fill_value) == 2:
            # (below, above): held outside the abscissae, which must ascend
            self.outside, fill_value = [toarr(f).snapshot() for f in fill_value], 'extrapolate'
            if not bounds_error is False:
                raise Unsupported('interp1d options')
            bounds_error = None
        if not isinstance(kind, (str, int)) or not (fill_value is None or isinstance(fill_value, str)):
            raise Unsupported('interp1d options')
        if fill_value == 'extrapolate':
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            bounds_error = None
        self.id = intern('interp1d', (x.elem(p), x._shape[0]), kind, fill_value, bounds_error)

    def __call__(self, xnew):
        xn = toarr(xnew).snapshot()
        ax, y = self.ax, self.y
        S.calls.append(dict(name='interp1d', x=self.x, y=y, xnew=xn, axis=ax, kind=self.kind, fill=self.fill, id=self.id,
                            bounds_error=self.bounds_error, ctx=S.ctx))

        def at(idx):
            k = xn.ndim
            r = idx[ax:ax + k]
            o = idx[:ax] + idx[ax + k:]
            v = fresh('w')
            full = o[:ax] + [v] + o[ax:]
            val = mk_sum(v, ZERO, self.x._shape[0] - 1, sel('W:interp%d' % self.id, xn.elem(r), v) * y.elem(full))
            if self.outside is not None:
                low, high = [f.elem(o) if f.ndim else f.elem([]) for f in self.outside]
                val = ite(cmp_lt(xn.elem(r), self.x.elem([ZERO])), low, ite(cmp_gt(xn.elem(r), self.x.elem([self.x._shape[0] - 1])), high, val))
            return val
        sh = list(y._shape)
        sh[ax:ax + 1] = list(xn._shape)
        return Arr.of(sh, at)


class Spline:
    """scipy.interpolate.UnivariateSpline: an uninterpreted function of its data"""

    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0, check_finite=False, _d=0):
        self.x, self.y, self.k, self.s, self.d = toarr(x).snapshot(), toarr(y).snapshot(), k, s, _d
        if w is not None or bbox is not None or ext != 0:
            raise Unsupported('UnivariateSpline options')
        if _d == 0 and not same_extent(self.x._shape[0], self.y._shape[0]):
            raise ValueError('x and y should have a same length')

    def derivative(self, n=1):
        return Spline(self.x, self.y, k=self.k, s=self.s, _d=self.d + int(n))

    def __call__(self, xnew, nu=0):
        xn = toarr(xnew).snapshot()
        p = [P(q) for q in mkparams(1, 'm')]
        d = self.d + int(nu)
        sv = None if self.s is None else term(self.s)
        i = intern('spline', (self.x.elem(p), self.x._shape[0]), (self.y.elem(p), self.y._shape[0]), int(self.k), sv)
        S.calls.append(dict(name='spline', x=self.x, y=self.y, xnew=xn, d=d, k=self.k, s=self.s, id=i, ctx=S.ctx))
        return lift(lambda t: sel('spline%d:d%d' % (i, d), t), xn)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    """np.cov of two blocks of variables in columns"""
    if k or ddof is not None or bias not in (True, False):
        raise Unsupported('np.cov options')
    m = toarr(m).snapshot()
    blocks = [m] if y is None else [m, toarr(y).snapshot()]
    if rowvar is True or (isinstance(rowvar, Num)):
        blocks = [b.transpose() for b in blocks]
    for b in blocks:
        if b.ndim != 2:
            raise Unsupported('np.cov')
    n = blocks[0]._shape[0]
    for b in blocks[1:]:
        if not same_extent(b._shape[0], n):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    X = blocks[0] if len(blocks) == 1 else concatenate(blocks, axis=1)

    def dev(col):
        def f(tt):
            v = fresh('e')
            return X.elem([tt, col]) - mk_sum(v, ZERO, n - 1, X.elem([v, col])) / n
        return f
    N = X._shape[1]

    def at(idx):
        v = fresh('t')
        return mk_sum(v, ZERO, n - 1, dev(idx[0])(v) * dev(idx[1])(v)) / (n if bias else n - 1)
    return Arr.of((N, N), at)


def diagonal(a, offset=0, axis1=0, axis2=1):
    o = term(offset)
    if a.ndim != 2 or axis1 != 0 or axis2 != 1 or not truth(cmp_ge(o, 0)):
        raise Unsupported('np.diagonal')
    if not truth(cmp_eq(a._shape[0], a._shape[1])):
        raise Unsupported('np.diagonal of a rectangle')
    a = a.snapshot()
    return Arr.of((a._shape[0] - o,), lambda idx: a.elem([idx[0], idx[0] + o]))


def roll(a, shift, axis=None):
    a = toarr(a).snapshot()
    if axis is None and a.ndim != 1:
        raise Unsupported('np.roll of a flattened array')
    ax = 0 if axis is None else int(axis) % a.ndim
    s, n = term(shift), a._shape[ax]
    c = s.const
    if c is None or abs(c) > 1 and S.ctx.decide(cmp_ge(n, P(abs(c)))) is not True:
        raise Unsupported('np.roll')

    def at(idx):
        x = idx[ax] - s
        if c > 0:
            x = ite(cmp_lt(x, 0), x + n, x)
        elif c < 0:
            x = ite(cmp_ge(x, n), x - n, x)
        y = list(idx)
        if c == 0:
            return a.elem(y)
        g = cmp_lt(idx[ax] - s, 0) if c > 0 else cmp_ge(idx[ax] - s, n)
        y1, y2 = list(idx), list(idx)
        y1[ax] = idx[ax] - s + (n if c > 0 else -n)
        y2[ax] = idx[ax] - s
        return ite(g, a.elem(y1), a.elem(y2))
    return Arr.of(a._shape, at)


def gradient(f, *args, axis=None, edge_order=1):
    """np.gradient along one axis with uniform or per-point spacing, edge_order 1"""
    if edge_order != 1 or len(args) > 1:
        raise Unsupported('np.gradient')
    f = toarr(f).snapshot()
    if axis is None:
        if f.ndim != 1:
            raise Unsupported('np.gradient of several axes')
        axis = 0
    ax = int(axis) % f.ndim
    n = f._shape[ax]
    h = args[0] if args else 1

    def shift(idx, d):
        y = list(idx)
        y[ax] = y[ax] + d
        return f.elem(y)
    if isinstance(h, Arr) and h.ndim == 1:
        h = h.snapshot()

        def at(idx):
            p = idx[ax]
            a, b = h.elem([p]) - h.elem([p - 1]), h.elem([p + 1]) - h.elem([p])
            mid = (a * a * shift(idx, 1) + (b * b - a * a) * f.elem(idx) - b * b * shift(idx, -1)) / (a * b * (a + b))
            return ite(cmp_eq(p, 0), (shift(idx, 1) - f.elem(idx)) / b, ite(cmp_eq(p, n - 1), (f.elem(idx) - shift(idx, -1)) / a, mid))
    else:
        q = term(h)

        def at(idx):
            p = idx[ax]
            return ite(cmp_eq(p, 0), (shift(idx, 1) - f.elem(idx)) / q,
                       ite(cmp_eq(p, n - 1), (f.elem(idx) - shift(idx, -1)) / q, (shift(idx, 1) - shift(idx, -1)) / (2 * q)))
    return Arr.of(f._shape, at)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return reduce_('mean', a, axis)
    a, w = toarr(a), toarr(weights)
    if w.ndim == 1 and a.ndim > 1:
        ax = int(axis) % a.ndim
        w = reshape(w, tuple(-1 if d == ax else 1 for d in range(a.ndim)))
        return reduce_('sum', a * w, axis) / reduce_('sum', w, None)
    return reduce_('sum', a * w, axis) / reduce_('sum', w, axis)


def broadcast_to(a, shape):
    a = toarr(a).snapshot()
    sh = dims(shape)
    z = Arr.of(sh, lambda idx: ZERO)
    r = lift(lambda x, y: x + y, a, z)
    return r


def outer(a, b):
    return toarr(a)[:, None] * toarr(b)[None, :]


def einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ins, arrow, out = spec.partition('->')
    ins = ins.split(',')
    if '.' in spec or k or len(ins) != len(ops):
        raise Unsupported('np.einsum')
    letters = ''.join(ins)
    if not arrow:
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if any(len(set(x)) != len(x) for x in ins + [out]):
        raise Unsupported('np.einsum')
    rest = [c for c in dict.fromkeys(letters) if c not in out]
    order = list(out) + rest
    r = None
    for x, a in zip(ins, ops):
        a = toarr(a)
        if a.ndim != len(x):
            raise ValueError('einstein sum subscripts string does not match the operand')
        a = a.transpose(*[x.index(c) for c in order if c in x]) if a.ndim > 1 else a
        a = a[tuple(slice(None) if c in x else None for c in order)]
        r = a if r is None else r * a
    for _ in rest:
        r = reduce_('sum', r, -1)
    return r


def matmul(a, b):
    """np.dot and the @ operator for vectors and matrices"""
    a, b = toarr(a), toarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('product of higher arrays')
    x = 'ij'[2 - a.ndim:]
    y = 'jk'[:b.ndim]
    return einsum('%s,%s->%s' % (x, y, (x + y).replace('j', '')), a, b)


def dot(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim > 2 and b.ndim == 1:
        x = 'abcde'[:a.ndim]
        return einsum('%s,%s->%s' % (x, x[-1], x[:-1]), a, b)
    return matmul(a, b)


def tensordot(a, b, axes=2):
    a, b = toarr(a), toarr(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    p, q = [[int(y) for y in (x if isinstance(x, (list, tuple)) else [x])] for x in axes]
    x, y = list('abcdefg'[:a.ndim]), list('hijklmn'[:b.ndim])
    for m, n in zip(p, q):
        y[n % b.ndim] = x[m % a.ndim]
    summed = {x[m % a.ndim] for m in p}
    return einsum('%s,%s->%s' % (''.join(x), ''.join(y), ''.join(c for c in x + y if c not in summed)), a, b)


def repeat(a, n, axis=None):
    """each element n times"""
    a = toarr(a).snapshot()
    if axis is None:
        a, axis = ravel(a), 0
    if not isinstance(n, (int, Num)):
        raise Unsupported('np.repeat')
    ax, n = int(axis) % a.ndim, term(n)
    sh = list(a._shape)
    one = sh[ax].const == 1
    sh[ax] = S.ctx.simp(sh[ax] * n)
    return Arr.of(sh, lambda idx: a.elem(idx[:ax] + [ZERO if one else V.floordiv(idx[ax], n)] + idx[ax + 1:]))


def tile(a, reps):
    a = toarr(a).snapshot()
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    reps = [ONE] * (a.ndim - len(reps)) + [term(x) for x in reps]
    sh = [ONE] * (len(reps) - a.ndim) + list(a._shape)
    off = len(reps) - a.ndim
    if any(x.const != 1 and n.const != 1 for x, n in zip(sh, reps)):
        raise Unsupported('np.tile')
    return Arr.of([x * n for x, n in zip(sh, reps)], lambda idx: a.elem([ZERO if sh[off + d].const == 1 else idx[off + d] for d in range(a.ndim)]))


def clip(a, lo=None, hi=None, **k):
    if lo is not None:
        a = NP.maximum(a, lo)
    return a if hi is None else NP.minimum(a, hi)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = toarr(y)
    ax = int(axis) % y.ndim
    at = lambda lo, hi: y[tuple(slice(lo, hi) if d == ax else slice(None) for d in range(y.ndim))]
    if x is not None:
        x = toarr(x)
        if x.ndim != 1:
            raise Unsupported('np.trapezoid')
        dx = (x[1:] - x[:-1])[tuple(slice(None) if d == ax else None for d in range(y.ndim))]
    return reduce_('sum', (at(1, None) + at(None, -1)) * dx / 2, ax)


class IndexMaker:
    def __getitem__(self, k):
        return k


def isnan(a):
    """the values of the model are real numbers"""
    return lift(lambda x: FALSE, a, log=True)


def count_nonzero(a):
    a = toarr(a)
    if not a.islog:
        a = lift(lambda x: cmp_ne(x, 0), a, log=True)
    return reduce_('sum', a)


def swapaxes(a, x, y):
    return a.swapaxes(x, y)


def nanreduce(op):
    return lambda a, axis=None, **k: reduce_(op, a, axis, **k)


def asarray(a, dtype=None, **k):
    r = a if isinstance(a, Arr) else a.data if isinstance(a, MaskedArr) else toarr(a)
    i = V.intdtype(dtype)
    return r if i is None or i == ('bool' if r.islog else bool(r.buf.decl)) else r.astype(dtype)


def array(x, dtype=None, **k):
    r = x.copy() if isinstance(x, Arr) else toarr(x)
    return r if dtype is None else r.astype(dtype)


def prod(a, axis=None, dtype=None, **k):
    if isinstance(a, (list, tuple)) and all(isnum(x) for x in a):
        r = ONE
        for x in a:
            r = r * term(x)
        return mknum(r)
    raise Unsupported('prod')


def maxmin(op):
    def g(a, axis=None, **k):
        if isinstance(a, Flat):
            a = a.a
        if isinstance(a, (list, tuple)) and all(isnum(x) for x in a):
            r = term(a[0])
            for x in a[1:]:
                r = fn(op, r, term(x))
            return mknum(r)
        return reduce_(op, a, axis, **k)
    return g


def sumf(a, axis=None, **k):
    if isinstance(a, (Flat, FlatPick, FlatMask, Picked)):
        return a.sum()
    return reduce_('sum', a, axis, **k)


def meanf(a, axis=None, **k):
    if isinstance(a, Flat):
        return a.mean()
    if isinstance(a, FlatPick):
        return a.mean()
    return reduce_('mean', a, axis, **k)


class Mod(types.ModuleType):
    def __init__(self, name, **k):
        super().__init__(name)
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


UNITS = dict(ns=1, us=1000, ms=10 ** 6, s=10 ** 9, m=60 * 10 ** 9, h=3600 * 10 ** 9, D=86400 * 10 ** 9)
class MaskedArr:
    """a numpy masked array: a view of the data, a mask and a fill value; arithmetic on it is not modelled"""

    def __init__(self, arr, name):
        self._arr, self.name = arr, name
        self.mask = Arr.of(arr._shape, lambda ix: T.cmp_gt(T.sel(name + ':mask', *ix), 0), islog=True, owner='mask of ' + name)
        self.fill_value = Num(T.sel(name + ':fill'))

    @property
    def data(self):
        a = self._arr
        return Arr(a.buf, a.maps, a._shape, a.comp)

    shape = property(lambda s: s._arr.shape)
    ndim = property(lambda s: s._arr.ndim)
    size = property(lambda s: s._arr.size)
    dtype = property(lambda s: s._arr.dtype)

    def copy(self, order=None):
        r = object.__new__(MaskedArr)
        r._arr, r.name, r.mask, r.fill_value = self._arr.copy(), self.name, self.mask.copy(), self.fill_value
        return r

    def filled(self, fill_value=None):
        return where(self.mask, self.fill_value if fill_value is None else fill_value, self._arr)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('masked array .' + n)


def getdata(x, subok=True):
    return x.data if isinstance(x, MaskedArr) else toarr(x)


def ismasked(x):
    return isinstance(x, MaskedArr)


def getmaskarray(x):
    return x.mask.copy() if isinstance(x, MaskedArr) else full(toarr(x).shape, False)


ma = Mod('numpy.ma', is_masked=ismasked, core=Mod('numpy.ma.core', MaskedArray=MaskedArr), MaskedArray=MaskedArr,
         isMaskedArray=ismasked, isMA=ismasked, getdata=getdata, getmaskarray=getmaskarray,
         filled=lambda x, fill_value=None: x.filled(fill_value) if isinstance(x, MaskedArr) else x)

NP = Mod(
    'numpy', pi=Num(T.PI), newaxis=None, ndarray=Arr, ma=ma, float64=float, float32=float, float_=float, int64=int, int32=int, bool_=bool,
    floating=float, integer=int, inf=float('inf'),
    zeros=zeros, ones=ones, full=full, empty=empty, result_type=result_type, promote_types=result_type, double=float,
    zeros_like=like(zeros), ones_like=like(ones), empty_like=like(empty), full_like=like(full),
    arange=arange, linspace=linspace, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, asfortranarray=asarray, copy=lambda a: toarr(a).copy(),
    sin=u('sin'), cos=u('cos'), tan=u('tan'), exp=u('exp'), log=u('log'), sqrt=u('sqrt'), arcsin=u('arcsin'), arccos=u('acos'), arctan=u('atan'),
    abs=elementwise(absval), absolute=elementwise(absval), fabs=elementwise(absval), negative=elementwise(neg), square=elementwise(lambda x: x * x),
    floor=u('floor'), sign=elementwise(lambda x: ite(cmp_gt(x, 0), ONE, ite(cmp_lt(x, 0), P(-1), ZERO))),
    deg2rad=elementwise(lambda x: x * T.PI / 180), radians=elementwise(lambda x: x * T.PI / 180),
    rad2deg=elementwise(lambda x: x * 180 / T.PI), degrees=elementwise(lambda x: x * 180 / T.PI),
    add=binary(lambda a, b: a + b), subtract=binary(lambda a, b: a - b), multiply=binary(lambda a, b: a * b), divide=binary(lambda a, b: a / b),
    true_divide=binary(lambda a, b: a / b), power=binary(power), maximum=binary(lambda a, b: fn('max', a, b)), minimum=binary(lambda a, b: fn('min', a, b)),
    less=binary(cmp_lt, True), greater=binary(cmp_gt, True), less_equal=binary(cmp_le, True), greater_equal=binary(cmp_ge, True),
    logical_and=lambda a, b: lift(c_and, a, b, log=True, boolargs=True), logical_or=lambda a, b: lift(c_or, a, b, log=True, boolargs=True),
    logical_not=lambda a: lift(c_not, a, log=True, boolargs=True) if isinstance(a, Arr) else mkbool(c_not(cond_of(a))),
    sum=sumf, mean=meanf, max=maxmin('max'), min=maxmin('min'), amax=maxmin('max'), amin=maxmin('min'), average=average,
    any=lambda a, axis=None: any_(a), all=lambda a, axis=None: a.all() if isinstance(a, Arr) else bool(a), cumsum=cumsum, diff=diff,
    where=where, nonzero=where, argwhere=argwhere, flatnonzero=lambda c: where(c)[0], count_nonzero=count_nonzero, isnan=isnan,
    isfinite=lambda a: lift(lambda x: TRUE, a, log=True),
    swapaxes=swapaxes, transpose=lambda a, axes=None: a.transpose(*(axes or ())), moveaxis=None, flip=flip, flipud=lambda a: flip(a, 0), fliplr=lambda a: flip(a, 1),
    concatenate=concatenate, stack=lambda p, axis=0: stack(p, axis), hstack=lambda p: concatenate(p, 0 if toarr(p[0]).ndim == 1 else 1),
    vstack=lambda p: concatenate([x if x.ndim > 1 else x[None, :] for x in map(toarr, p)], 0), append=lambda a, b, axis=None: concatenate([toarr(a), toarr(b)], axis or 0),
    reshape=lambda a, s: reshape(toarr(a), s if isinstance(s, (tuple, list)) else (s,)), ravel=lambda a, order='C': ravel(toarr(a), order), squeeze=lambda a, axis=None: a.squeeze(axis),
    expand_dims=lambda a, axis: a[tuple([slice(None)] * (int(axis) % (a.ndim + 1)) + [None])], broadcast_to=broadcast_to, tile=tile, repeat=repeat, roll=roll, einsum=einsum, dot=dot, matmul=matmul, inner=dot, tensordot=tensordot,
    s_=IndexMaker(), index_exp=IndexMaker(), clip=clip, trapezoid=trapezoid, trapz=trapezoid, nan_to_num=lambda a, *p, **k: toarr(a).copy(), hypot=binary(lambda a, b: fn('sqrt', a * a + b * b)),
    outer=outer, digitize=digitize, interp=interp, gradient=gradient, cov=cov, diagonal=diagonal,
    isscalar=lambda x: isnum(x), ndim=lambda x: getattr(x, 'ndim', 0), shape=lambda x: x.shape, size=lambda x: x.size,
    prod=prod, timedelta64=lambda n=1, unit=None: mknum(term(n) * UNITS[unit] / T.var(TICK) if unit else term(n)),
    array_equal=lambda a, b: a.shape == b.shape and bool((a == b).all()),
)


def _moveaxis(a, s, d):
    ax = list(range(a.ndim))
    x = ax.pop(int(s) % a.ndim)
    ax.insert(int(d) % a.ndim, x)
    return a.transpose(*ax)


NP.moveaxis = _moveaxis
V.Arr.__matmul__ = lambda a, b: matmul(a, b)
V.Arr.__rmatmul__ = lambda a, b: matmul(b, a)
V.Arr.dot = dot
V.Arr.repeat = repeat
V.Arr.clip = clip

MATH = Mod('math', pi=Num(T.PI), exp=lambda x: mknum(fn('exp', term(x))), log=lambda x: mknum(fn('log', term(x))), sin=lambda x: mknum(fn('sin', term(x))),
           cos=lambda x: mknum(fn('cos', term(x))), sqrt=lambda x: mknum(fn('sqrt', term(x))), radians=lambda x: mknum(term(x) * T.PI / 180),
           degrees=lambda x: mknum(term(x) * 180 / T.PI), fabs=lambda x: mknum(absval(term(x))), floor=lambda x: mknum(fn('floor', term(x))),
           fsum=None, isnan=lambda x: False)
del MATH.__dict__['fsum']
for _n in ('tile',):
    del NP.__dict__[_n]


def lu(a, *r, **k):
    return (('lu', a), None, 0)


SCIPY_INTERP = Mod('scipy.interpolate', interp1d=Interp1d, UnivariateSpline=Spline)


class Inverse:
    pass


def dgetrf(a, *r, **k):
    """LU factors, to be handed to dgetri"""
    return ('lu', toarr(a).snapshot()), ('piv',), 0


def dgetri(lu_, piv, *r, **k):
    if not (isinstance(lu_, tuple) and lu_[0] == 'lu'):
        raise Unsupported('dgetri of something that is not a factorisation')
    return matinv(lu_[1]), 0


def matinv(a):
    a = toarr(a).snapshot()
    n = sum(1 for c in S.calls if c['name'] == 'inverse')
    S.calls.append(dict(name='inverse', arg=a, ctx=S.ctx))
    nm = 'INV%d' % n
    r = Arr.of(a._shape, lambda idx: sel(nm, *idx, *S.active))
    S.calls[-1]['out'] = r.snapshot()
    S.calls[-1]['sym'] = nm
    return r


LAPACK = Mod('scipy.linalg.lapack', dgetrf=dgetrf, dgetri=dgetri)
NP.linalg = Mod('numpy.linalg', inv=matinv)
MODULES = {'numpy': NP, 'math': MATH, 'scipy.interpolate': SCIPY_INTERP, 'scipy.linalg.lapack': LAPACK,
           'scipy.linalg': Mod('scipy.linalg', inv=matinv, lapack=LAPACK), 'scipy': Mod('scipy', interpolate=SCIPY_INTERP)}
