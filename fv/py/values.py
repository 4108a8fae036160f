"""Symbolic values of the Python executor: numbers, conditions, arrays (buffers and views) and the path state.

A number is a term over the reals (an integer-typed one over the integers).  An array is a view on a buffer, a buffer is a
function of its indices (0-based), so slices alias exactly as in numpy and a write through a view changes the buffer it
looks at.  A condition that the path does not decide forks the execution (fv.py.values.explore)."""
from fractions import Fraction
import itertools

from ..terms import *                                        # noqa
from .. import terms as T
from ..prover import Ctx
from ..loops import Cell, mkparams


# times are counted in units of the time axis; this is its length in nanoseconds.  A timedelta without unit is a number of these
TICK = 'nanoseconds per unit of time'


class Infeasible(BaseException):
    pass


class TooManyPaths(Unsupported):
    pass


class Session:
    def __init__(self):
        self.begin([])

    def begin(self, facts, hints=()):
        self.ctx = Ctx(list(facts))
        self.base = self.ctx
        self.dec, self.pos = [], 0
        self.pc = []
        self.active = []
        self.inloop = 0
        self.writes = None          # buffers written, when recording
        self.calls = []             # kernel and library calls
        self.hints = list(hints)    # candidate positions of exact zeros etc.
        self.touched = []           # writes into buffers owned by the caller
        self.notes = []
        self.maxpaths = 64
        self.fresh_bufs = 0
        self.slices = None          # the independent slices a computation is repeated for (Slices)


S = Session()
_bid = itertools.count()


def truth(c):
    if c is TRUE or c is True:
        return True
    if c is FALSE or c is False:
        return False
    c = S.ctx.simp_cond(c)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    d = S.ctx.decide(c)
    if d is not None:
        return d
    if S.slices is not None and S.slices.generic and S.slices.mentions(c):
        raise Unsupported('a decision that depends on the slice')
    if S.pos < len(S.dec):
        v = S.dec[S.pos]
    else:
        v = True
        S.dec.append(True)
    S.pos += 1
    l = c if v else c_not(c)
    S.pc.append(l)
    S.ctx = S.ctx.child(l)
    if S.ctx.dead:
        raise Infeasible()
    return v


def paths(run):
    """runs `run` once per feasible combination of undecided conditions; yields (path condition, result)"""
    save = (S.dec, S.pos, S.pc, S.ctx)
    base = S.ctx
    dec, n = [], 0
    out = []
    try:
        while True:
            S.dec, S.pos, S.pc, S.ctx = dec, 0, [], base
            try:
                r = run()
                if not S.pc or S.ctx.feasible():
                    out.append((list(S.pc), S.ctx, r))
            except Infeasible:
                pass
            n += 1
            if n > S.maxpaths:
                raise TooManyPaths('more than %d paths' % S.maxpaths)
            dec = S.dec[:S.pos]
            while dec and dec[-1] is False:
                dec.pop()
            if not dec:
                return out
            dec[-1] = False
    finally:
        S.dec, S.pos, S.pc, S.ctx = save


# ------------------------------------------------------------------------------------------------ scalars
def floordiv(a, b):
    a, b = P(a), P(b)
    if b.const is not None and a.isint:
        return fn('floordiv', a, b)
    return fn('floor', a / b)


def modulo(a, b):
    a, b = P(a), P(b)
    return a - b * floordiv(a, b)


def power(x, y):
    c = P(y).const
    if c is not None and c.denominator == 1:
        return P(x) ** int(c)
    if c == Fraction(1, 2):
        return fn('sqrt', P(x))
    return fn('exp', P(y) * fn('log', P(x)))


def term(x):
    """term of a scalar-like Python value"""
    if isinstance(x, Num):
        return x.t
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return P(int(x))
    if isinstance(x, (int, Fraction)):
        return P(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return P(Fraction(repr(x)))
    if isinstance(x, Bool):
        return ite(x.c, ONE, ZERO)
    if isinstance(x, Arr) and x.ndim == 0:
        return x.elem([])
    raise Unsupported('number expected, got %s' % type(x).__name__)


def isnum(x):
    return isinstance(x, (Num, Bool, int, float, Fraction)) or (isinstance(x, Arr) and x.ndim == 0)


def mknum(t):
    """Python value of a term: machine integers stay Python integers"""
    t = S.ctx.simp(t)
    c = t.const
    if c is not None and t.isint and c.denominator == 1 and not isinstance(t, bool):
        return Num(t)
    return Num(t)


def mkbool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return Bool(c)


def cond_of(x):
    if isinstance(x, Bool):
        return x.c
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Num):
        return cmp_ne(x.t, 0)
    if isinstance(x, int):
        return TRUE if x else FALSE
    raise Unsupported('condition expected')


class Bool:
    __slots__ = ('c',)
    shape, ndim, size = (), 0, 1

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return truth(self.c)

    def __and__(self, o):
        return NotImplemented if isinstance(o, Arr) else mkbool(c_and(self.c, cond_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if isinstance(o, Arr) else mkbool(c_or(self.c, cond_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(c_not(self.c))

    def _n(self):
        return Num(term(self))

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        if isinstance(o, (bool, Bool)):
            b = cond_of(o)
            return mkbool(c_or(c_and(self.c, b), c_and(c_not(self.c), c_not(b))))
        return self._n() == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return self.c.uid


def _bin(f):
    def op(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        try:
            return mknum(f(self.t, term(o)))
        except Unsupported:
            return NotImplemented
    return op


def _cmp(f):
    def op(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return bool(f(P(0), P(1 if o > 0 else -1)) is TRUE)
        return mkbool(S.ctx.simp_cond(f(self.t, term(o))))
    return op


class Num:
    __slots__ = ('t',)
    shape, ndim, size = (), 0, 1

    def __init__(self, t):
        self.t = P(t)

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: b + a)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: b - a)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _bin(lambda a, b: b * a)
    __truediv__ = _bin(lambda a, b: a / b)
    __rtruediv__ = _bin(lambda a, b: b / a)
    __floordiv__ = _bin(floordiv)
    __rfloordiv__ = _bin(lambda a, b: floordiv(b, a))
    __mod__ = _bin(modulo)
    __rmod__ = _bin(lambda a, b: modulo(b, a))
    __pow__ = _bin(power)
    __rpow__ = _bin(lambda a, b: power(b, a))
    __lt__ = _cmp(cmp_lt)
    __le__ = _cmp(cmp_le)
    __gt__ = _cmp(cmp_gt)
    __ge__ = _cmp(cmp_ge)
    __eq__ = _cmp(cmp_eq)

    def __ne__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __neg__(self):
        return Num(neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return Num(absval(self.t))

    def __hash__(self):
        c = self.t.const
        return hash(c) if c is not None else id(self.t)

    def __bool__(self):
        return truth(cmp_ne(self.t, 0))

    def __index__(self):
        c = S.ctx.simp(self.t).const
        if c is None or c.denominator != 1:
            raise Unsupported('concrete integer needed: %s' % show(self.t)[:80])
        return int(c)

    def __float__(self):
        c = self.t.const
        if c is None:
            raise Unsupported('concrete number needed: %s' % show(self.t)[:80])
        return float(c)

    def __format__(self, spec):
        return '<%s>' % show(self.t)[:60]

    def __str__(self):
        return '<%s>' % show(self.t)[:60]
    __repr__ = __str__

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_):
        return self

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        if i is None:
            return lift(lambda x: x, self.arr())[None]
        raise IndexError('invalid index to scalar variable')

    def arr(self):
        return Arr.of((), lambda idx: self.t, isint=self.t.isint)

    def sum(self, axis=None):
        return self

    mean = min = max = sum


def absval(t):
    t = P(t)
    return fn('abs', t)


# ------------------------------------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ('cell', 'shape', 'id', 'owner', 'decl')

    def __init__(self, cell, shape, owner=None):
        self.decl = False               # the element type is known to be an integer (and not merely every value)
        self.cell, self.shape, self.owner = cell, tuple(P(x) for x in shape), owner
        self.id = next(_bid)


def dimval(p):
    """a shape entry as a Python value"""
    c = p.const
    return int(c) if c is not None else Num(p)


class Shape(tuple):
    """tuple of extents; equality of symbolic extents is a condition"""
    __slots__ = ()

    def __eq__(self, o):
        if not isinstance(o, tuple):
            return False
        if len(self) != len(o):
            return False
        return all(a == b if isinstance(a, str) or isinstance(b, str) or a is None or b is None else truth(cmp_eq(term(a), term(b))) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o

    __hash__ = tuple.__hash__


def same_extent(a, b):
    return a is b or truth(cmp_eq(a, b))


class Mask:
    """np.where(cond) / np.nonzero(cond): the positions at which cond holds"""

    def __init__(self, cond):
        self.cond = cond

    def key(self):
        n = self.cond.ndim
        ps = [P(p) for p in mkparams(n, 'm')]
        return (self.cond.elem(ps), tuple(self.cond._shape))

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0 and self.cond.ndim == 1:
            return Positions(self.cond)
        raise Unsupported('component of np.where')

    def __len__(self):
        return self.cond.ndim

    @property
    def size(self):
        if self.cond.ndim == 1:
            return count(self.cond)
        raise Unsupported('size of an index list')

    def __iter__(self):
        if self.cond.ndim == 1:
            return iter([Positions(self.cond)])
        raise Unsupported('unpacking np.where')


def first_position(c):
    """the first position at which the condition holds, when the condition determines it"""
    if c.ndim != 1:
        raise Unsupported('np.argwhere')
    v = fresh('w')
    t = normal_mask(c.elem([v]), v, c._shape[0])
    if t is FALSE:
        raise IndexError('index 0 is out of bounds for axis 0 with size 0')
    if t.k == 'eq':
        e = solve_for(atom_of(v), t.a[0])
        if e is not None:
            if not truth(c_and(cmp_ge(e, 0), cmp_lt(e, c._shape[0]))):
                raise IndexError('index 0 is out of bounds for axis 0 with size 0')
            return Num(e)
    raise Unsupported('np.argwhere')


class Positions(Mask):
    """the increasing list of these positions (one axis)"""

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return first_position(self.cond)
        raise Unsupported('element of an index list')

    def __len__(self):
        raise Unsupported('length of an index list')

    def __iter__(self):
        raise Unsupported('iteration over an index list')

    def min(self):
        return first_position(self.cond)

    @property
    def shape(self):
        return (self.size,)


def count(cond):
    v = fresh('c')
    if cond.ndim != 1:
        return Num(term(reduce_('sum', asint(cond), None)))
    c = normal_mask(cond.elem([v]), v, cond._shape[0])
    return Num(S.ctx.simp(mk_sum(v, ZERO, cond._shape[0] - 1, ite(c, ONE, ZERO))))


def asint(a):
    return Arr.of(a._shape, lambda idx: ite(a.elem(idx), ONE, ZERO), isint=True)


def normal_mask(c, v, n):
    """a condition on position v in 0..n-1 as v == h (a hinted position) or false where that is equivalent"""
    if c is TRUE or c is FALSE or c.k == 'eq' and solve_for(atom_of(v), c.a[0]) is not None:
        return c
    ch = S.ctx.child(cmp_ge(v, 0), cmp_lt(v, n))
    if ch.dead or not ch.feasible():
        return FALSE
    d = ch.decide(ch.simp_cond(c))
    if d is not None:
        return TRUE if d else FALSE
    for h in S.hints:
        at = csubst(c, {atom_of(v): h})
        if S.ctx.decide(S.ctx.simp_cond(at)) is not True:
            continue
        lo, hi = ch.child(cmp_lt(v, h)), ch.child(cmp_gt(v, h))
        if all(x.dead or not x.feasible() or x.decide(x.simp_cond(c)) is False for x in (lo, hi)):
            return cmp_eq(v, h)
    return c


class Arr:
    """view: maps[d] for buffer axis d is ('f', offset) or ('a', view axis, sign, offset)"""
    __slots__ = ('buf', 'maps', '_shape', 'comp', 'rng', 'dig', 'flat_of')
    __array_priority__ = 1000

    def __init__(self, buf, maps, shape, comp=None):
        self.buf, self.maps, self._shape = buf, list(maps), tuple(P(x) for x in shape)
        self.comp = comp or {}          # axis -> Mask for axes that list the selected positions only
        self.rng = None                 # (lo, hi, step) of np.arange
        self.dig = None                 # (values, bins) of np.digitize
        self.flat_of = None

    # ---- construction
    @staticmethod
    def of(shape, f, isint=False, islog=False, owner=None, comp=None):
        shape = tuple(P(x) for x in shape)
        ps = mkparams(len(shape))
        t = f([P(p) for p in ps])
        if islog:
            cell = Cell(ps, t, islog=True)
        else:
            cell = Cell(ps, t, isint)
        return Arr(Buf(cell, shape, owner), [('a', d, 1, ZERO) for d in range(len(shape))], shape, comp)

    @staticmethod
    def symbol(name, shape, isint=False, owner=None):
        a = Arr.of(shape, lambda idx: sel(name, *idx, isint=isint), isint=isint, owner=owner)
        a.buf.decl = isint
        return a

    # ---- shape
    @property
    def shape(self):
        if self.comp:
            raise Unsupported('shape of a selection')
        return Shape(dimval(x) for x in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        if self.comp:
            raise Unsupported('size of a selection')
        r = ONE
        for x in self._shape:
            r = r * x
        return dimval(r)

    @property
    def T(self):
        return self.transpose()

    @property
    def islog(self):
        return self.buf.cell.islog

    @property
    def isint(self):
        return self.buf.cell.isint

    @property
    def dtype(self):
        return 'bool' if self.islog else 'int' if self.isint else 'float'

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic extent')

    # ---- reading
    def bidx(self, idx):
        return [m[1] if m[0] == 'f' else (P(idx[m[1]]) if m[2] > 0 else neg(P(idx[m[1]]))) + m[3] for m in self.maps]

    def elem(self, idx):
        c = self.buf.cell
        b = self.bidx(idx)
        if not c.params:
            return c.term
        return c.at(b)

    def snapshot(self):
        """the current contents, unaffected by later writes"""
        r = Arr(Buf(self.buf.cell, self.buf.shape), self.maps, self._shape, self.comp)
        r.buf.id, r.buf.decl = self.buf.id, self.buf.decl
        return r

    def val(self, idx):
        """element with 1-dimension broadcasting of trailing-aligned indices"""
        n = self.ndim
        off = len(idx) - n
        return self.elem([ZERO if self._shape[d].const == 1 and d not in self.comp else idx[off + d] for d in range(n)])

    def copy(self, order=None):
        r = lift(lambda x: x, self)
        if isinstance(r, Arr):
            r.buf.decl = self.buf.decl
        return r

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over a symbolic extent')

    # ---- indexing
    def _basic(self, key):
        """list of per-axis items: ('i', Poly) ('s', start, step, n) ('n',) ('m', Mask or Arr, naxes)"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nused = 0
        for x in key:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, Mask):
                nused += x.cond.ndim
            elif isinstance(x, Arr) and x.islog:
                nused += x.ndim
            else:
                nused += 1
        if nused > self.ndim:
            raise IndexError('too many indices for array')
        el = [k for k, x in enumerate(key) if x is Ellipsis]
        fill = [slice(None)] * (self.ndim - nused)
        if el:
            key[el[0]:el[0] + 1] = fill
        else:
            key += fill
        items, ax = [], 0
        for x in key:
            if x is None:
                items.append(('n',))
                continue
            if isinstance(x, Mask) or (isinstance(x, Arr) and x.islog):
                m = x if isinstance(x, Mask) else Mask(x)
                if not isinstance(x, Mask):
                    for d in range(m.cond.ndim):
                        if not same_extent(m.cond._shape[d], self._shape[ax + d]):
                            raise IndexError('boolean index did not match indexed array')
                items.append(('m', m, ax, m.cond.ndim))
                ax += m.cond.ndim
                continue
            n = self._shape[ax]
            if ax in self.comp:
                if isinstance(x, slice) and x == slice(None):
                    items.append(('s', ZERO, 1, n, ax, self.comp[ax]))
                    ax += 1
                    continue
                raise Unsupported('index into a selection')
            if isinstance(x, slice):
                st, step, cnt = slice_of(x, n)
                items.append(('s', st, step, cnt, ax, None))
            elif isnum(x):
                e = term(x)
                if truth(cmp_lt(e, 0)):
                    e = e + n
                if not truth(c_and(cmp_ge(e, 0), cmp_lt(e, n))):
                    raise IndexError('index %s is out of bounds for axis %d with size %s' % (show(term(x))[:40], ax, show(n)[:40]))
                items.append(('i', S.ctx.simp(e), ax))
            else:
                raise Unsupported('index of type %s' % type(x).__name__)
            ax += 1
        return items

    def _view(self, items):
        shape, mp, comp = [], {}, {}
        for it in items:
            if it[0] == 'n':
                shape.append(ONE)
            elif it[0] == 'i':
                mp[it[2]] = ('f', it[1])
            elif it[0] == 's':
                mp[it[4]] = ('a', len(shape), it[2], it[1])
                if it[5] is not None:
                    comp[len(shape)] = it[5]
                shape.append(it[3])
        maps = []
        for m in self.maps:
            if m[0] == 'f':
                maps.append(m)
                continue
            _, ax, sg, off = m
            q = mp[ax]
            if q[0] == 'f':
                maps.append(('f', (q[1] if sg > 0 else neg(q[1])) + off))
            else:
                maps.append(('a', q[1], sg * q[2], (q[3] if sg > 0 else neg(q[3])) + off))
        return Arr(self.buf, maps, shape, comp)

    def _listkey(self, key):
        """(key, position) of the only list of integers in a key of lists and slices; the axis it selects is that position"""
        ks = list(key) if isinstance(key, tuple) else [key]
        ls = [q for q, k in enumerate(ks) if isinstance(k, list)]
        if not ls:
            return None
        if len(ls) > 1 or not all(isinstance(k, (list, slice)) or k is Ellipsis for k in ks) or not all(isnum(k) and term(k).isint for k in ks[ls[0]]) or not ks[ls[0]]:
            raise Unsupported('index of type list')
        if Ellipsis in [k for k in ks if not isinstance(k, (list, slice))]:
            e = [q for q, k in enumerate(ks) if k is Ellipsis][0]
            ks[e:e + 1] = [slice(None)] * (self.ndim - len(ks) + 1)
            ls = [q for q, k in enumerate(ks) if isinstance(k, list)]
        return ks, ls[0]

    def __getitem__(self, key):
        lk = self._listkey(key)
        if lk is not None:
            ks, ax = lk
            return stack([toarr(self[tuple(ks[:ax] + [k] + ks[ax + 1:])]) for k in ks[ax]], ax)
        items = self._basic(key)
        ms = [it for it in items if it[0] == 'm']
        if not ms:
            v = self._view(items)
            if not v._shape:
                e = v.elem([])
                return mkbool(S.ctx.simp_cond(e)) if v.islog else mknum(e)
            return v
        if len(ms) > 1:
            raise Unsupported('several masks')
        m, ax0, nm = ms[0][1:4]
        if nm != 1:
            # flattened selection of a multi-dimensional mask
            rest = [it for it in items if it[0] != 'm']
            if rest or self.ndim != nm:
                raise Unsupported('partial multi-dimensional mask')
            return Picked(self, m)
        plain = [('s', ZERO, 1, self._shape[ax0], ax0, None) if it[0] == 'm' else it for it in items]
        v = self._view(plain)
        pos = sum(1 for it in items[:items.index(ms[0])] if it[0] != 'i')
        r = lift(lambda x: x, v)
        r.comp[pos] = m
        return r

    def __setitem__(self, key, value):
        lk = self._listkey(key)
        if lk is not None:
            ks, ax = lk
            right = self.ndim - ax                  # counted from the last axis, as the value is broadcast
            v = value if isnum(value) else toarr(value).snapshot()
            many = not isnum(v) and v.ndim >= right and v._shape[v.ndim - right].const != 1
            if many and v._shape[v.ndim - right].const != len(ks[ax]):
                raise Unsupported('values assigned through a list of indices') if v._shape[v.ndim - right].const is None else ValueError('shape mismatch')
            for q, k in enumerate(ks[ax]):
                at = (slice(None),) * (v.ndim - right) if not isnum(v) and v.ndim >= right else None
                self[tuple(ks[:ax] + [k] + ks[ax + 1:])] = v if at is None else v[at + (q if many else 0,)]
            return
        items = self._basic(key)
        ms = [it for it in items if it[0] == 'm']
        mask = None
        if ms:
            if len(ms) > 1:
                raise Unsupported('several masks')
            m, ax0, nm = ms[0][1:4]
            out, axes = [], []
            for it in items:
                if it[0] == 'm':
                    for d in range(nm):
                        axes.append(len(out))
                        out.append(('s', ZERO, 1, self._shape[ax0 + d], ax0 + d, None))
                else:
                    out.append(it)
            pos = [sum(1 for it in out[:a] if it[0] != 'i') for a in axes]
            items = out

            def mask(idx, m=m, pos=pos):
                p = [idx[a] for a in pos]
                # np.where on a smaller array addresses the leading part
                return c_and(*[cmp_lt(x, n) for x, n in zip(p, m.cond._shape)], m.cond.elem(p))
            if nm > 1 and not isnum(value):
                raise Unsupported('array assigned through a multi-dimensional mask')
        v = self._view(items)
        if v.comp:
            raise Unsupported('assignment into a selection')
        v.store(value, mask, {pos[0]: m} if ms and nm == 1 else {})

    def store(self, value, mask=None, comp=None):
        b = self.buf
        if b.owner is not None:
            S.touched.append((b.owner, S.ctx))
        if S.writes is not None:
            S.writes.setdefault(b.id, (b, b.cell))
        ps = b.cell.params
        conds, coord = [], [None] * self.ndim
        for p, m, n in zip(ps, self.maps, b.shape):
            if m[0] == 'f':
                conds.append(cmp_eq(P(p), m[1]))
            else:
                _, ax, sg, off = m
                x = P(p) - off if sg > 0 else off - P(p)
                coord[ax] = x
                if not (self._shape[ax] is n and ((sg > 0 and off is ZERO) or (sg < 0 and off is n - 1))):
                    conds += [cmp_ge(x, 0), cmp_lt(x, self._shape[ax])]
        coord = [ZERO if c is None else c for c in coord]
        if isinstance(value, (list, tuple)):
            value = toarr(value)
        if isinstance(value, SymList):
            value = value.arr()
        if isnum(value):
            t = term(value) if not (self.islog) else cond_of(value)
        elif isinstance(value, Arr):
            if value.ndim > self.ndim and all(x.const == 1 for x in value._shape[:value.ndim - self.ndim]):
                value = value[(0,) * (value.ndim - self.ndim)]
            if value.ndim > self.ndim:
                raise ValueError('could not broadcast input array')
            off = self.ndim - value.ndim
            for d in range(value.ndim):
                if d in value.comp:
                    mk = (comp or {}).get(d + off)
                    if mk is None or mk.key() != value.comp[d].key():
                        raise Unsupported('selection assigned to a different selection')
                    continue
                if (comp or {}).get(d + off) is not None and value._shape[d].const != 1:
                    raise Unsupported('unselected array assigned to a selection')
                if value._shape[d].const == 1:
                    continue
                if not same_extent(value._shape[d], self._shape[d + off]):
                    if truth(cmp_eq(value._shape[d], 1)):
                        raise Unsupported('extent one')
                    raise ValueError('could not broadcast input array from shape %s into shape %s' % (
                        tuple(map(show, value._shape)), tuple(map(show, self._shape))))
            t = value.val(coord) if not value.islog or self.islog else ite(value.val(coord), ONE, ZERO)
        elif value is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        else:
            raise Unsupported('assigning %s' % type(value).__name__)
        g = c_and(*conds)
        if mask is not None:
            g = c_and(g, mask(coord))
        if self.islog:
            b.cell = Cell(ps, c_or(c_and(g, t), c_and(c_not(g), b.cell.term)), islog=True)
            return
        if self.isint and isinstance(t, Poly) and not t.isint:
            t = fn('int', t)
        b.cell = Cell(ps, ite(g, t, b.cell.term), b.cell.isint)

    # ---- arithmetic
    def _op(f, log=False):                      # noqa
        def op(self, o):
            if isinstance(o, SymList):
                o = o.arr()
            if isinstance(o, (list, tuple)):
                o = toarr(o)
            if not (isnum(o) or isinstance(o, Arr)):
                return NotImplemented
            return lift(f, self, o, log=log)
        return op

    def _rop(f, log=False):                     # noqa
        def op(self, o):
            if isinstance(o, (list, tuple)):
                o = toarr(o)
            if not (isnum(o) or isinstance(o, Arr)):
                return NotImplemented
            return lift(f, o, self, log=log)
        return op

    __add__, __radd__ = _op(lambda a, b: a + b), _rop(lambda a, b: a + b)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _rop(lambda a, b: a - b)
    __mul__, __rmul__ = _op(lambda a, b: a * b), _rop(lambda a, b: a * b)
    __truediv__, __rtruediv__ = _op(lambda a, b: a / b), _rop(lambda a, b: a / b)
    __floordiv__, __rfloordiv__ = _op(floordiv), _rop(floordiv)
    __mod__, __rmod__ = _op(modulo), _rop(modulo)
    __pow__, __rpow__ = _op(power), _rop(power)
    __lt__, __le__ = _op(cmp_lt, True), _op(cmp_le, True)
    __gt__, __ge__ = _op(cmp_gt, True), _op(cmp_ge, True)

    def __eq__(self, o):
        if o is None:
            return False
        if self.dig is not None and isnum(o):
            return digit_eq(self, term(o))
        if self.islog or (isinstance(o, Arr) and o.islog):
            raise Unsupported('comparison of masks')
        r = lift(cmp_eq, self, o, log=True)
        return tidy(r)

    def __ne__(self, o):
        if o is None:
            return True
        return ~(self == o)
    __hash__ = object.__hash__

    def __and__(self, o):
        return lift(c_and, self, o, log=True, boolargs=True)
    __rand__ = __and__

    def __or__(self, o):
        return lift(c_or, self, o, log=True, boolargs=True)
    __ror__ = __or__

    def __invert__(self):
        return lift(c_not, self, log=True, boolargs=True)

    def __neg__(self):
        return lift(neg, self)

    def __pos__(self):
        return lift(lambda x: x, self)

    def __abs__(self):
        return lift(absval, self)

    def _iop(f):                                # noqa
        def op(self, o):
            v = lift(f, self, o)
            if v.ndim != self.ndim:
                raise ValueError('non-broadcastable output operand')
            if self.comp:
                raise Unsupported('in-place on a selection')
            self.store(v)
            return self
        return op
    __iadd__ = _iop(lambda a, b: a + b)
    __isub__ = _iop(lambda a, b: a - b)
    __imul__ = _iop(lambda a, b: a * b)
    __itruediv__ = _iop(lambda a, b: a / b)

    def __bool__(self):
        if all(x.const == 1 for x in self._shape):
            e = self.elem([ZERO] * self.ndim)
            return truth(e if self.islog else cmp_ne(e, 0))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    # ---- methods
    def sum(self, axis=None, **kw):
        return reduce_('sum', self, axis, **kw)

    def mean(self, axis=None, **kw):
        return reduce_('mean', self, axis, **kw)

    def min(self, axis=None):
        return reduce_('min', self, axis)

    def max(self, axis=None):
        return reduce_('max', self, axis)

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported('any(axis)')
        return any_(self)

    def all(self, axis=None):
        r = any_(~self)
        return (not r) if isinstance(r, bool) else ~r

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = axes or tuple(reversed(range(self.ndim)))
        axes = [int(a) % self.ndim for a in axes]
        inv_ = {a: k for k, a in enumerate(axes)}
        maps = [m if m[0] == 'f' else ('a', inv_[m[1]], m[2], m[3]) for m in self.maps]
        return Arr(self.buf, maps, [self._shape[a] for a in axes], {inv_[a]: m for a, m in self.comp.items()})

    def swapaxes(self, a, b):
        a, b = int(a) % self.ndim, int(b) % self.ndim
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def flatten(self, order='C'):
        return ravel(self, order)

    def ravel(self, order='C'):
        return ravel(self, order)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if kw.get('order', 'C') != 'C':
            raise Unsupported('memory order %r' % (kw['order'],))
        return reshape(self, shape)

    def squeeze(self, axis=None):
        key = tuple(0 if x.const == 1 and (axis is None or d == int(axis) % self.ndim) else slice(None) for d, x in enumerate(self._shape))
        return self[key]

    def astype(self, dt, *a, **k):
        i = intdtype(dt)
        if i == 'bool':
            if self.islog:
                return lift(lambda x: x, self, log=True, boolargs=True) if isinstance(self, Arr) else self
            return lift(lambda x: cmp_ne(x, 0), self, log=True)
        r = asint(self) if self.islog else lift(lambda x: fn('int', x) if i and not x.isint else x, self)
        if isinstance(r, Arr):
            r.buf.decl = bool(i)
            r.buf.cell.isint = bool(i)
        return r

    def item(self):
        if all(x.const == 1 for x in self._shape):
            return mknum(self.elem([ZERO] * self.ndim))
        raise ValueError('can only convert an array of size 1')

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __float__(self):
        return float(self.item())


class Picked:
    """values of an array at the positions of a multi-dimensional mask, flattened"""

    def __init__(self, a, m):
        self.a, self.m = a.snapshot(), m

    def sum(self, axis=None):
        m = self.m
        z = Arr.of(self.a._shape, lambda idx: ite(c_and(*[cmp_lt(x, n) for x, n in zip(idx, m.cond._shape)], m.cond.elem(idx)), self.a.elem(idx), ZERO))
        return reduce_('sum', z, None)

    @property
    def size(self):
        return count(self.m.cond)


class SymList:
    """[f(i) for i in range(n)] of symbolic length, optionally after concrete leading items"""

    def __init__(self, head, n, f, isint=False):
        self.head, self.n, self.f, self.isint = list(head), P(n), f, isint

    def arr(self):
        h = len(self.head)
        ts = [term(x) for x in self.head]

        def g(idx):
            t = self.f(idx[0] - h)
            for q in reversed(range(h)):
                t = ite(cmp_eq(idx[0], q), ts[q], t)
            return t
        return Arr.of((self.n + h,), g, isint=self.isint and all(x.isint for x in ts))

    def __radd__(self, o):
        if isinstance(o, list):
            return SymList(o + self.head, self.n, self.f, self.isint)
        return NotImplemented

    def __getitem__(self, k):
        return self.arr()[k]


class Slices:
    """the slices a computation is repeated for: n = product of `dims`; s is an arbitrary one of them, at[d] its index along dimension d.  What is
    computed for s holds for every slice, because s is arbitrary and the iterations of a loop over slices share no state"""

    def __init__(self, dims):
        self.dims = [P(d) for d in dims]
        self.n = ONE
        for d in self.dims:
            self.n = self.n * d
        self.s = ivar('slice')
        self.at = [self.s] if len(self.dims) == 1 else [sel('unravel%d' % q, self.s, isint=True) for q in range(len(self.dims))]
        self.generic = 0

    def facts(self):
        return [cmp_ge(d, 1) for d in self.dims] + [f for a, d in zip(self.at, self.dims) for f in (cmp_ge(a, 0), cmp_lt(a, d))] + \
            [cmp_ge(self.s, 0), cmp_lt(self.s, self.n), cmp_ge(self.n, 1)]

    def number(self, ix):
        """the slice with these indices (row-major)"""
        r = ZERO
        for i, d in zip(ix, self.dims):
            r = r * d + P(i)
        return r

    def inst(self, t, i, ix=None):
        """t, which holds for the arbitrary slice, at slice i (with indices ix along the dimensions)"""
        if ix is not None and len(self.dims) > 1:
            names = {'unravel%d' % q: P(x) for q, x in enumerate(ix)}
            f = lambda n, i_: names.get(n)
            t = map_sels(t, f) if isinstance(t, Poly) else T.map_sels_c(t, f, {})
        return (subst if isinstance(t, Poly) else T.csubst)(t, {atom_of(self.s): P(i)})

    def mentions(self, c):
        return atom_of(self.s) in c.fv


class Seq:
    """one object per slice: the one of the arbitrary slice"""

    def __init__(self, elem):
        self.elem = elem

    def __bool__(self):
        return truth(cmp_ge(S.slices.n, 1))

    def __len__(self):
        raise Unsupported('number of slices')

    def __iter__(self):
        raise Unsupported('iteration over the slices')

    def __getitem__(self, k):
        if isnum(k) and S.ctx.simp(term(k)) == S.ctx.simp(P(S.slices.s)):
            return self.elem
        if isnum(k) and term(k).const is not None and not isinstance(self.elem, (Arr, Num)):
            return self.elem            # read only; the contract of the object says what does not depend on the slice
        raise Unsupported('one of the slices')


class Range:
    """range over symbolic bounds"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), int(step)

    def concrete(self):
        a, b = S.ctx.simp(self.lo), S.ctx.simp(self.hi)
        # a range of fixed small length is unrolled
        d = (b - a).const
        if d is None:
            return None
        n = max(0, -((-int(d)) // self.step)) if self.step > 0 else max(0, -((int(d)) // (-self.step)) * -1)
        if self.step < 0:
            n = max(0, (int(-d) + (-self.step) - 1) // (-self.step))
        if n > 64:
            return None
        out = []
        for q in range(n):
            t = a + self.step * q
            out.append(int(t.const) if t.const is not None else Num(t))
        return out

    def __iter__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('iteration over a symbolic range')
        return iter(c)

    def __len__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported('len of a symbolic range')
        return len(c)


# ------------------------------------------------------------------------------------------------ operations
def intdtype(dt):
    """element type: True for the integers, False for the reals, 'bool', or None for the default"""
    if dt is None:
        return None
    if isinstance(dt, str):
        n = dt
    elif isinstance(dt, type):
        n = dt.__name__
    else:
        n = getattr(dt, '__name__', '').replace('b_', '')
    if n.rstrip('_') == 'bool':
        return 'bool'
    if n in ('int', 'int32', 'int64', 'i4', 'i8', 'integer'):
        return True
    if n in ('float', 'float32', 'float64', 'f4', 'f8', 'd', 'f', 'floating', 'double'):
        return False
    raise Unsupported('element type %r' % (dt,))


def toarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, SymList):
        return x.arr()
    if isinstance(x, Seq):
        a = toarr(x.elem).snapshot()
        return Arr.of((S.slices.n,) + a._shape, lambda ix: S.slices.inst(a.elem(ix[1:]), ix[0]))
    if isinstance(getattr(x, '_a', None), Arr):
        return x._a
    if isnum(x):
        t = term(x)
        return Arr.of((), lambda idx: t, isint=t.isint)
    if isinstance(x, Range):
        return Arr.of((x.hi - x.lo,), lambda idx: x.lo + idx[0], isint=True)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr.of((0,), lambda idx: ZERO)
        if all(isnum(y) for y in x):
            ts = [term(y) for y in x]

            def f(idx):
                t = ts[-1]
                for q in reversed(range(len(ts) - 1)):
                    t = ite(cmp_eq(idx[0], q), ts[q], t)
                return t
            return Arr.of((len(ts),), f, isint=all(t.isint for t in ts))
        return stack([toarr(y) for y in x])
    raise Unsupported('array from %s' % type(x).__name__)


def stack(parts, axis=0):
    if isinstance(parts, Seq) and axis == 0:
        return toarr(parts)
    parts = [toarr(p) for p in parts]
    sh = parts[0]._shape
    for p in parts[1:]:
        if len(p._shape) != len(sh) or not all(same_extent(a, b) for a, b in zip(p._shape, sh)):
            raise ValueError('all input arrays must have the same shape')
    axis = axis % (len(sh) + 1)

    def f(idx):
        r = idx[:axis] + idx[axis + 1:]
        t = parts[-1].elem(r)
        for q in reversed(range(len(parts) - 1)):
            t = ite(cmp_eq(idx[axis], q), parts[q].elem(r), t)
        return t
    return Arr.of(sh[:axis] + (P(len(parts)),) + sh[axis:], f)


def concatenate(parts, axis=0):
    parts = [toarr(p) for p in parts]
    nd = parts[0].ndim
    axis = int(axis) % nd
    for p in parts[1:]:
        if p.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for d in range(nd):
            if d != axis and not same_extent(p._shape[d], parts[0]._shape[d]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs, tot = [], ZERO
    for p in parts:
        offs.append(tot)
        tot = tot + p._shape[axis]

    def f(idx):
        t = None
        for p, o in reversed(list(zip(parts, offs))):
            e = p.elem(idx[:axis] + [idx[axis] - o] + idx[axis + 1:])
            t = e if t is None else ite(cmp_lt(idx[axis], o + p._shape[axis]), e, t)
        return t
    sh = list(parts[0]._shape)
    sh[axis] = tot
    return Arr.of(sh, f)


class IsOne(Exception):
    """an extent is one on this path"""


def bshape(arrs):
    nd = max(a.ndim for a in arrs)
    out, comp = [], {}
    for d in range(nd):
        ext, mk = None, None
        for a in arrs:
            q = d - (nd - a.ndim)
            if q < 0:
                continue
            x = a._shape[q]
            m = a.comp.get(q)
            if x.const == 1 and m is None:
                continue
            if ext is None:
                ext, mk = x, m
                continue
            if (m is None) != (mk is None) or (m is not None and m.key() != mk.key()):
                raise Unsupported('selection combined with something else')
            if not same_extent(ext, x):
                if truth(cmp_eq(x, 1)):
                    raise IsOne(x)
                if truth(cmp_eq(ext, 1)):
                    raise IsOne(ext)
                raise ValueError('operands could not be broadcast together with shapes %s' % [tuple(map(show, a._shape)) for a in arrs])
        out.append(ONE if ext is None else ext)
        if mk is not None:
            comp[d] = mk
    return tuple(out), comp


def lift(f, *vs, log=False, boolargs=False):
    try:
        return lift_(f, *vs, log=log, boolargs=boolargs)
    except IsOne as e:
        vs = [toarr(v) if isinstance(v, (list, tuple, SymList)) else v for v in vs]
        one = e.args[0]
        ws = [Arr.of([ONE if x == one else x for x in v._shape], lambda ix, v=v: v.elem(ix), islog=v.islog) if isinstance(v, Arr) and not v.comp and one in v._shape else v for v in vs]
        if all(a is b for a, b in zip(vs, ws)):
            raise Unsupported('broadcasting depends on an extent being one')
        return lift(f, *ws, log=log, boolargs=boolargs)


def lift_(f, *vs, log=False, boolargs=False):
    vs = [toarr(v) if isinstance(v, (list, tuple, SymList)) else v for v in vs]
    arrs = [v for v in vs if isinstance(v, Arr)]
    conv = []
    for v in vs:
        if isinstance(v, Arr):
            if boolargs:
                if not v.islog:
                    raise Unsupported('logical operation on numbers')
                conv.append(v.val)
            elif v.islog:
                conv.append(lambda idx, v=v: ite(v.val(idx), ONE, ZERO))
            else:
                conv.append(v.val)
        else:
            t = cond_of(v) if boolargs else term(v)
            conv.append(lambda idx, t=t: t)
    if not arrs:
        r = f(*[c([]) for c in conv])
        return mkbool(r) if isinstance(r, Cond) else mknum(r)
    shape, comp = bshape(arrs)
    r = Arr.of(shape, lambda idx: f(*[c(idx) for c in conv]), islog=log, comp=comp)
    if not log:
        r.buf.cell.isint = bool(r.buf.cell.term.isint)
    if not shape:
        e = r.elem([])
        return mkbool(e) if log else mknum(e)
    return r


def tidy(r):
    """a 1-D mask that singles out a hinted position"""
    if r.ndim == 1 and not r.comp and S.hints:
        v = fresh('c')
        c = normal_mask(r.elem([v]), v, r._shape[0])
        q = Arr.of(r._shape, lambda idx: csubst(c, {atom_of(v): idx[0]}), islog=True)
        return q
    return r


def joined(c, ctx):
    """the same condition with differences of partial sums reduced to the terms between (one by one, up to four)"""
    if c.k in ('le', 'lt', 'eq'):
        p = c.a[0]
        sums = [(m[0][0], k) for m, k in p.t if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sum']
        for x, (a, k) in enumerate(sums):
            for b, l in sums[x + 1:]:
                if k + l or a.args[1] != b.args[1]:
                    continue
                if a.args[0] is not b.args[0] or a.args[3] != b.args[3]:
                    continue
                (u, w, e) = (a, b, k) if (T.sub_const(a.args[2], b.args[2]) or -1) > 0 else (b, a, l)
                d = T.sub_const(u.args[2], w.args[2])
                # both ranges are increasing continuations of the common one, whose upper bound is at least one below the lower bound
                if d is None or d < 0 or d > 4 or ctx.decide(cmp_ge(w.args[2], w.args[1] - 1)) is not True:
                    continue
                r = ZERO
                for q in range(int(d)):
                    r = r + subst(u.args[3], {u.args[0]: w.args[2] + 1 + q})
                return joined(T.cmp0(c.k, p - (P(u) - P(w)) * e + r * e), ctx)
        return c
    if c.k == 'not':
        return T.c_not(joined(c.a[0], ctx))
    if c.k in ('and', 'or'):
        return (T.c_and if c.k == 'and' else T.c_or)(*[joined(x, ctx) for x in c.a])
    return c


def any_(a):
    if not isinstance(a, Arr):
        return a if isinstance(a, (bool, Bool)) else bool(a)
    vs = [fresh('q') for _ in a._shape]
    c = a.elem(vs) if a.islog else cmp_ne(a.elem(vs), 0)
    ch = S.ctx.child(*[x for v, n in zip(vs, a._shape) for x in (cmp_ge(v, 0), cmp_lt(v, n))])
    if ch.dead or not ch.feasible():
        return False
    c = ch.simp_cond(c)
    d = ch.decide(joined(c, ch))
    if d is False:
        return False
    if d is True and S.ctx.decide(c_and(*[cmp_ge(n, 1) for n in a._shape])) is True:
        return True
    # the number of positions at which it holds is positive
    t = ite(c, ONE, ZERO)
    for v, n in reversed(list(zip(vs, a._shape))):
        t = mk_sum(v, ZERO, n - 1, t)
    return mkbool(S.ctx.simp_cond(cmp_ge(t, 1)))


def slice_of(s, n):
    """slice on an axis of extent n: (start, step, count)"""
    step = 1 if s.step is None else int(s.step)
    if step not in (1, -1):
        raise Unsupported('slice step %s' % step)

    def norm(x, low, high):
        # Python's clipping
        e = term(x)
        if truth(cmp_lt(e, 0)):
            e = e + n
            if truth(cmp_lt(e, low)):
                return P(low)
            return S.ctx.simp(e)
        if truth(cmp_gt(e, high)):
            return P(high)
        return S.ctx.simp(e)
    if step == 1:
        a = ZERO if s.start is None else norm(s.start, ZERO, n)
        b = n if s.stop is None else norm(s.stop, ZERO, n)
        if a is b:
            return a, 1, ZERO
        c = b - a
        if c.const is not None:
            return a, 1, P(max(int(c.const), 0))
        if not truth(cmp_ge(c, 0)):
            return a, 1, ZERO
        return a, 1, S.ctx.simp(c)
    a = n - 1 if s.start is None else norm(s.start, P(-1), n - 1)
    b = P(-1) if s.stop is None else norm(s.stop, P(-1), n - 1)
    c = a - b
    if c.const is not None:
        return a, -1, P(max(int(c.const), 0))
    if not truth(cmp_ge(c, 0)):
        return a, -1, ZERO
    return a, -1, S.ctx.simp(c)


def reduce_(op, a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, (list, tuple, SymList)):
        a = toarr(a)
    if isnum(a):
        return a
    if isinstance(a, Picked):
        if op == 'sum':
            return a.sum()
        raise Unsupported('reduction of a selection')
    if a.islog:
        a = asint(a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = sorted(int(x) % a.ndim for x in axis)
    else:
        ax = int(axis)
        if not -a.ndim <= ax < a.ndim:
            raise ValueError('axis %d is out of bounds for array of dimension %d' % (ax, a.ndim))
        axes = [ax % a.ndim]
    keep = [d for d in range(a.ndim) if d not in axes]
    a = a.snapshot()

    def f(idx):
        full = [None] * a.ndim
        for k, d in enumerate(keep):
            full[d] = idx[k]
        vs = {}
        for d in axes:
            vs[d] = fresh('r')
            full[d] = vs[d]
        t = a.elem(full)
        num = ONE
        for d in reversed(axes):
            m = a.comp.get(d)
            n = a._shape[d]
            if m is not None:
                g = m.cond.elem([vs[d]])
                if op not in ('sum',):
                    raise Unsupported('reduction of a selection')
                t = ite(g, t, ZERO)
            elif op == 'mean':
                num = num * n
            t = mk_sum(vs[d], ZERO, n - 1, t) if op in ('sum', 'mean') else mk_red(op, vs[d], ZERO, n - 1, t)
        return t / num if op == 'mean' else t
    if keepdims:
        r = Arr.of([a._shape[d] if d in keep else ONE for d in range(a.ndim)], lambda idx: f([idx[d] for d in keep]))
        return r
    if not keep:
        return mknum(f([]))
    return Arr.of([a._shape[d] for d in keep], f, comp={k: a.comp[d] for k, d in enumerate(keep) if d in a.comp},
                  isint=a.isint and op != 'mean')


def cumsum(a, axis=None):
    if isinstance(a, SymList):
        h = len(a.head)
        ts = [term(x) for x in a.head]

        def g(idx):
            v = fresh('u')
            t = mk_sum(v, P(h), idx[0], a.f(v - h))
            for q in range(h):
                t = t + ite(cmp_ge(idx[0], q), ts[q], ZERO)
            return t
        return Arr.of((a.n + h,), g)
    a = toarr(a)
    if a.ndim != 1 or a.comp:
        raise Unsupported('cumsum of more than one dimension')
    a = a.snapshot()

    def f(idx):
        v = fresh('u')
        return mk_sum(v, ZERO, idx[0], a.elem([v]))
    return Arr.of(a._shape, f)


def ravel(a, order='C'):
    if a.ndim == 1:
        return lift(lambda x: x, a)
    if order != 'C':
        raise Unsupported('memory order %r' % (order,))
    r = Flat(a)
    return r


def reshape(a, shape):
    shape = list(shape)
    one = [d for d, x in enumerate(a._shape) if x.const != 1]
    if len(one) <= 1 and sum(1 for x in shape if not (isinstance(x, int) and x == 1) and not (isinstance(x, Num) and x.t.const == 1)) <= 1:
        n = a._shape[one[0]] if one else ONE
        pos = [d for d, x in enumerate(shape) if not (isnum(x) and term(x).const == 1)]
        for d in pos:
            x = term(shape[d])
            if x.const != -1 and not same_extent(x, n):
                raise ValueError('cannot reshape array')
        # a view of the same buffer
        maps = []
        for m in a.maps:
            if m[0] == 'f':
                maps.append(m)
            elif one and m[1] == one[0]:
                maps.append(('a', pos[0] if pos else 0, m[2], m[3]))
            else:
                maps.append(('f', m[3]))
        return Arr(a.buf, maps, [n if d in pos else ONE for d in range(len(shape))])
    want = [term(x) for x in shape]
    to = [d for d, x in enumerate(want) if x.const != 1]
    if len(to) == len(one) and sum(1 for d in to if want[d].const == -1) <= 1 and all(want[d].const == -1 or P(want[d]) == P(a._shape[e]) for d, e in zip(to, one)):
        # only axes of extent one inserted or removed: a view
        new = dict(zip(one, to))
        maps = [m if m[0] == 'f' else ('a', new[m[1]], m[2], m[3]) if m[1] in new else ('f', m[3]) for m in a.maps]
        sh = [ONE] * len(want)
        for d, e in zip(to, one):
            sh[d] = a._shape[e]
        return Arr(a.buf, maps, sh)
    sl = S.slices
    if sl is not None:
        want = [term(x) for x in shape]
        k = len(sl.dims)
        if len(want) == a.ndim and all(P(x) == P(y) for x, y in zip(want, a._shape)):
            return a
        src = a.snapshot()
        if k != 1 and len(want) == a.ndim - k + 1 and want[0] == sl.n and all(P(x) == y for x, y in zip(a._shape[:k], sl.dims)) and all(P(x) == P(y) for x, y in zip(want[1:], a._shape[k:])):
            return Arr.of((sl.n,) + a._shape[k:], lambda ix: src.elem([sl.inst(q, ix[0]) for q in sl.at] + ix[1:]))
        if k != 1 and len(want) == a.ndim + k - 1 and P(a._shape[0]) == sl.n and all(P(x) == y for x, y in zip(want[:k], sl.dims)) and all(P(x) == P(y) for x, y in zip(want[k:], a._shape[1:])):
            return Arr.of(tuple(sl.dims) + a._shape[1:], lambda ix: sl.inst(src.elem([sl.s] + ix[k:]), sl.number(ix[:k]), ix[:k]))
    raise Unsupported('reshape')


class Flat:
    """a flattened multi-dimensional array: only order-independent uses"""

    def __init__(self, a):
        self.a = a.snapshot()

    @property
    def size(self):
        return self.a.size

    ndim = 1

    def _op(f):                                  # noqa
        def op(self, o):
            if isinstance(o, Flat):
                o = o.a
            elif not isnum(o):
                return NotImplemented
            return Flat(lift(f, self.a, o))
        return op

    def _rop(f):                                 # noqa
        def op(self, o):
            if not isnum(o):
                return NotImplemented
            return Flat(lift(f, o, self.a))
        return op
    __add__, __radd__ = _op(lambda a, b: a + b), _rop(lambda a, b: a + b)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _rop(lambda a, b: a - b)
    __mul__, __rmul__ = _op(lambda a, b: a * b), _rop(lambda a, b: a * b)
    __truediv__ = _op(lambda a, b: a / b)

    def __neg__(self):
        return Flat(-self.a)

    def sum(self, axis=None):
        return reduce_('sum', self.a, None)

    def mean(self):
        return reduce_('mean', self.a, None)

    def min(self):
        return reduce_('min', self.a, None)

    def max(self):
        return reduce_('max', self.a, None)

    def _cmp(f):                                 # noqa
        def op(self, o):
            if isinstance(o, Flat):
                o = o.a
            return FlatMask(lift(f, self.a, o, log=True))
        return op
    __lt__, __le__, __gt__, __ge__ = _cmp(cmp_lt), _cmp(cmp_le), _cmp(cmp_gt), _cmp(cmp_ge)

    def __eq__(self, o):
        if self.a.dig is not None:
            return FlatMask(digit_eq(self.a, term(o)))
        return FlatMask(lift(cmp_eq, self.a, o, log=True))
    __hash__ = object.__hash__

    def copy(self):
        return Flat(lift(lambda x: x, self.a))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, FlatMask):
            return FlatPick(self.a, k.m)
        raise Unsupported('index into a flattened array')


class FlatMask:
    def __init__(self, m):
        self.m = m

    def __and__(self, o):
        return FlatMask(self.m & o.m)

    def __or__(self, o):
        return FlatMask(self.m | o.m)

    def __invert__(self):
        return FlatMask(~self.m)

    def __getitem__(self, i):
        if i == 0:
            return self
        raise IndexError('tuple index out of range')

    def sum(self):
        return reduce_('sum', self.m, None)


class FlatPick:
    def __init__(self, a, m):
        self.a, self.m = a.snapshot(), m

    def sum(self, axis=None):
        return reduce_('sum', Arr.of(self.a._shape, lambda idx: ite(self.m.elem(idx), self.a.elem(idx), ZERO)), None)

    @property
    def size(self):
        return reduce_('sum', self.m, None)

    def _op(f):                                  # noqa
        def op(self, o):
            if isinstance(o, FlatPick):
                ps = [P(p) for p in mkparams(self.a.ndim, 'm')]
                if o.m.elem(ps) is not self.m.elem(ps):
                    raise Unsupported('different selections')
                return FlatPick(lift(f, self.a, o.a), self.m)
            if isnum(o):
                return FlatPick(lift(f, self.a, o), self.m)
            return NotImplemented
        return op
    __add__, __sub__, __mul__, __truediv__ = _op(lambda a, b: a + b), _op(lambda a, b: a - b), _op(lambda a, b: a * b), _op(lambda a, b: a / b)

    def mean(self):
        return self.sum() / self.size


def digit_eq(inds, i):
    """np.digitize(values, bins) == i for increasing bins"""
    vals, bins = inds.dig
    n = bins._shape[0]

    yes = lambda c: S.ctx.decide(c) is True
    first = FALSE if yes(cmp_ge(i, 1)) else cmp_eq(i, 0)
    last = FALSE if yes(cmp_lt(i, n)) else cmp_eq(i, n)
    rng = c_and(*[c for c in (cmp_ge(i, 0), cmp_le(i, n)) if not yes(c)])

    def f(idx):
        v = vals.elem(idx)
        lo = c_or(first, cmp_le(bins.elem([i - 1]), v))
        hi = c_or(last, cmp_lt(v, bins.elem([i])))
        return c_and(rng, lo, hi)
    return Arr.of(vals._shape, f, islog=True)


def shim_reset():
    from . import shim
    shim._intern.clear()
    shim._known.clear()
