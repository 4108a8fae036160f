"""Term language of the verifier.

Numeric terms are polynomials (rational coefficients) over hash-consed atoms,
kept in a normal form; conditions are boolean trees over sign literals of such
polynomials.  Arithmetic is mathematical (reals and unbounded integers).
"""
from __future__ import annotations
from fractions import Fraction
import itertools
import math

_uid = itertools.count(1)


class Atom:
    __slots__ = ("uid", "kind", "args", "isint", "fv", "depth", "hasbv", "size")

    def __repr__(self):
        return show_atom(self)


_atoms: dict = {}


def _mk_atom(kind, args, isint=False):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.uid = next(_uid)
        a.kind = kind
        a.args = args
        a.isint = isint
        fv, depth, size = frozenset(), 0, 1
        if kind == "var":
            fv = frozenset((a,))
        elif kind == "bv":
            fv = frozenset((a,))
        else:
            for x in args:
                if isinstance(x, (Poly, Cond)):
                    fv = fv | x.fv
                    depth = max(depth, x.depth)
                    size += x.size
            if kind in ("sum", "red", "last"):
                b = args[0]
                fv = fv - frozenset((b,))
                depth = depth + 1
        a.fv, a.depth, a.size = fv, depth, size
        _atoms[key] = a
    return a


class Poly:
    __slots__ = ("t", "fv", "depth", "_sub", "isint_", "uid", "size", "atomset")

    def __init__(self, t):
        self.t = t

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(P(o)))

    def __rtruediv__(self, o):
        return mul(P(o), inv(self))

    def __pow__(self, n):
        n = int(n)
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = mul(r, self)
        return r

    def __repr__(self):
        return show(self)

    # helpers
    @property
    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    @property
    def isint(self):
        r = self.isint_
        if r is None:
            r = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in self.t)
            self.isint_ = r
        return r


_polys: dict = {}


def _mono_key(m):
    return tuple((a.uid, e) for a, e in m)


def _mkpoly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: _mono_key(x[0])))
    p = _polys.get(items)
    if p is None:
        p = Poly(items)
        fv, depth, size = frozenset(), 0, 1
        aset = set()
        for m, _ in items:
            for a, _e in m:
                if a not in aset:
                    aset.add(a)
                    fv = fv | a.fv
                    depth = max(depth, a.depth)
                size += a.size
        p.fv, p.depth, p.size = fv, depth, size
        p.atomset = frozenset(aset)
        p._sub = None
        p.isint_ = None
        p.uid = next(_uid)
        _polys[items] = p
    return p


ZERO = _mkpoly({})
ONE = _mkpoly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mkpoly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return _mkpoly({(): Fraction(x)})
    if isinstance(x, Fraction):
        return _mkpoly({(): x})
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan/inf constant")
        return _mkpoly({(): Fraction(repr(x))})
    if hasattr(x, "item"):
        return P(x.item())
    if hasattr(x, "as_poly"):
        return x.as_poly()
    raise Unsupported(f"not a numeric term: {type(x)}")


class Unsupported(Exception):
    """The extracted program leaves the verified subset; obligations become undecided."""


def var(name, isint=False):
    return P(_mk_atom("var", (name, isint), isint))


def ivar(name):
    return var(name, True)


_fresh = itertools.count()


def fresh(name="t", isint=True):
    return var(f"{name}!{next(_fresh)}", isint)


PI = var("pi")


def atom_of(p):
    """the single atom p consists of, or None"""
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


def neg(p):
    return _mkpoly({m: -c for m, c in p.t})


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def _mono_mul(m1, m2):
    """product of monomials -> (monomial, poly-or-None): exp atoms merged, see _fix"""
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _finish_mono(d):
    """dict atom->exp  -> (tuple monomial, extra poly factor or None)"""
    exps = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "fn" and a.args[0] == "exp":
            t = mul(a.args[1], P(e))
            exps = t if exps is None else add(exps, t)
        else:
            out.append((a, e))
    if exps is not None and exps.t:
        ea = _mk_atom("fn", ("exp", exps))
        out.append((ea, 1))
    out.sort(key=lambda x: x[0].uid)
    return tuple(out)


_mulcache = {}


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    pc, qc = p.const, q.const
    if pc is not None:
        return _mkpoly({m: c * pc for m, c in q.t})
    if qc is not None:
        return _mkpoly({m: c * qc for m, c in p.t})
    key = (p, q)
    r = _mulcache.get(key)
    if r is not None:
        return r
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m = _finish_mono(_mono_mul(m1, m2))
            d[m] = d.get(m, 0) + c1 * c2
    r = _reduce_inv(_mkpoly(d))
    if len(_mulcache) > 400000:
        _mulcache.clear()
    _mulcache[key] = r
    return r


def _lead(q):
    """leading monomial of a denominator polynomial: the non-constant one with largest degree/uid"""
    best = None
    for m, c in q.t:
        if m == ():
            continue
        k = (sum(e for _, e in m), _mono_key(m))
        if best is None or k > best[0]:
            best = (k, m, c)
    return best[1], best[2]


def _reduce_inv(p):
    """rewrite lead(q)*inv(q) -> (1 - rest(q)*inv(q))/lc so that q*inv(q) = 1 normalises"""
    todo = [a for a in p.atomset if a.kind == "inv"]
    if not todo:
        return p
    for _ in range(60):
        changed = False
        d = {}
        for m, c in p.t:
            md = dict(m)
            hit = None
            for a, e in m:
                if a.kind == "inv" and e > 0:
                    lm, lc = a.args[1], a.args[2]
                    if all(md.get(b, 0) >= f > 0 for b, f in lm):
                        hit = (a, lm, lc)
                        break
            if hit is None:
                d[m] = d.get(m, 0) + c
                continue
            changed = True
            a, lm, lc = hit
            q = a.args[0]
            md2 = dict(md)
            for b, f in lm:
                md2[b] -= f
            md2[a] -= 1
            base = _finish_mono({b: f for b, f in md2.items() if f})
            # base * (1 - rest*inv)/lc
            d[base] = d.get(base, 0) + c / lc
            for m2, c2 in q.t:
                if m2 == lm:
                    continue
                mm = _mono_mul(base, m2)
                mm[a] = mm.get(a, 0) + 1
                mk = _finish_mono({b: f for b, f in mm.items() if f})
                d[mk] = d.get(mk, 0) - c * c2 / lc
        p = _mkpoly(d)
        if not changed:
            return p
    return p


def inv(p):
    c = p.const
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant zero")
        return P(1 / c)
    if len(p.t) == 1:
        m, c = p.t[0]
        d = {}
        extra = ONE
        for a, e in m:
            if a.kind == "inv":
                extra = mul(extra, a.args[0] ** e)
            elif a.kind == "ite":
                # 1/ite(c,a,b) = ite(c,1/a,1/b)
                for _ in range(abs(e)):
                    x = inv(a.args[1]) if e > 0 else a.args[1]
                    y = inv(a.args[2]) if e > 0 else a.args[2]
                    extra = mul(extra, ite(a.args[0], x, y))
            else:
                d[a] = -e
        return mul(_mkpoly({_finish_mono(d): Fraction(1) / c}), extra)
    # common monomial content (minimum exponent of every atom over all monomials)
    common = {}
    monos = [dict(m) for m, _ in p.t]
    for a in p.atomset:
        e = min(dm.get(a, 0) for dm in monos)
        if e != 0 and a.kind != "inv":
            common[a] = e
    if common:
        cm = tuple((a, -e) for a, e in common.items())
        d = {}
        for m, c in p.t:
            k = _finish_mono(_mono_mul(m, cm))
            d[k] = d.get(k, 0) + c
        icm = _mkpoly({_finish_mono(dict(cm)): Fraction(1)})
        return mul(icm, inv_core(_mkpoly(d)))
    return inv_core(p)


def inv_core(p):
    if len(p.t) <= 1:
        return inv(p)
    lm, lc = _lead(p)
    q = _mkpoly({m: c / lc for m, c in p.t})
    a = _mk_atom("inv", (q, lm, Fraction(1)))
    return _mkpoly({((a, 1),): 1 / lc})


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------

def _leadsign(p):
    """sign of the first non-constant coefficient in a structural (uid) order"""
    best = None
    for m, c in p.t:
        k = _mono_key(m)
        if best is None or k > best[0]:
            best = (k, c)
    return 1 if best is None or best[1] > 0 else -1


_PIMONO = None


def _split_pi(p):
    """p = c*pi + rest"""
    global _PIMONO
    if _PIMONO is None:
        _PIMONO = ((atom_of(PI), 1),)
    c = Fraction(0)
    d = {}
    for m, k in p.t:
        if m == _PIMONO:
            c = k
        else:
            d[m] = k
    return c, _mkpoly(d)


def _logc(c):
    return ZERO if c == 1 else P(_mk_atom("fn", ("log", P(c)))) if c > 1 else neg(P(_mk_atom("fn", ("log", P(1 / c)))))


def fn(name, *args):
    args = tuple(P(a) for a in args)
    if name in ("sin", "cos"):
        x = args[0]
        c, rest = _split_pi(x)
        # reduce c*pi modulo pi/2 steps
        n = math.floor(c * 2 + Fraction(1, 2)) if True else 0
        # c = n/2 + r, r in [-1/4,1/4)
        r = c - Fraction(n, 2)
        y = add(rest, mul(P(r), PI))
        n %= 4
        # f(y + n*pi/2)
        if name == "sin":
            s, f = [(1, "sin"), (1, "cos"), (-1, "sin"), (-1, "cos")][n]
        else:
            s, f = [(1, "cos"), (-1, "sin"), (-1, "cos"), (1, "sin")][n]
        if not y.t:
            v = ZERO if f == "sin" else ONE
            return v if s > 0 else neg(v)
        if _leadsign(y) < 0:
            y = neg(y)
            if f == "sin":
                s = -s
        a = P(_mk_atom("fn", (f, y)))
        return a if s > 0 else neg(a)
    if name == "tan":
        return fn("sin", *args) / fn("cos", *args)
    if name == "exp":
        if not args[0].t:
            return ONE
        return P(_mk_atom("fn", ("exp", args[0])))
    if name == "log":
        if args[0].const is not None and args[0].const > 0:
            return _logc(args[0].const)
        if len(args[0].t) == 1:
            # log of a positive number times exponentials
            (m, c), = args[0].t
            if m and c > 0 and all(a.kind == "fn" and a.args[0] == "exp" for a, e in m):
                r = ZERO if c == 1 else _logc(c)
                for a, e in m:
                    r = r + a.args[1] * e
                return r
            if m and c > 0:
                # log(c x) = log c + log x, log(1/x) = -log x where they are defined
                sg = 1 if m[0][1] > 0 else -1
                if c != 1 or sg < 0:
                    r = _logc(c)
                    x = fn("log", _mkpoly({tuple((a, sg * e) for a, e in m): Fraction(1)}))
                    return r + (x if sg > 0 else neg(x))
        return P(_mk_atom("fn", ("log", args[0])))
    if name == "acos":
        if args[0].const == -1:
            return PI
        if args[0].const == 0:
            return PI / 2
    if name in ("asin", "arcsin"):
        return P(_mk_atom("fn", ("arcsin", args[0])))
    if name in ("atan",):
        if args[0].const == 1:
            return PI / 4
    if name == "abs":
        x = args[0]
        if x.const is not None:
            return P(abs(x.const))
        if _leadsign(x) < 0:
            x = neg(x)
        return P(_mk_atom("fn", ("abs", x), x.isint))
    if name == "sqrt":
        return P(_mk_atom("fn", ("sqrt", args[0])))
    if name in ("int", "floor"):
        x = args[0]
        if x.isint:
            return x
        if x.const is not None:
            return P(math.floor(x.const) if name == "floor" else int(x.const))
        return P(_mk_atom("fn", (name, x), True))
    if name == "mod":
        a, b = args
        if a.const is not None and b.const is not None and b.const != 0:
            return P(Fraction(a.const % b.const))
        return P(_mk_atom("fn", ("mod", a, b), a.isint and b.isint))
    if name == "floordiv":
        a, b = args
        bc = b.const
        if bc is not None and bc.denominator == 1 and bc > 0 and a.isint:
            ev, od = {}, {}
            for m, c in a.t:
                (ev if c % bc == 0 else od)[m] = c
            odp = _mkpoly(od)
            evp = _mkpoly({m: c / bc for m, c in ev.items()})
            if odp.const is not None:
                return add(evp, P(math.floor(odp.const / bc)))
            return add(evp, P(_mk_atom("fn", ("floordiv", odp, b), True)))
        return P(_mk_atom("fn", ("floordiv", a, b), True))
    if name in ("max", "min") and len(args) == 2:
        a, b = args
        if a is b:
            return a
        d = sub_const(a, b)
        if d is not None:
            big, small = (a, b) if d >= 0 else (b, a)
            return big if name == "max" else small
        return ite(cmp_le(b, a), a, b) if name == "max" else ite(cmp_le(a, b), a, b)
    return P(_mk_atom("fn", (name,) + args))


def sub_const(a, b):
    return add(a, neg(b)).const


def sel(name, *idx, isint=False):
    return P(_mk_atom("sel", (name,) + tuple(P(i) for i in idx), isint))


# ---------------------------------------------------------------------------
# conditions
# ---------------------------------------------------------------------------

class Cond:
    """kinds: 'true','false','le' (p<=0), 'lt' (p<0), 'eq' (p==0), 'b' (boolean atom),
    'not','and','or'"""
    __slots__ = ("k", "a", "fv", "depth", "uid", "size")

    def __repr__(self):
        return show_cond(self)

    def __and__(self, o):
        return c_and(self, o)

    def __or__(self, o):
        return c_or(self, o)

    def __invert__(self):
        return c_not(self)


_conds: dict = {}


def _mkcond(k, a):
    key = (k, a)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.k, c.a = k, a
        fv, d, s = frozenset(), 0, 1
        for x in a:
            if isinstance(x, (Poly, Cond, Atom)):
                fv = fv | x.fv
                d = max(d, x.depth)
                s += x.size
        c.fv, c.depth, c.size = fv, d, s
        c.uid = next(_uid)
        _conds[key] = c
    return c


TRUE = _mkcond("true", ())
FALSE = _mkcond("false", ())


def _content(p):
    """positive rational g with p/g primitive"""
    num, den = 0, 1
    for _, c in p.t:
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    return Fraction(num, den) if num else Fraction(1)


def _norm(p):
    g = _content(p)
    return p if g == 1 else _mkpoly({m: c / g for m, c in p.t})


def _positive_factor(p):
    """p without the exponentials that are a factor of every term (they are positive)"""
    gm = None
    for m, c in p.t:
        d = {a: e for a, e in m if a.kind == "fn" and a.args[0] == "exp"}
        gm = d if gm is None else {a: e for a, e in gm.items() if d.get(a) == e}
        if not gm:
            return p
    if not gm:
        return p
    return _mkpoly({tuple(x for x in m if x[0] not in gm): c for m, c in p.t})


def cmp0(op, p):
    """p op 0 for op in le lt eq"""
    c = p.const
    if c is not None:
        ok = {"le": c <= 0, "lt": c < 0, "eq": c == 0}[op]
        return TRUE if ok else FALSE
    p = _positive_factor(p)
    if p.const is not None:
        return cmp0(op, p)
    if op == "lt" and p.isint:
        # integers: p<0  <=>  p+1<=0
        return cmp0("le", add(p, ONE))
    if op == "le":
        q = _norm(p)
        if p.isint:
            # tighten the constant of an integer inequality
            g = 0
            for m, c in p.t:
                if m != ():
                    g = math.gcd(g, abs(c.numerator))
            d = {m: c / g for m, c in p.t}
            if () in d:
                d[()] = Fraction(math.ceil(d[()]))
            q = _mkpoly(d)
        # canonical literal: choose representation le(q) with positive lead, else not(lt(-q)) / not(le..)
        if _leadsign(q) < 0:
            r = neg(q)  # q<=0 <=> r>=0 <=> not r<0
            if r.isint:
                return c_not(_mkcond("le", (add(r, ONE),)))
            return c_not(_mkcond("lt", (r,)))
        return _mkcond("le", (q,))
    if op == "lt":
        q = _norm(p)
        if _leadsign(q) < 0:
            return c_not(_mkcond("le", (neg(q),)))
        return _mkcond("lt", (q,))
    q = _norm(p)
    if q.isint:
        # divisibility: gcd of the non-constant coefficients must divide the constant
        g = 0
        for m, c in q.t:
            if m != ():
                g = math.gcd(g, abs(c.numerator))
        c0 = dict(q.t).get((), Fraction(0))
        if g > 1 and c0 % g != 0:
            return FALSE
    if _leadsign(q) < 0:
        q = neg(q)
    return _mkcond("eq", (q,))


def cmp_le(a, b):
    return cmp0("le", add(P(a), neg(P(b))))


def cmp_lt(a, b):
    return cmp0("lt", add(P(a), neg(P(b))))


def cmp_ge(a, b):
    return cmp_le(b, a)


def cmp_gt(a, b):
    return cmp_lt(b, a)


def cmp_eq(a, b):
    return cmp0("eq", add(P(a), neg(P(b))))


def cmp_ne(a, b):
    return c_not(cmp_eq(a, b))


def boolvar(name):
    return _mkcond("b", (_mk_atom("var", (name, "bool")),))


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.k == "not":
        return c.a[0]
    if c.k == "and":
        return c_or(*[c_not(x) for x in c.a])
    if c.k == "or":
        return c_and(*[c_not(x) for x in c.a])
    return _mkcond("not", (c,))


def c_and(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in (c.a if c.k == "and" else (c,)):
            if x.uid not in seen:
                seen.add(x.uid)
                out.append(x)
    for x in out:
        if c_not(x).uid in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.uid)
    return _mkcond("and", tuple(out))


def c_or(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for x in (c.a if c.k == "or" else (c,)):
            if x.uid not in seen:
                seen.add(x.uid)
                out.append(x)
    for x in out:
        if c_not(x).uid in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.uid)
    return _mkcond("or", tuple(out))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.k == "not":
        return ite(c.a[0], b, a)
    # collapse nested ites on the same condition
    aa = atom_of(a)
    if aa is not None and aa.kind == "ite" and aa.args[0] is c:
        a = aa.args[1]
    bb = atom_of(b)
    if bb is not None and bb.kind == "ite" and bb.args[0] is c:
        b = bb.args[2]
    if a is b:
        return a
    return P(_mk_atom("ite", (c, a, b), a.isint and b.isint))


# ---------------------------------------------------------------------------
# binders
# ---------------------------------------------------------------------------

def bv(depth):
    return _mk_atom("bv", (depth,), True)


def solve_for(v, p):
    """p linear in integer var-atom v with coefficient +-1 -> poly e with p==0 <=> v==e, else None"""
    co = None
    d = {}
    for m, c in p.t:
        if m == ((v, 1),):
            co = c
        elif any(v in a.fv for a, _ in m):
            return None
        else:
            d[m] = c
    if co is None:
        return None
    e = mul(_mkpoly(d), P(-1 / co))
    if abs(co) != 1 and not e.isint:
        return None
    return e


def mk_sum(v, lo, hi, body):
    """Sum of body for integer v in lo..hi (0 when empty); v: a var Poly"""
    lo, hi, body = P(lo), P(hi), P(body)
    va = atom_of(v)
    if not body.t:
        return ZERO
    d = sub_const(hi, lo)
    if d is not None and d < 0:
        return ZERO
    if d is not None and d == 0:
        return subst(body, {va: lo})
    out = ZERO
    for m, c in body.t:
        free = [(a, e) for a, e in m if va not in a.fv]
        bound = tuple((a, e) for a, e in m if va in a.fv)
        co = _mkpoly({_finish_mono(dict(free)): c})
        # exp(a(i)+b) splits its free part out
        nb = []
        for a, e in bound:
            if a.kind == "fn" and a.args[0] == "exp":
                fr = {mm: cc for mm, cc in a.args[1].t if not any(va in x.fv for x, _ in mm)}
                if fr:
                    frp = _mkpoly(fr)
                    co = mul(co, fn("exp", mul(frp, P(e))))
                    rest = add(a.args[1], neg(frp))
                    nb.append((atom_of(fn("exp", rest)), e))
                    continue
            nb.append((a, e))
        bound = tuple(nb)
        if not bound:
            # constant summand: length of the range (when non-empty)
            ln = add(add(hi, neg(lo)), ONE)
            out = add(out, mul(co, ite(cmp_le(lo, hi), ln, ZERO)))
            continue
        bp = _mkpoly({_finish_mono(dict(bound)): Fraction(1)})
        out = add(out, mul(co, _mk_sum1(va, lo, hi, bp)))
    return out


def _mk_sum1(va, lo, hi, bp):
    a = atom_of(bp)
    # single-point and guard handling for [guard] * rest
    ites = [x for x, e in bp.t[0][0] if x.kind == "ite" and e == 1 and va in x.args[0].fv
            and (x.args[2] is ZERO or x.args[1] is ZERO)] if len(bp.t) == 1 else []
    for x in ites:
        c, p1, p2 = x.args
        if p1 is ZERO:
            c, p1 = c_not(c), p2
        lits = list(c.a) if c.k == "and" else [c]
        for l in lits:
            if l.k == "eq":
                e = solve_for(va, l.a[0])
                if e is not None:
                    rest = [y for y in lits if y is not l]
                    m = dict(bp.t[0][0])
                    del m[x]
                    other = mul(_mkpoly({_finish_mono(m): bp.t[0][1]}), p1)
                    g = c_and(*rest)
                    sm = {va: e}
                    return ite(c_and(cmp_le(lo, e), cmp_le(e, hi), csubst(g, sm)), subst(other, sm), ZERO)
    if a is not None and a.kind == "ite" and (a.args[2] is ZERO):
        pass
    elif a is not None and a.kind == "ite" and a.args[1] is not ZERO and _has_point(a.args[0], va):
        # ite(i==e & g, x, y) with y != 0:  y + [..](x-y)
        c, x, y = a.args
        vp = P(va)
        return mk_sum(vp, lo, hi, y) + mk_sum(vp, lo, hi, ite(c, add(x, neg(y)), ZERO))
    depth = max(bp.depth, 0) + 1
    b = bv(depth)
    nb = subst(bp, {va: P(b)})
    # note: normalisation inside may have changed the shape; keep as is
    if b not in nb.fv:
        ln = add(add(hi, neg(lo)), ONE)
        return mul(nb, ite(cmp_le(lo, hi), ln, ZERO))
    dd = nb.depth + 1
    if dd != depth:
        b2 = bv(dd)
        nb = subst(nb, {b: P(b2)})
        b = b2
    return P(_mk_atom("sum", (b, lo, hi, nb), nb.isint))


def _has_point(c, va):
    lits = list(c.a) if c.k == "and" else [c]
    return any(l.k == "eq" and solve_for(va, l.a[0]) is not None for l in lits)


def mk_red(op, v, lo, hi, body):
    """max/min reduction over integer v in lo..hi"""
    va = atom_of(v)
    lo, hi, body = P(lo), P(hi), P(body)
    if va not in body.fv:
        return body
    b = bv(body.depth + 1)
    nb = subst(body, {va: P(b)})
    return P(_mk_atom("red", (b, lo, hi, nb, op), nb.isint))


def mk_last(v, lo, hi, cond, val, default, step=1):
    """value of `val` at the last v in lo..hi (in direction step) with cond, else default"""
    va = atom_of(v)
    lo, hi, val, default = P(lo), P(hi), P(val), P(default)
    if cond is FALSE:
        return default
    lits = list(cond.a) if cond.k == "and" else [cond]
    for l in lits:
        if l.k == "eq":
            e = solve_for(va, l.a[0])
            if e is not None:
                sm = {va: e}
                return ite(c_and(cmp_le(lo, e), cmp_le(e, hi), csubst(cond, sm)), subst(val, sm), default)
    if va not in cond.fv and va not in val.fv:
        return ite(c_and(cmp_le(lo, hi), cond), val, default)
    if cond is TRUE or va not in cond.fv:
        n = hi if step > 0 else lo
        return ite(c_and(cmp_le(lo, hi), cond), subst(val, {va: n}), default)
    d = max(cond.depth, val.depth) + 1
    b = bv(d)
    return P(_mk_atom("last", (b, lo, hi, csubst(cond, {va: P(b)}), subst(val, {va: P(b)}), default, step),
                      val.isint and default.isint))


# ---------------------------------------------------------------------------
# substitution
# ---------------------------------------------------------------------------

def subst(p, m, memo=None):
    if not m:
        return p
    if not (p.fv & m.keys()):
        return p
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = {}
    acc = ZERO
    for mono, c in p.t:
        if not any(a.fv & m.keys() for a, _ in mono):
            out[mono] = out.get(mono, 0) + c
            continue
        keep = {}
        prod = ONE
        for a, e in mono:
            if a.fv & m.keys():
                q = subst_atom(a, m, memo)
                if e > 0:
                    prod = mul(prod, q if e == 1 else q ** e)
                else:
                    prod = mul(prod, inv(q) ** (-e))
            else:
                keep[a] = e
        base = _mkpoly({_finish_mono(keep): c})
        acc = add(acc, mul(base, prod))
    r = add(_reduce_inv(_mkpoly(out)), acc)
    memo[p] = r
    return r


def subst_atom(a, m, memo=None):
    k = a.kind
    if k in ("var", "bv"):
        r = m.get(a)
        return P(a) if r is None else P(r)
    if not (a.fv & m.keys()):
        return P(a)
    if memo is None:
        memo = {}
    r = memo.get(a)
    if r is not None:
        return r
    ar = a.args
    if k == "fn":
        r = fn(ar[0], *[subst(x, m, memo) for x in ar[1:]])
    elif k == "sel":
        r = sel(ar[0], *[subst(x, m, memo) for x in ar[1:]], isint=a.isint)
    elif k == "inv":
        r = inv(subst(ar[0], m, memo))
    elif k == "ite":
        c = csubst(ar[0], m, memo)
        if c is TRUE:
            r = subst(ar[1], m, memo)
        elif c is FALSE:
            r = subst(ar[2], m, memo)
        else:
            r = ite(c, subst(ar[1], m, memo), subst(ar[2], m, memo))
    elif k in ("sum", "red", "last"):
        # alpha-rename the bound variable to a fresh one, substitute, rebuild
        b = ar[0]
        v = fresh("s")
        o = {b: v}
        mm = {x: y for x, y in m.items() if x is not b}
        lo, hi = subst(ar[1], mm, memo), subst(ar[2], mm, memo)
        if k == "sum":
            r = mk_sum(v, lo, hi, subst(subst(ar[3], o), mm))
        elif k == "red":
            r = mk_red(ar[4], v, lo, hi, subst(subst(ar[3], o), mm))
        else:
            r = mk_last(v, lo, hi, csubst(csubst(ar[3], o), mm), subst(subst(ar[4], o), mm),
                        subst(ar[5], mm, memo), ar[6])
    else:
        raise Unsupported(f"subst {k}")
    memo[a] = r
    return r


def csubst(c, m, memo=None):
    if not m or not (c.fv & m.keys()):
        return c
    if memo is None:
        memo = {}
    if c.k in ("le", "lt", "eq"):
        return cmp0(c.k, subst(c.a[0], m, memo))
    if c.k == "not":
        return c_not(csubst(c.a[0], m, memo))
    if c.k == "and":
        return c_and(*[csubst(x, m, memo) for x in c.a])
    if c.k == "or":
        return c_or(*[csubst(x, m, memo) for x in c.a])
    return c


def map_sels(p, f, memo=None):
    """rebuild p replacing every select atom (name, idx) by f(name, idx) (None keeps it)"""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    acc = ZERO
    for mono, c in p.t:
        t = P(c)
        for a, e in mono:
            q = _map_atom(a, f, memo)
            t = mul(t, q ** e if e > 0 else inv(q) ** (-e))
        acc = add(acc, t)
    memo[p] = acc
    return acc


def _map_atom(a, f, memo):
    if a.kind in ("var", "bv"):
        return P(a)
    r = memo.get(a)
    if r is not None:
        return r
    ar = a.args
    k = a.kind
    if k == "sel":
        idx = [map_sels(x, f, memo) for x in ar[1:]]
        r = f(ar[0], idx)
        if r is None:
            r = sel(ar[0], *idx, isint=a.isint)
    elif k == "fn":
        r = fn(ar[0], *[map_sels(x, f, memo) for x in ar[1:]])
    elif k == "inv":
        r = inv(map_sels(ar[0], f, memo))
    elif k == "ite":
        r = ite(map_sels_c(ar[0], f, memo), map_sels(ar[1], f, memo), map_sels(ar[2], f, memo))
    elif k in ("sum", "red") and getattr(f, "binder", None) is not None and (r := f.binder(a)) is not None:
        pass                                      # the whole sum (extremum) is known to be mapped to this
    elif k in ("sum", "red", "last"):
        v = fresh("s")
        o = {ar[0]: v}
        lo, hi = map_sels(ar[1], f, memo), map_sels(ar[2], f, memo)
        if k == "sum":
            r = mk_sum(v, lo, hi, map_sels(subst(ar[3], o), f))
        elif k == "red":
            r = mk_red(ar[4], v, lo, hi, map_sels(subst(ar[3], o), f))
        else:
            r = mk_last(v, lo, hi, map_sels_c(csubst(ar[3], o), f, {}), map_sels(subst(ar[4], o), f),
                        map_sels(ar[5], f, memo), ar[6])
    else:
        raise Unsupported(k)
    memo[a] = r
    return r


def map_sels_c(c, f, memo):
    if c.k in ("le", "lt", "eq"):
        return cmp0(c.k, map_sels(c.a[0], f, memo))
    if c.k == "not":
        return c_not(map_sels_c(c.a[0], f, memo))
    if c.k == "and":
        return c_and(*[map_sels_c(x, f, memo) for x in c.a])
    if c.k == "or":
        return c_or(*[map_sels_c(x, f, memo) for x in c.a])
    return c


_selnames_cache = {}


def sel_names(p):
    """names of all arrays selected from in p (a Poly or Cond)"""
    r = _selnames_cache.get(p)
    if r is not None:
        return r
    out = set()
    if isinstance(p, Poly):
        for a in p.atomset:
            out |= _atom_selnames(a)
    elif isinstance(p, Cond):
        for x in p.a:
            if isinstance(x, (Poly, Cond)):
                out |= sel_names(x)
    r = frozenset(out)
    _selnames_cache[p] = r
    return r


def _atom_selnames(a):
    r = _selnames_cache.get(a)
    if r is not None:
        return r
    out = set()
    if a.kind == "sel":
        out.add(a.args[0])
    for x in a.args:
        if isinstance(x, (Poly, Cond)):
            out |= sel_names(x)
    r = frozenset(out)
    _selnames_cache[a] = r
    return r


# ---------------------------------------------------------------------------
# concrete evaluation
# ---------------------------------------------------------------------------

class EvalError(Exception):
    pass


def evaluate(p, env, bvs=None, memo=None):
    """env: name -> number | callable(*idx) for arrays.  bvs: {atom: int}"""
    if bvs is None:
        bvs = {}
    tot = 0
    for m, c in p.t:
        t = c if c.denominator != 1 else c.numerator
        if isinstance(t, Fraction):
            t = float(t) if not all(a.isint for a, _ in m) else t
        for a, e in m:
            if t == 0 and a.kind != "var":
                break
            v = _eval_atom(a, env, bvs)
            if e < 0:
                if v == 0:
                    raise EvalError("division by zero")
                t = t / (v ** (-e))
            else:
                t = t * (v if e == 1 else v ** e)
        tot = tot + t
    if isinstance(tot, Fraction) and tot.denominator == 1:
        tot = tot.numerator
    return tot


def _eval_atom(a, env, bvs):
    k = a.kind
    if k == "bv":
        return bvs[a]
    if k == "var":
        n = a.args[0]
        if n == "pi":
            return math.pi
        if a in bvs:
            return bvs[a]
        if n in env:
            return env[n]
        raise EvalError(f"no value for {n}")
    if k == "sel":
        n = a.args[0]
        idx = [evaluate(x, env, bvs) for x in a.args[1:]]
        if n not in env:
            raise EvalError(f"no value for array {n}")
        return env[n](*idx)
    if k == "fn":
        xs = [evaluate(x, env, bvs) for x in a.args[1:]]
        n = a.args[0]
        if n == "int":
            return int(xs[0])
        if n == "floor":
            return math.floor(xs[0])
        if n == "floordiv":
            return xs[0] // xs[1]
        if n == "mod":
            return xs[0] % xs[1]
        if n == "abs":
            return abs(xs[0])
        f = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "sqrt": math.sqrt,
             "arcsin": math.asin, "acos": math.acos}.get(n)
        if f is None:
            if n in env:
                return env[n](*xs)
            raise EvalError(f"no value for function {n}")
        try:
            return f(float(xs[0]))
        except (ValueError, OverflowError) as e:
            raise EvalError(str(e))
    if k == "inv":
        v = evaluate(a.args[0], env, bvs)
        if v == 0:
            raise EvalError("division by zero")
        return 1.0 / v
    if k == "ite":
        return evaluate(a.args[1] if eval_cond(a.args[0], env, bvs) else a.args[2], env, bvs)
    if k == "sum":
        b, lo, hi, body = a.args
        l, h = int(evaluate(lo, env, bvs)), int(evaluate(hi, env, bvs))
        t = 0
        nb = dict(bvs)
        for i in range(l, h + 1):
            nb[b] = i
            t += evaluate(body, env, nb)
        return t
    if k == "red":
        b, lo, hi, body, op = a.args
        l, h = int(evaluate(lo, env, bvs)), int(evaluate(hi, env, bvs))
        nb = dict(bvs)
        vs = []
        for i in range(l, h + 1):
            nb[b] = i
            vs.append(evaluate(body, env, nb))
        return max(vs) if op == "max" else min(vs)
    if k == "last":
        b, lo, hi, c, val, dflt, step = a.args
        l, h = int(evaluate(lo, env, bvs)), int(evaluate(hi, env, bvs))
        nb = dict(bvs)
        rng = range(h, l - 1, -1) if step > 0 else range(l, h + 1)
        for i in rng:
            nb[b] = i
            if eval_cond(c, env, nb):
                return evaluate(val, env, nb)
        return evaluate(dflt, env, bvs)
    raise EvalError(k)


def eval_cond(c, env, bvs=None):
    if bvs is None:
        bvs = {}
    k = c.k
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "le":
        return evaluate(c.a[0], env, bvs) <= 0
    if k == "lt":
        return evaluate(c.a[0], env, bvs) < 0
    if k == "eq":
        return evaluate(c.a[0], env, bvs) == 0
    if k == "not":
        return not eval_cond(c.a[0], env, bvs)
    if k == "and":
        return all(eval_cond(x, env, bvs) for x in c.a)
    if k == "or":
        return any(eval_cond(x, env, bvs) for x in c.a)
    if k == "b":
        return bool(env[c.a[0].args[0]])
    raise EvalError(k)


# ---------------------------------------------------------------------------
# printing
# ---------------------------------------------------------------------------

def show_atom(a):
    k = a.kind
    if k == "var":
        return str(a.args[0])
    if k == "bv":
        return f"#{a.args[0]}"
    if k == "sel":
        return f"{a.args[0]}[{', '.join(map(show, a.args[1:]))}]"
    if k == "fn":
        return f"{a.args[0]}({', '.join(map(show, a.args[1:]))})"
    if k == "inv":
        return f"1/({show(a.args[0])})"
    if k == "ite":
        return f"ite({show_cond(a.args[0])}, {show(a.args[1])}, {show(a.args[2])})"
    if k == "sum":
        return f"sum({a.args[0]}={show(a.args[1])}..{show(a.args[2])}: {show(a.args[3])})"
    if k == "red":
        return f"{a.args[4]}({a.args[0]}={show(a.args[1])}..{show(a.args[2])}: {show(a.args[3])})"
    if k == "last":
        return f"last({a.args[0]}={show(a.args[1])}..{show(a.args[2])} | {show_cond(a.args[3])}: {show(a.args[4])} else {show(a.args[5])})"
    return f"{k}?"


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        fs = [show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m]
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append("*".join(fs))
    return " + ".join(out)


def show_cond(c):
    if c.k in ("true", "false"):
        return c.k
    if c.k in ("le", "lt", "eq"):
        return f"{show(c.a[0])} {dict(le='<=', lt='<', eq='==')[c.k]} 0"
    if c.k == "not":
        return f"not({show_cond(c.a[0])})"
    if c.k == "b":
        return str(c.a[0].args[0])
    return "(" + (" & " if c.k == "and" else " | ").join(map(show_cond, c.a)) + ")"


def clear_caches():
    _mulcache.clear()


# recurrences found by the loop rule: symbol -> (parameters, defining term, validity condition)
REC = {}
