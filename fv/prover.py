"""Entailment and identity prover over fv.terms.

Guards (integer index arithmetic, sign conditions on data) are discharged by z3;
numeric identities are decided by normal form + case splitting, binder alignment
and pointwise comparison of sums.  Every rule is sound for total functions over
the reals/integers; failing to prove says nothing by itself.
"""
from __future__ import annotations
import math
import random
import time
from fractions import Fraction
import z3

from .terms import *
from . import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "splits": 0, "z3_unknown": 0, "eqs": 0}

_zc: dict = {}


def z_atom(a, side):
    k = a.kind
    r = _zc.get(a)
    if r is None:
        nm = f"a{a.uid}"
        if a.isint:
            r = z3.Int(nm)
        else:
            r = z3.Real(nm)
        _zc[a] = r
    if a not in side:
        side[a] = None
        if k == "fn":
            n = a.args[0]
            if n in ("floor", "int"):
                x = z_poly(a.args[1], side)
                if n == "floor":
                    side[a] = z3.And(r <= x, x < r + 1)
                else:
                    side[a] = z3.If(x >= 0, z3.And(r <= x, x < r + 1), z3.And(r >= x, x > r - 1))
            elif n == "floordiv":
                x, y = z_poly(a.args[1], side), z_poly(a.args[2], side)
                side[a] = z3.Implies(y > 0, z3.And(r * y <= x, x < r * y + y))
            elif n == "mod":
                c = a.args[2].const
                if c is not None and a.args[1].isint and c > 0:
                    side[a] = r == (z_poly(a.args[1], side) % int(c))
            elif n == "exp":
                side[a] = r > 0
            elif n == "abs":
                x = z_poly(a.args[1], side)
                side[a] = z3.And(r >= 0, z3.Or(r == x, r == -x))
            elif n in ("sin", "cos"):
                side[a] = z3.And(r <= 1, r >= -1)
            elif n == "sqrt":
                side[a] = z3.And(r >= 0)
        elif k == "var" and a.args[0] == "pi":
            side[a] = z3.And(r > z3.RealVal("3.14159"), r < z3.RealVal("3.1416"))
        elif k == "ite":
            c = z_cond(a.args[0], side)
            side[a] = r == z3.If(c, z_poly(a.args[1], side), z_poly(a.args[2], side))
        elif k == "inv":
            q = z_poly(a.args[0], side)
            side[a] = z3.Or(q == 0, r * q == 1)
    return r


def z_poly(p, side):
    ts = []
    for m, c in p.t:
        fs = []
        if p.isint:
            if c != 1 or not m:
                fs.append(z3.IntVal(int(c)))
        elif c != 1 or not m:
            fs.append(z3.Q(c.numerator, c.denominator))
        for a, e in m:
            x = z_atom(a, side)
            if e < 0:
                key = ("rinv", a)
                r = _zc.get(key)
                if r is None:
                    r = z3.Real(f"ri{a.uid}")
                    _zc[key] = r
                side.setdefault(key, z3.Or(x == 0, r * (z3.ToReal(x) if a.isint else x) == 1))
                x, e = r, -e
            elif a.isint and not p.isint:
                x = z3.ToReal(x)
            for _ in range(e):
                fs.append(x)
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    if not ts:
        return z3.IntVal(0) if p.isint else z3.RealVal(0)
    t = ts[0]
    for u in ts[1:]:
        t = t + u
    return t


def z_cond(c, side):
    k = c.k
    if k == "true":
        return z3.BoolVal(True)
    if k == "false":
        return z3.BoolVal(False)
    if k == "le":
        return z_poly(c.a[0], side) <= 0
    if k == "lt":
        return z_poly(c.a[0], side) < 0
    if k == "eq":
        return z_poly(c.a[0], side) == 0
    if k == "not":
        return z3.Not(z_cond(c.a[0], side))
    if k == "and":
        return z3.And(*[z_cond(x, side) for x in c.a])
    if k == "or":
        return z3.Or(*[z_cond(x, side) for x in c.a])
    if k == "b":
        return z3.Bool(f"b{c.a[0].uid}")
    raise Unsupported(k)


def lits_of(c):
    return list(c.a) if c.k == "and" else [c]


def is_intlit(c):
    if c.k == "not":
        c = c.a[0]
    return c.k in ("le", "eq") and c.a[0].isint


class Ctx:
    """a set of facts (conjunction), persistent"""

    def __init__(self, facts=(), parent=None):
        self.parent = parent
        self.facts = list(parent.facts) if parent else []
        self.fset = set(parent.fset) if parent else set()
        self.rew = dict(parent.rew) if parent else {}
        self._ent = {}
        self._simp = {}
        self._kids = {}
        self._solver = None
        self.dead = False
        for f in facts:
            for l in lits_of(f):
                self._add(l)

    def _add(self, l):
        l = csubst(l, self.rew) if self.rew else l
        for x in lits_of(l):
            if x is TRUE:
                continue
            if x is FALSE:
                self.dead = True
            if x.uid in self.fset:
                continue
            self.fset.add(x.uid)
            self.facts.append(x)
            if x.k == "eq" and x.a[0].isint:
                self._rewrite(x.a[0])
            elif is_intlit(x):
                # does this make an equality?
                p = x.a[0] if x.k == "le" else None
                if x.k == "not":
                    p = None
                    y = x.a[0]
                    if y.k == "le":
                        p = neg(y.a[0]) + ONE  # not(q<=0) -> q>=1 -> -q+1<=0
                if p is not None and len(p.fv) <= 4:
                    self._solver = None
                    self._ent = {}
                    if self._tight(p):
                        self._rewrite(p)

    def _tight(self, p):
        """p<=0 is a fact; does p>=0 follow from another single fact?"""
        n = neg(p)
        c = cmp0("le", n)
        if c is TRUE or c.uid in self.fset:
            return True
        return False

    def _rewrite(self, p):
        cands = []
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and abs(c) == 1:
                e = solve_for(m[0][0], p)
                if e is not None:
                    cands.append((m[0][0], e))
        if not cands:
            return
        # prefer eliminating the most recently created variable (loop/bound indices before sizes)
        v, e = max(cands, key=lambda x: x[0].uid)
        self.rew = {k: subst(x, {v: e}) for k, x in self.rew.items()}
        self.rew[v] = e
        old = self.facts
        self.facts, self.fset = [], set()
        keepeq = []
        for f in old:
            g = csubst(f, {v: e})
            if g is TRUE:
                continue
            if g is FALSE:
                self.dead = True
            if g.uid not in self.fset:
                self.fset.add(g.uid)
                self.facts.append(g)
        self._solver = None
        self._ent = {}
        self._simp = {}

    def child(self, *conds):
        key = tuple(c.uid for c in conds)
        k = self._kids.get(key)
        if k is None:
            k = Ctx(conds, self)
            self._kids[key] = k
        return k

    def solver(self):
        if self._solver is None:
            s = z3.SolverFor("QF_NIRA") if False else z3.Solver()
            s.set("timeout", 4000)
            side = {}
            for f in self.facts:
                s.add(z_cond(f, side))
            for x in side.values():
                if x is not None:
                    s.add(x)
            self._solver = s
            self._side = set(side)
        return self._solver

    def check(self, *conds, want_model=False):
        """'unsat' | 'sat' | 'unknown' for facts & conds"""
        if self.dead:
            return "unsat"
        conds = [csubst(c, self.rew) if self.rew else c for c in conds]
        if any(c is FALSE for c in conds):
            return "unsat"
        s = self.solver()
        t0 = time.time()
        s.push()
        side = {}
        for c in conds:
            s.add(z_cond(c, side))
        for k, x in side.items():
            if x is not None and k not in self._side:
                s.add(x)
        r = s.check()
        STATS["z3_calls"] += 1
        m = None
        if r == z3.sat and want_model:
            m = s.model()
        s.pop()
        STATS["z3_time"] += time.time() - t0
        if r == z3.unknown:
            STATS["z3_unknown"] += 1
        if want_model:
            return str(r), m
        return str(r)

    def decide(self, c):
        """True / False / None"""
        if c is TRUE or c is FALSE:
            return c is TRUE
        if self.dead:
            return True
        if self.rew:
            c = csubst(c, self.rew)
            if c is TRUE or c is FALSE:
                return c is TRUE
        if c.uid in self.fset:
            return True
        if c_not(c).uid in self.fset:
            return False
        r = self._ent.get(c)
        if r is not None:
            return r[0]
        if c.k == "and":
            rs = [self.decide(x) for x in c.a]
            if any(x is False for x in rs):
                v = False
            elif all(x is True for x in rs):
                v = True
            else:
                v = self._zdecide(c)
        elif c.k == "or":
            rs = [self.decide(x) for x in c.a]
            if any(x is True for x in rs):
                v = True
            elif all(x is False for x in rs):
                v = False
            else:
                v = self._zdecide(c)
        else:
            v = self._zdecide(c)
        self._ent[c] = (v,)
        return v

    def nonneg(self, p, depth=0):
        """sound sufficient test for p >= 0: products and sums of values known not to be negative"""
        p = P(p)
        if not p.t:
            return True
        if depth > 12:
            return False
        for x in self.fset_true(p):
            return True
        gm = None                                   # common factor
        for m, c in p.t:
            d = dict(m)
            gm = d if gm is None else {a: min(e, d[a]) for a, e in gm.items() if a in d and (e > 0) == (d[a] > 0)}
        if gm and len(p.t) > 1 and all(self._nn_atom(a, e, depth) for a, e in gm.items()):
            acc = ZERO
            for m, c in p.t:
                d = dict(m)
                for a, e in gm.items():
                    d[a] = d.get(a, 0) - e
                acc = add(acc, T._mkpoly({T._finish_mono({a: e for a, e in d.items() if e}): c}))
            if acc != p:
                return self.nonneg(acc, depth + 1)
        if all(c >= 0 and all(self._nn_atom(a, e, depth) for a, e in m) for m, c in p.t):
            return True
        return self.decide(cmp_ge(p, 0)) is True

    def fset_true(self, p):
        return [1] if self.decide(cmp_ge(p, 0)) is True and p.size < 200 else []

    def _nn_atom(self, a, e, depth):
        if e % 2 == 0:
            return True
        k, ar = a.kind, a.args
        if k == "sel" and ar[0] in NONNEG:
            return True
        if (k == "var" and ar[0] == "pi") or (k == "fn" and ar[0] in ("exp", "abs", "sqrt")):
            return True
        if k == "inv":
            return self.nonneg(ar[0], depth + 1)
        if k == "ite":
            for c, x in ((ar[0], ar[1]), (c_not(ar[0]), ar[2])):
                cx = self.child(c)
                if not (cx.dead or cx.nonneg(x, depth + 1)):
                    return False
            return True
        if k == "sum":
            b, lo, hi, body = ar
            v = _bvvar(b, body)
            cx = self.child(cmp_le(lo, v), cmp_le(v, hi))
            return cx.dead or cx.nonneg(subst(body, {b: v}), depth + 1)
        if k == "fn" and ar[0] in ("cos", "sin"):
            # the argument is pi * r with 0 <= r <= 1/2 (1 for the sine)
            q, r = P(ar[1]), ZERO
            for m, c in q.t:
                d = dict(m)
                pa = [x for x in d if x.kind == "var" and x.args[0] == "pi"]
                if len(pa) != 1 or d[pa[0]] != 1:
                    return False
                del d[pa[0]]
                r = add(r, T._mkpoly({T._finish_mono(d): c}))
            u = P(1) - (2 if ar[0] == "cos" else 1) * r
            return self.ge_cleared(r, depth) and self.ge_cleared(u, depth)
        return self.decide(cmp_ge(T._mkpoly({T._finish_mono({a: 1}): Fraction(1)}), 0)) is True

    def ge_cleared(self, p, depth):
        """p >= 0 after multiplying by the denominators, which must not be negative"""
        for _ in range(6):
            inv_ = {a: e for m, c in p.t for a, e in m if a.kind == "inv" and e > 0}
            if not inv_:
                return self.decide(cmp_ge(p, 0)) is True
            a, e = max(inv_.items(), key=lambda x: x[0].size)
            if self.decide(cmp_gt(a.args[0], 0)) is not True:
                return False
            acc = ZERO
            for m, c in p.t:
                d = dict(m)
                k = d.pop(a, 0)
                acc = add(acc, mul(T._mkpoly({T._finish_mono(d): c}), a.args[0] ** (e - k)))
            p = acc
        return False

    def _zdecide(self, c):
        # a literal whose variables never occur in the facts is undetermined unless trivially bounded
        if self.check(c_not(c)) == "unsat":
            return True
        if self.check(c) == "unsat":
            return False
        return None

    def entails(self, c):
        return self.decide(c) is True

    def feasible(self):
        if self.dead:
            return False
        return self.check() != "unsat"

    # ---- simplification under the facts ------------------------------------
    def simp(self, p):
        if self.dead:
            return ZERO
        r = self._simp.get(p)
        if r is not None:
            return r
        q = subst(p, self.rew) if self.rew else p
        out = {}
        acc = ZERO
        for m, c in q.t:
            if all(_plain(a) for a, _ in m):
                out[m] = c
                continue
            t = P(c)
            for a, e in m:
                x = P(a) if _plain(a) else self._simp_atom(a)
                t = mul(t, x ** e if e > 0 else inv(x) ** (-e))
            acc = add(acc, t)
        r = add(T._mkpoly(out), acc)
        if r is not q and any(not _plain(a) for a in r.atomset):
            r2 = self.simp(r) if r is not p else r
            r = r2
        self._simp[p] = r
        return r

    def _simp_atom(self, a):
        k, ar = a.kind, a.args
        key = ("at", a)
        r = self._simp.get(key)
        if r is not None:
            return r
        if k == "fn":
            r = fn(ar[0], *[self.simp(x) for x in ar[1:]])
            if ar[0] == "abs":
                b = atom_of(r)
                if b is not None and b.kind == "fn" and b.args[0] == "abs":
                    x = b.args[1]
                    d = self.decide(cmp_ge(x, 0))
                    if d is None and NONNEG and self.nonneg(x):
                        d = True
                    if d is True:
                        r = x
                    elif d is False:
                        r = neg(x)
        elif k == "sel":
            r = sel(ar[0], *[self.simp(x) for x in ar[1:]], isint=a.isint)
        elif k == "inv":
            r = inv(self.simp(ar[0]))
        elif k == "ite":
            c = self.simp_cond(ar[0])
            d = self.decide(c)
            if d is True:
                r = self.simp(ar[1])
            elif d is False:
                r = self.simp(ar[2])
            else:
                r = ite(c, self.child(c).simp(ar[1]) if c.k != "or" else self.simp(ar[1]),
                        self.child(c_not(c)).simp(ar[2]) if c.k != "and" else self.simp(ar[2]))
        elif k == "sum":
            b, lo, hi, body = ar
            lo, hi = self.simp(lo), self.simp(hi)
            d = self.decide(cmp_le(lo, hi))
            if d is False:
                r = ZERO
            else:
                v = _bvvar(b, body)
                ch = self.child(cmp_le(lo, v), cmp_le(v, hi))
                nb = ch.simp(subst(body, {b: v})) if not ch.dead else ZERO
                # the rewrite map of ch may have eliminated v (single-point range)
                va = atom_of(v)
                if va in ch.rew:
                    r = ite(cmp_le(lo, hi), subst(nb, {va: ch.rew[va]}), ZERO)
                else:
                    r = mk_sum(v, lo, hi, nb)
        elif k == "red":
            b, lo, hi, body, op = ar
            lo, hi = self.simp(lo), self.simp(hi)
            v = _bvvar(b, body)
            ch = self.child(cmp_le(lo, v), cmp_le(v, hi))
            if atom_of(v) in ch.rew:
                r = subst(ch.simp(subst(body, {b: v})), {atom_of(v): lo})
            else:
                r = mk_red(op, v, lo, hi, ch.simp(subst(body, {b: v})))
        elif k == "last":
            b, lo, hi, c, val, dflt, step = ar
            lo, hi = self.simp(lo), self.simp(hi)
            v = fresh("w")
            ch = self.child(cmp_le(lo, v), cmp_le(v, hi))
            if atom_of(v) in ch.rew:
                r = P(a)
            else:
                c2 = ch.simp_cond(csubst(c, {b: v}))
                r = mk_last(v, lo, hi, c2, ch.simp(subst(val, {b: v})), self.simp(dflt), step)
        else:
            r = P(a)
        self._simp[key] = r
        return r

    def simp_cond(self, c):
        if c.k in ("le", "lt", "eq"):
            return cmp0(c.k, self.simp(c.a[0]))
        if c.k == "not":
            return c_not(self.simp_cond(c.a[0]))
        if c.k in ("and", "or"):
            out = []
            for x in c.a:
                y = self.simp_cond(x)
                d = self.decide(y)
                if d is not None and (d is (c.k == "or")):
                    return TRUE if d else FALSE
                if d is None:
                    out.append(y)
            return c_and(*out) if c.k == "and" else c_or(*out)
        return c


_bvvars = {}


def _bvvar(b, body):
    """a deterministic fresh variable for opening binder b"""
    v = _bvvars.get(b)
    if v is None:
        v = ivar(f"$b{b.args[0]}")
        _bvvars[b] = v
    return v


def _plain(a):
    """no simplification possible inside"""
    if a.kind in ("var", "bv"):
        return True
    return a in _plaincache or _plain2(a)


_plaincache = set()


def _plain2(a):
    if a.kind in ("ite", "sum", "red", "last"):
        return False
    if a.kind == "fn" and a.args[0] == "abs":
        return False
    for x in a.args:
        if isinstance(x, Poly):
            for b in x.atomset:
                if not _plain(b):
                    return False
        elif isinstance(x, Cond):
            return False
    _plaincache.add(a)
    return True


# ---------------------------------------------------------------------------

class Failure:
    def __init__(self, facts, residual, why="residual"):
        self.facts, self.residual, self.why = facts, residual, why

    def __repr__(self):
        r = show(self.residual) if isinstance(self.residual, Poly) else str(self.residual)
        return f"{self.why}: under {' & '.join(map(show_cond, self.facts))[:1500]}\n   residual = {r[:3000]}"


class Budget(Exception):
    pass


def clear_den(p):
    """the numerator: sums in denominators are multiplied out first, then reciprocals"""
    low = {}
    for m, _c in p.t:
        for a, e in m:
            if a.kind == "sum" and e < 0:
                low[a] = min(low.get(a, 0), e)
    for a, e in low.items():
        acc = ZERO
        for m, c in p.t:
            dm = dict(m)
            k = dm.pop(a, 0) - e
            acc = add(acc, mul(T._mkpoly({T._finish_mono(dm): c}), P(a) ** k if k else ONE))
        p = acc
    for _ in range(20):
        invs = {}
        for m, _c in p.t:
            for a, e in m:
                if a.kind == "inv" and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        # deepest first is not needed: multiply by all
        a, e = max(invs.items(), key=lambda x: x[0].size)
        q = a.args[0] ** e
        # multiply each monomial by q^e / inv^k exactly
        acc = ZERO
        for m, c in p.t:
            dm = dict(m)
            k = dm.pop(a, 0)
            base = T._mkpoly({T._finish_mono(dm): c})
            acc = add(acc, mul(base, a.args[0] ** (e - k)))
        p = acc
    return p


def find_split(p, seen=None):
    """a literal to split on: from an ite / abs not under a binder, smallest first"""
    best = None
    stack = [p]
    visited = set()
    while stack:
        x = stack.pop()
        if x in visited:
            continue
        visited.add(x)
        atoms = x.atomset if isinstance(x, Poly) else ()
        for a in atoms:
            if a in visited:
                continue
            visited.add(a)
            if a.kind == "ite":
                for l in _cond_lits(a.args[0]):
                    if best is None or (not is_intlit(best) and is_intlit(l)) or \
                            (is_intlit(best) == is_intlit(l) and l.size < best.size):
                        best = l
                # look inside conditions for nested ites too (through simp)
                stack += [a.args[1], a.args[2]]
            elif a.kind == "fn" and a.args[0] == "abs":
                l = cmp_ge(a.args[1], 0)
                if best is None:
                    best = l
            elif a.kind in ("fn", "sel", "inv"):
                stack += [y for y in a.args if isinstance(y, Poly)]
            elif a.kind in ("sum", "red", "last"):
                stack += [a.args[1], a.args[2]]
    return best


def _cond_lits(c):
    if c.k in ("le", "lt", "eq", "b"):
        return [c]
    if c.k == "not":
        return _cond_lits(c.a[0])
    if c.k in ("and", "or"):
        return [l for x in c.a for l in _cond_lits(x)]
    return []


class Prover:
    def __init__(self, budget=20.0, rules=None):
        self.deadline = time.time() + budget
        self.max_unf = 3
        self.rules = rules or {}   # select name -> unfolding function(idx)->Poly
        self.fail = None

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def zero(self, r, ctx, depth=0, unf=0):
        self.tick()
        if depth > 60:
            self.fail = Failure(ctx.facts, r, "depth")
            return False
        if ctx.dead:
            return True
        r = ctx.simp(r)
        if not r.t:
            return True
        r2 = clear_den(r)
        if not r2.t:
            return True
        r3 = ctx.simp(r2)
        if not r3.t:
            return True
        lit = find_split(r)
        if lit is None:
            lit = find_split(r3)
        if lit is not None:
            STATS["splits"] += 1
            for br in (lit, c_not(lit)):
                ch = ctx.child(br)
                if not ch.feasible():
                    continue
                if not self.zero(r3 if False else r, ch, depth + 1, unf):
                    return False
            return True
        # single-facts equality rewriting by z3 (a tight pair of bounds not noticed syntactically)
        eq = self.find_tight(ctx, r)
        if eq is not None:
            return self.zero(r, ctx.child(eq), depth + 1, unf)
        if any(a.kind == "sum" for a in r3.atomset):
            sh = shift_sums(r3)
            if sh is not r3:
                sh = ctx.simp(sh)
                if not sh.t:
                    return True
                r = r3 = sh
            f0 = self.fail
            for base in ((r, r3) if r is not r3 else (r,)):
                for mode in ("align", "plain"):
                    x = self.pointwise(base, mode, ctx, depth, unf)
                    if x:
                        return True
            sh = shift_sums(r3, True)
            if sh is not r3:
                sh = ctx.simp(sh)
                if not sh.t:
                    return True
                for mode in ("align", "plain"):
                    if self.pointwise(sh, mode, ctx, depth, unf):
                        return True
            if self.unify_sums(r3, ctx, depth, unf):
                return True
        if self.rules and unf < self.max_unf:
            for u in self.unfoldings(r, ctx):
                if u is not r and self.zero(u, ctx, depth + 1, unf + 1):
                    return True
        if self.congruence(r3, ctx, depth, unf):
            return True
        if self.fail is None or depth == 0 or True:
            self.fail = Failure(list(ctx.facts), r)
        return False

    # -- rules -------------------------------------------------------------
    def unfoldings(self, r, ctx):
        """the residual with one application of a defining equation, outermost occurrences first"""
        seen = []
        for m, _ in r.t:
            for a, e in m:
                if a.kind == "sel" and a.args[0] in self.rules and a not in seen:
                    seen.append(a)
        out = []
        seen.sort(key=lambda a: (-int(a.args[0].split("#")[1]) if a.args[0][:4] == "rec:" else 0, a.uid))
        for a in seen:
            x = self.rules[a.args[0]](list(a.args[1:]), ctx)
            if x is not None:
                out.append(replace_atom(r, a, x))
        if not out:
            u = self.unfold(r, ctx)
            if u is not None:
                out.append(u)
        return out[:4]

    def unfold(self, r, ctx):
        hit = [False]

        def f(name, idx):
            rule = self.rules.get(name)
            if rule is None:
                return None
            x = rule(idx, ctx)
            if x is None:
                return None
            hit[0] = True
            return x
        q = map_sels(r, f)
        return q if hit[0] else None

    def find_tight(self, ctx, r):
        """an index difference forced to zero by the facts"""
        seen = {}
        pairs = []
        sels = {}

        def visit(p):
            for a in p.atomset:
                if a in seen:
                    continue
                seen[a] = 1
                if a.kind == "sel":
                    sels.setdefault(a.args[0], []).append(a)
                for x in a.args:
                    if isinstance(x, Poly) and a.kind in ("fn", "sel", "inv"):
                        visit(x)
        visit(r)
        for n, ss in sels.items():
            for i in range(len(ss)):
                for j in range(i):
                    ds = [add(x, neg(y)) for x, y in zip(ss[i].args[1:], ss[j].args[1:])]
                    ds = [d for d in ds if d.t]
                    if ds and all(d.const is None and d.isint for d in ds) and len(ds) == 1:
                        pairs.append(ds[0])
        cache = getattr(ctx, "_tightno", None)
        if cache is None:
            cache = ctx._tightno = set()
        for d in pairs[:60]:
            if d in cache:
                continue
            e = cmp0("eq", d)
            if e is FALSE:
                continue
            if ctx.decide(e) is True:
                n0 = len(ctx.rew)
                ch = ctx.child(e)
                if len(ch.rew) > n0:
                    return e
            cache.add(d)
        return None

    def congruence(self, r, ctx, depth, unf):
        """`last` atoms over the same range with equivalent conditions and equal values are one atom"""
        ls = [a for a in atoms_in_top(r) if a.kind == "last"]
        if len(ls) < 2 or len(ls) > 6:
            return False
        ls.sort(key=lambda a: a.uid)
        for i in range(len(ls)):
            for j in range(i):
                if self.same_last(ls[i], ls[j], ctx, depth, unf):
                    q = replace_atom(r, ls[i], P(ls[j]))
                    if q is not r:
                        return self.zero(q, ctx, depth + 1, unf)
        return False

    def same_last(self, x, y, ctx, depth, unf):
        (b1, lo1, hi1, c1, v1, d1, s1), (b2, lo2, hi2, c2, v2, d2, s2) = x.args, y.args
        if s1 != s2:
            return False
        w = fresh("w")
        if not (self.sub_zero(lo1 - lo2, ctx, depth, unf) and self.sub_zero(hi1 - hi2, ctx, depth, unf)
                and self.sub_zero(d1 - d2, ctx, depth, unf)):
            return False
        ch = ctx.child(cmp_le(lo1, w), cmp_le(w, hi1))
        if ch.dead or not ch.feasible():
            return True
        k1, k2 = csubst(c1, {b1: w}), csubst(c2, {b2: w})
        if not self.same_cond(k1, k2, ch, depth, unf):
            return False
        inn = ch.child(k1)
        if inn.dead or not inn.feasible():
            return True
        return self.sub_zero(subst(v1, {b1: w}) - subst(v2, {b2: w}), inn, depth, unf)

    def sub_zero(self, d, ctx, depth, unf):
        if not d.t:
            return True
        sub = Prover(max(0.1, min(20, self.deadline - time.time())), self.rules)
        sub.max_unf = self.max_unf
        try:
            return sub.zero(d, ctx, depth + 3, unf)
        except Budget:
            return False

    def same_cond(self, a, b, ctx, depth, unf):
        if a is b:
            return True
        a, b = ctx.simp_cond(a), ctx.simp_cond(b)
        if a is b:
            return True
        if a.k == b.k:
            if a.k == "not":
                return self.same_cond(a.a[0], b.a[0], ctx, depth, unf)
            if a.k in ("le", "lt", "eq") and self.sub_zero(a.a[0] - b.a[0], ctx, depth, unf):
                return True
            if a.k in ("and", "or") and len(a.a) == len(b.a):
                rest = list(b.a)
                for x in a.a:
                    for y in rest:
                        if self.same_cond(x, y, ctx, depth, unf):
                            rest.remove(y)
                            break
                    else:
                        rest = None
                        break
                if rest == []:
                    return True
        return ctx.child(a).decide(b) is True and ctx.child(b).decide(a) is True

    def _flatten(self, a):
        """a sum atom -> ([(b, lo, hi)...], body) for nested sums that are the whole body"""
        bs = []
        body = P(a)
        while True:
            x = atom_of(body)
            if x is None or x.kind != "sum":
                break
            b, lo, hi, bd = x.args
            v = fresh("p")
            bs.append((atom_of(v), lo, hi))
            body = subst(bd, {b: v})
        return bs, body

    def _align(self, bs, body):
        """solve the bound variables from the index expressions of a reference select"""
        cands = []
        for a in _all_sels(body):
            vs = [b for b, _, _ in bs if b in a.fv]
            if len(vs) == len(bs):
                cands.append(a)
        cands.sort(key=lambda a: (a.args[0], len(a.args), str(a.size)))
        bset = [b for b, _, _ in bs]
        for a in cands:
            m = {}
            order = []
            ok = True
            for pos, x in enumerate(a.args[1:]):
                inx = [b for b in bset if b in x.fv]
                if not inx:
                    continue
                if len(inx) != 1 or inx[0] in m:
                    ok = False
                    break
                w = ivar(f"$w{pos}_{a.args[0]}")
                e = solve_for(inx[0], add(x, neg(w)))
                if e is None:
                    ok = False
                    break
                m[inx[0]] = e
                order.append((pos, atom_of(w)))
            if ok and len(m) == len(bset):
                return m, [w for _, w in order]
        return None

    def pointwise(self, r, mode, ctx, depth, unf):
        sums, rest = [], ZERO
        for m, c in r.t:
            ss = [(a, e) for a, e in m if a.kind == "sum"]
            if len(ss) == 1 and ss[0][1] == 1:
                dm = dict(m)
                del dm[ss[0][0]]
                co = T._mkpoly({T._finish_mono(dm): c})
                sums.append((co, ss[0][0]))
            elif not ss:
                rest = add(rest, T._mkpoly({m: c}))
            else:
                return False
        if not sums:
            return False
        total = ZERO
        arity = None
        groups = {}
        for co, a in sums:
            bs, body = self._flatten(a)
            al = self._align(bs, body) if mode == "align" else None
            if al is None:
                # positional names for the binders
                m = {b: ivar(f"$q{i}") for i, (b, _, _) in enumerate(bs)}
                ws = [atom_of(m[b]) for b, _, _ in bs]
            else:
                m, ws = al
            guards = []
            for b, lo, hi in bs:
                e = P(m[b])
                guards += [cmp_le(subst(lo, m), e), cmp_le(e, subst(hi, m))]
            key = tuple(sorted(w.uid for w in ws))
            t = mul(co, ite(c_and(*guards), subst(body, m), ZERO))
            groups[key] = add(groups.get(key, ZERO), t)
        if rest.t:
            # absorb the rest at an end point of a range (one-dimensional groups)
            ends = []
            for co, a in sums:
                bs, body = self._flatten(a)
                if len(bs) != 1:
                    continue
                al = self._align(bs, body) if mode == "align" else None
                if al is None:
                    w, sh = ivar("$q0"), None
                    m = {bs[0][0]: w}
                    wa = atom_of(w)
                else:
                    m, ws = al
                    wa = ws[0]
                for end in (bs[0][1], bs[0][2], bs[0][1] - 1, bs[0][2] + 1):
                    # m[b] = end  ->  solve for w
                    e = solve_for(wa, add(P(m[bs[0][0]]), neg(end)))
                    if e is not None and (wa, e) not in ends:
                        ends.append((wa, e))
            for wa, e in ends[:8]:
                g2 = dict(groups)
                k = (wa.uid,)
                g2[k] = add(g2.get(k, ZERO), ite(cmp_eq(P(wa), e), rest, ZERO))
                if self._groups_zero(g2, ctx, depth, unf):
                    return True
            return False
        return self._groups_zero(groups, ctx, depth, unf)

    def _groups_zero(self, groups, ctx, depth, unf):
        save = self.fail
        for k, t in groups.items():
            if not self.zero(t, ctx, depth + 1, unf):
                return False
        self.fail = save
        return True

    @staticmethod
    def orders(a):
        """a sum, and the same sum taken from its end if no array element tells the order"""
        yield P(a)
        b, lo, hi, body = a.args
        if not any(b in x.fv for x in _all_sels(body)):
            v = fresh('o')
            yield mk_sum(v, lo, hi, subst(body, {b: lo + hi - v}))

    def unify_sums(self, r, ctx, depth, unf):
        """identify equal binder atoms (sum/red/last) occurring non-linearly"""
        bs = []
        seen = set()

        def visit(p):
            for a in p.atomset:
                if a in seen:
                    continue
                seen.add(a)
                if a.kind in ("sum",):
                    bs.append(a)
                elif a.kind in ("fn", "sel", "inv"):
                    for x in a.args:
                        if isinstance(x, Poly):
                            visit(x)
        visit(r)
        if len(bs) < 2 or len(bs) > 8:
            return False
        bs.sort(key=lambda a: a.uid)
        for i in range(len(bs)):
            for j in range(i):
                for x in self.orders(bs[i]):
                    d = add(x, neg(P(bs[j])))
                    sub = Prover(max(0.1, min(5, self.deadline - time.time())), self.rules)
                    sub.max_unf = self.max_unf
                    try:
                        ok = sub.zero(d, ctx, depth + 5, unf)
                    except Budget:
                        ok = False
                    if ok:
                        break
                if ok:
                    q = replace_atom(r, bs[i], P(bs[j]))
                    if q is not r:
                        return self.zero(q, ctx, depth + 1, unf)
        return False


def atoms_in_top(p, seen=None):
    """atoms of a term outside binders"""
    if seen is None:
        seen = {}
    for a in p.atomset:
        if a not in seen:
            seen[a] = 1
            if a.kind in ("fn", "sel", "inv"):
                for x in a.args:
                    if isinstance(x, Poly):
                        atoms_in_top(x, seen)
    return seen


def shift_sums(p, all_=False):
    """sums whose lower bound is not a number (or is not 1) start at 1"""
    q = p
    for a in list(p.atomset):
        if a.kind == "sum":
            b, lo, hi, body = a.args
            if lo.const is None or all_ and lo.const != 1:
                v = fresh("h")
                q = replace_atom(q, a, mk_sum(v, ONE, add(add(hi, neg(lo)), ONE), subst(body, {b: add(add(v, lo), neg(ONE))})))
    return q


def replace_atom(p, a, q):
    acc = ZERO
    for m, c in p.t:
        t = P(c)
        for x, e in m:
            y = _replace_in(x, a, q)
            t = mul(t, y ** e if e > 0 else inv(y) ** (-e))
        acc = add(acc, t)
    return acc


def _replace_in(x, a, q):
    if x is a:
        return q
    if x.kind == "inv":
        return inv(replace_atom(x.args[0], a, q))
    if x.kind == "fn":
        return fn(x.args[0], *[replace_atom(y, a, q) for y in x.args[1:]])
    if x.kind == "sel":
        return sel(x.args[0], *[replace_atom(y, a, q) for y in x.args[1:]], isint=x.isint)
    return P(x)


def _all_sels(p):
    out, seen = [], set()

    def vp(p):
        for a in p.atomset:
            va(a)

    def va(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == "sel":
            out.append(a)
        for x in a.args:
            if isinstance(x, Poly):
                vp(x)
            elif isinstance(x, Cond):
                vc(x)

    def vc(c):
        for x in c.a:
            if isinstance(x, Poly):
                vp(x)
            elif isinstance(x, Cond):
                vc(x)
    vp(p)
    return out


def rec_rules():
    """rewriting rules recurrence symbol -> its defining equation (applied only where its validity condition is decided)"""
    rules = {}
    for k in T.REC:
        def rule(idx, ctx, k=k):
            ps, bd, g = T.REC[k]
            m = {p: P(x) for p, x in zip(ps, idx)}
            c = csubst(g, m)
            if c is not TRUE and (ctx is None or ctx.decide(c) is not True):
                return None
            return subst(bd, m)
        rules[k] = rule
    return rules


def prove_zero(r, facts, budget=20.0, rules=None):
    """-> (status, Failure|None) status in proved/failed/timeout"""
    if rules is None and T.REC and isinstance(r, Poly) and any(n in T.REC for n in sel_names(r)):
        rules = rec_rules()
    STATS["eqs"] += 1
    pr = Prover(budget, rules)
    try:
        ctx = facts if isinstance(facts, Ctx) else Ctx(facts)
        for n in ((0, 1, 2, 3) if pr.rules else (3,)):
            pr.max_unf = n
            if pr.zero(P(r), ctx):
                return "proved", None
        return "failed", pr.fail
    except Budget:
        return "timeout", pr.fail
    except RecursionError:
        return "timeout", pr.fail


# ---------------------------------------------------------------------------
# refutation: concrete assignment of sizes, indices and data under the facts
# ---------------------------------------------------------------------------

NONNEG = set()             # arrays all of whose values are known not to be negative (set by a job from a proved contract)


class RandEnv(dict):
    """deterministic pseudo-random values for every array cell and free real variable"""

    def __init__(self, seed, ints, fixed=None):
        super().__init__()
        self.seed = seed
        self.ints = ints
        self.fixed = fixed or {}

    def __contains__(self, k):
        return True

    def __missing__(self, k):
        if k in self.ints:
            return self.ints[k]

        def f(*idx):
            # equal reals may be evaluated with different rounding
            idx = tuple(int(x) if float(x).is_integer() else float("%.9g" % x) for x in idx)
            key = (k, idx)
            if key in self.fixed:
                return self.fixed[key]
            if k in T.REC:
                ps, bd, g = T.REC[k]
                m = {p: P(int(x)) for p, x in zip(ps, idx)}
                if eval_cond(csubst(g, m), self, {}):
                    v = self.fixed[key] = float(evaluate(subst(bd, m), self))
                    return v
            return random.Random(f"{self.seed}:{k}:{idx}").uniform(0.4, 1.7)
        return _Dual(f, random.Random(f"{self.seed}:{k}").uniform(0.4, 1.7))


class _Dual(float):
    def __new__(cls, f, v):
        o = float.__new__(cls, v)
        o.f = f
        return o

    def __call__(self, *a):
        return self.f(*a)


def refute(fail, seed=1, tries=6, bound=14):
    """try to turn a failed identity into a numeric counterexample of the VC:
    returns (ints, value) or None"""
    if fail is None or not isinstance(fail.residual, Poly):
        return None
    if any(n.startswith("havoc:") for n in sel_names(fail.residual)):
        return None        # an abstraction, not a value of the code
    ctx = Ctx(fail.facts)
    fv = set(fail.residual.fv)
    for f in fail.facts:
        fv |= f.fv
    ivs = [a for a in fv if a.kind == "var" and a.isint is True]
    bounds = []
    for a in ivs:
        if not a.args[0].startswith("$"):
            bounds.append(cmp_le(P(a), bound))
    for t in range(tries):
        st, m = ctx.check(*bounds, want_model=True)
        if st != "sat":
            st, m = ctx.check(want_model=True)
            if st != "sat":
                return None
        ints = {}
        for a in ivs:
            v = m.eval(T_z(a), model_completion=True)
            ints[a.args[0]] = v.as_long()
        fixed = {}
        for f in fail.facts:
            for s in _cond_sels(f):
                try:
                    zz = m.eval(T_z(s), model_completion=True)
                    val = float(zz.as_fraction()) if hasattr(zz, "as_fraction") else float(zz.as_long())
                    idx = tuple(evaluate(x, RandEnv(seed + t, ints)) for x in s.args[1:])
                    idx = tuple(int(x) if float(x).is_integer() else float("%.9g" % x) for x in idx)
                    fixed[(s.args[0], idx)] = val
                except Exception:
                    pass
        env = RandEnv(seed + t, ints, fixed)
        try:
            parts = [float(evaluate(T._mkpoly({m_: c_}), env)) for m_, c_ in fail.residual.t]
            val = math.fsum(parts)
            if abs(val) < 1e-9 * math.fsum(map(abs, parts)):
                continue            # rounding (a division by a number that is zero up to rounding, for instance)
        except (EvalError, ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue
        if abs(val) > 1e-6:
            return ints, val, fixed
    return None


def T_z(a):
    return z_atom(a, {})


def _cond_sels(c):
    out = []
    for x in c.a:
        if isinstance(x, Poly):
            out += _all_sels(x)
        elif isinstance(x, Cond):
            out += _cond_sels(x)
    return out


def atoms_in(x, out=None):
    """every atom occurring in a term or condition (bodies of binders included)"""
    if out is None:
        out = {}
    if isinstance(x, Poly):
        for a in x.atomset:
            if a not in out:
                out[a] = 1
                for y in a.args:
                    if isinstance(y, (Poly, Cond)):
                        atoms_in(y, out)
    elif isinstance(x, Cond):
        for y in x.a:
            if isinstance(y, (Poly, Cond)):
                atoms_in(y, out)
    return out


def red_layers(a):
    """nested max/min of one array element -> ([(binder, lo, hi)...], body)"""
    bs = []
    op = a.args[4]
    while a is not None and a.kind == "red" and a.args[4] == op:
        b, lo, hi, body, _ = a.args
        bs.append((b, lo, hi))
        a2 = atom_of(body)
        if a2 is None or a2.kind != "red":
            return bs, body
        a = a2
    return bs, None


def red_facts(c, ctx):
    """defining property of max/min, instantiated at the elements occurring in the condition: max >= element, min <= element
    (only for elements whose index the context places inside the range of the reduction)"""
    ats = list(atoms_in(c))
    out = []
    for a in ats:
        if a.kind != "red":
            continue
        bs, body = red_layers(a)
        s0 = atom_of(body) if body is not None else None
        if s0 is None or s0.kind != "sel":
            continue
        for s in ats:
            if s.kind != "sel" or s.args[0] != s0.args[0] or len(s.args) != len(s0.args) or s is s0:
                continue
            m = {}
            for x, y in zip(s0.args[1:], s.args[1:]):
                v = atom_of(x)
                if v is not None and any(v is b for b, _, _ in bs):
                    m[v] = y
            if len(m) != len(bs) or any(subst(x, m) is not y for x, y in zip(s0.args[1:], s.args[1:])):
                continue
            if all(ctx.decide(c_and(cmp_le(subst(lo, m), m[b]), cmp_le(m[b], subst(hi, m)))) is True for b, lo, hi in bs):
                out.append(cmp_ge(P(a), P(s)) if a.args[4] == "max" else cmp_le(P(a), P(s)))
    return out


def decide_bucket(c, ctx, pre):
    """c under the context, the max/min facts and the precondition `pre` (a function of the atoms of c)"""
    facts = red_facts(c, ctx) + list(pre(atoms_in(c)))
    s = z3.Solver()
    s.set("timeout", 10000)
    side = {}
    goal = z_cond(c_not(c), side)
    for f in list(ctx.facts) + facts:
        s.add(z_cond(f, side))
    for x in side.values():
        if x is not None:
            s.add(x)
    t = time.time()
    if s.check() == z3.unsat:
        return None        # contradictory assumptions prove nothing
    s.add(goal)
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    return r == z3.unsat
