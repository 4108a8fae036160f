"""Cells (scalars and arrays as lambda terms) and the loop rule.

A Cell is (params, term): an array as a function of its (1-based or 0-based)
index variables; a scalar has no params.  `summarise` turns the effect of one
symbolic iteration into the effect of the whole loop.  The rule instances are
inductive invariants of fixed shape ("after iterations lo..n the cell equals
F(n)"), each justified by the shape of the one-iteration transformer, which is
re-derived from the source on every run.
"""
from __future__ import annotations
import time
from .terms import *
from . import terms as T
from .prover import Ctx, prove_zero, Prover


NOTES = []      # havocs and unsupported shapes


class Cell:
    __slots__ = ("params", "term", "isint", "islog")

    def __init__(self, params, term, isint=False, islog=False):
        self.params, self.term, self.isint, self.islog = tuple(params), term, isint, islog

    def at(self, idx):
        if not self.params:
            return self.term
        m = {p: P(e) for p, e in zip(self.params, idx)}
        if self.islog:
            return csubst(self.term, m)
        return subst(self.term, m)


def mkparams(n, tag="p"):
    return tuple(atom_of(ivar(f"${tag}{d}")) for d in range(n))


def sub_ph(term, name, f):
    """replace selects of `name` in term by f(idx)"""
    if name not in sel_names(term):
        return term
    return map_sels(term, lambda n, idx: f(idx) if n == name else None)


def norm_ph(term, name, params, x, ctx, depth=0):
    """replace name[idx] by x wherever idx == params holds on the path to the read"""
    if name not in sel_names(term):
        return term
    acc = ZERO
    for m, c in term.t:
        t = P(c)
        for a, e in m:
            if name in T._atom_selnames(a):
                q = _norm_atom(a, name, params, x, ctx)
            else:
                q = P(a)
            t = mul(t, q ** e if e > 0 else inv(q) ** (-e))
        acc = add(acc, t)
    return acc


def _norm_atom(a, name, params, x, ctx):
    k, ar = a.kind, a.args
    rec = lambda p, c=ctx: norm_ph(p, name, params, x, c)
    if k == "sel" and ar[0] == name:
        idx = ar[1:]
        ok = True
        for p, e in zip(params, idx):
            if e is P(p):
                continue
            if ctx.decide(cmp_eq(P(p), e)) is not True:
                ok = False
                break
        if ok:
            return x
        return sel(name, *[rec(i) for i in idx], isint=a.isint)
    if k == "sel":
        return sel(ar[0], *[rec(i) for i in ar[1:]], isint=a.isint)
    if k == "fn":
        return fn(ar[0], *[rec(i) for i in ar[1:]])
    if k == "inv":
        return inv(rec(ar[0]))
    if k == "ite":
        c = _norm_cond(ar[0], name, params, x, ctx)
        return ite(c, rec(ar[1], ctx.child(ar[0])), rec(ar[2], ctx.child(c_not(ar[0]))))
    if k == "sum":
        b, lo, hi, body = ar
        v = fresh("n")
        ch = ctx.child(cmp_le(lo, v), cmp_le(v, hi))
        return mk_sum(v, rec(lo), rec(hi), norm_ph(subst(body, {b: v}), name, params, x, ch))
    if k == "last":
        b, lo, hi, c, val, d, st = ar
        v = fresh("n")
        ch = ctx.child(cmp_le(lo, v), cmp_le(v, hi))
        return mk_last(v, rec(lo), rec(hi), _norm_cond(csubst(c, {b: v}), name, params, x, ch),
                       norm_ph(subst(val, {b: v}), name, params, x, ch), rec(d), st)
    if k == "red":
        b, lo, hi, body, op = ar
        v = fresh("n")
        ch = ctx.child(cmp_le(lo, v), cmp_le(v, hi))
        return mk_red(op, v, rec(lo), rec(hi), norm_ph(subst(body, {b: v}), name, params, x, ch))
    return P(a)


def _norm_cond(c, name, params, x, ctx):
    if name not in sel_names(c):
        return c
    if c.k in ("le", "lt", "eq"):
        return cmp0(c.k, norm_ph(c.a[0], name, params, x, ctx))
    if c.k == "not":
        return c_not(_norm_cond(c.a[0], name, params, x, ctx))
    if c.k == "and":
        return c_and(*[_norm_cond(y, name, params, x, ctx) for y in c.a])
    if c.k == "or":
        return c_or(*[_norm_cond(y, name, params, x, ctx) for y in c.a])
    return c


def eq_candidates(term, ia, params):
    """(literal, param position, e) with literal: i == e(params), found in term"""
    out = []
    seen = set()

    def vp(p):
        for a in p.atomset:
            if a in seen:
                continue
            seen.add(a)
            for y in a.args:
                if isinstance(y, Poly):
                    vp(y)
                elif isinstance(y, Cond):
                    vc(y)

    def vc(c):
        if c in seen:
            return
        seen.add(c)
        if c.k == "eq" and ia in c.fv:
            e = solve_for(ia, c.a[0])
            if e is not None:
                ps = [d for d, p in enumerate(params) if p in e.fv]
                if len(ps) == 1:
                    out.append((c, ps[0], e))
        for y in c.a:
            if isinstance(y, Poly):
                vp(y)
            elif isinstance(y, Cond):
                vc(y)
    vp(term)
    uniq = {}
    for c, d, e in out:
        uniq.setdefault(c.uid, (c, d, e))
    return list(uniq.values())


def split_touch(E, xa):
    """E as (touched condition, value) with untouched leaves equal to x; None if x used otherwise"""
    if E is P(xa):
        return FALSE, ZERO
    if xa not in E.fv:
        return TRUE, E
    a = atom_of(E)
    if a is not None and a.kind == "ite" and xa not in a.args[0].fv:
        r1 = split_touch(a.args[1], xa)
        r2 = split_touch(a.args[2], xa)
        if r1 is None or r2 is None:
            return None
        c = a.args[0]
        return (c_or(c_and(c, r1[0]), c_and(c_not(c), r2[0])), ite(c, r1[1], r2[1]))
    return None


def split_write(E, xa):
    """E as (condition under which the iteration writes the cell, value written); the value may use the old one"""
    if E is P(xa):
        return FALSE, ZERO
    if xa not in E.fv:
        return TRUE, E
    a = atom_of(E)
    if a is not None and a.kind == "ite" and xa not in a.args[0].fv:
        r1 = split_write(a.args[1], xa)
        r2 = split_write(a.args[2], xa)
        c = a.args[0]
        if r1[0] is FALSE:
            return c_and(c_not(c), r2[0]), r2[1]
        if r2[0] is FALSE:
            return c_and(c, r1[0]), r1[1]
        return (c_or(c_and(c, r1[0]), c_and(c_not(c), r2[0])), ite(c, r1[1], r2[1]))
    return TRUE, E


class LoopResult:
    pass


_ph = itertools_count = __import__("itertools").count()


def is_zero(r, ctx, budget=6.0):
    st, _ = prove_zero(r, ctx, budget)
    return st == "proved"


def summarise(ctx, iv, lo, hi, step, init, run_body, active=(), wset=None):
    """init: name -> Cell.  run_body(state, ctx) -> end state (dict name -> Cell) on placeholders.
    Returns dict of final Cells for the modified names (and 'before' functions are internal)."""
    ia = atom_of(iv)
    asc = step > 0
    n = next(_ph)
    first, last = (lo, hi) if asc else (hi, lo)     # numeric range
    ictx = ctx.child(cmp_le(first, iv), cmp_le(iv, last))
    phname = {}
    st = {}
    cand = wset if wset is not None else list(init)
    for v, c in init.items():
        if v in cand:
            nm = f"ph:{v}#{n}"
            phname[v] = nm
            if c.islog:
                st[v] = Cell((), boolvar(nm), islog=True)
            else:
                ps = mkparams(len(c.params))
                st[v] = Cell(ps, sel(nm, *[P(p) for p in ps], isint=c.isint), c.isint)
        else:
            st[v] = c
    rec0 = list(REC)
    nonempty = cmp_le(first, last)
    if ictx.dead or not ictx.feasible():
        return {}
    end = run_body(dict(st), ictx)
    changed = [v for v in cand if end[v].term is not st[v].term or end[v].params != st[v].params]
    for v in cand:
        if v not in changed:
            pass
    # unchanged placeholders read as their initial value
    E = {}
    for v in changed:
        c = end[v]
        E[v] = c
    unchanged = [v for v in cand if v not in changed]

    def resolve_unchanged(t):
        for u in unchanged:
            nm = phname[u]
            if not init[u].islog and nm in sel_names(t):
                t = sub_ph(t, nm, lambda idx, u=u: init[u].at(idx))
        return t

    final = {}
    before = {}
    solved = {}
    pending = list(changed)
    # logical scalars: only "assigned each iteration" is supported
    body = {}
    for v in pending:
        c = E[v]
        if c.islog:
            body[v] = c.term
        else:
            body[v] = resolve_unchanged(c.term)
    newrecs = [r for r in REC if r not in rec0]

    def deps(v):
        c = body[v]
        names = sel_names(c)
        return {u for u in changed if u != v and phname[u] in names}
    progress = True
    while pending and progress:
        progress = False
        for v in list(pending):
            d = deps(v)
            if d & set(pending):
                continue
            c0 = init[v]
            if c0.islog:
                final[v] = _solve_log(v, body[v], c0, nonempty, ia, last if asc else first)
                before[v] = None
                pending.remove(v)
                progress = True
                continue
            t = body[v]
            for u in d:
                if before.get(u) is None:
                    continue
                t = sub_ph(t, phname[u], lambda idx, u=u: before[u].at(idx))
            body[v] = t
            r = _solve(v, phname[v], t, E[v].params, c0, ictx, ctx, iv, lo, hi, first, last, asc, active)
            if r is None:
                NOTES.append(f"loop over {show(iv)}: no rule for {v}")
                r = _havoc(v, c0, active, n)
            final[v], before[v] = r
            pending.remove(v)
            progress = True
    for v in pending:      # cyclic dependencies
        NOTES.append(f"loop over {show(iv)}: cyclic dependence on {v}")
        final[v], before[v] = _havoc(v, init[v], active, n)
    # recurrence definitions made inside this body may mention our placeholders
    for r in newrecs:
        ps, bd, c = REC[r]
        for u in changed + unchanged:
            nm = phname[u]
            if not init[u].islog and nm in sel_names(bd):
                src = before[u] if u in changed else init[u]
                bd = sub_ph(bd, nm, lambda idx, src=src: src.at(idx))
        REC[r] = (ps, bd, c)
    return final


def _solve_log(v, t, c0, nonempty, ia, lastv):
    c = csubst(t, {ia: lastv})
    return Cell((), c_or(c_and(nonempty, c), c_and(c_not(nonempty), c0.term)), islog=True)


_hv = __import__("itertools").count()


def _havoc(v, c0, active, n):
    k = next(_hv)
    if c0.islog:
        return Cell((), boolvar(f"havoc:{v}#{k}"), islog=True), None
    nm = f"havoc:{v}#{k}"
    ps = c0.params
    f = Cell(ps, sel(nm, *[P(p) for p in ps], *active, isint=c0.isint), c0.isint)
    nm2 = f"havoc:{v}#{k}b"
    b = Cell(ps, sel(nm2, *[P(p) for p in ps], *active, isint=c0.isint), c0.isint)
    return f, b


def _solve(v, ph, t, eparams, c0, ictx, ctx, iv, lo, hi, first, last, asc, active):
    ia = atom_of(iv)
    # use the parameter tuple of the end cell
    ps = eparams
    xa_p = ivar(f"x!{ph}") if c0.isint else var(f"x!{ph}")
    xa = atom_of(xa_p)
    init_at_p = c0.at([P(p) for p in ps])
    if ph in sel_names(t):
        t = norm_ph(t, ph, ps, xa_p, ictx)
        if ph in sel_names(t):
            t = norm_ph(ictx.simp(t), ph, ps, xa_p, ictx)
    mk = lambda term: Cell(ps, term, c0.isint)
    has_other = ph in sel_names(t)

    def rng(kind):
        """numeric (lo, hi) of completed iterations"""
        if kind == "final":
            return first, last
        return (first, iv - 1) if asc else (iv + 1, last)

    def both(f):
        # f(lo, hi, kind) -> term; `before` may keep iv free
        return mk(f(*rng("final"), "final")), mk(f(*rng("before"), "before"))

    if not has_other:
        if xa not in t.fv:
            if ia not in t.fv:
                return both(lambda a, b, k: ite(cmp_le(a, b), t, init_at_p))
            cands = []
        # single touch
        for L, d, e in eq_candidates(t, ia, ps):
            un = ictx.child(c_not(L))
            if un.dead or is_zero(t - xa_p, un, 3.0):
                tt = subst(t, {ia: e, xa: init_at_p})

                def f(a, b, k, tt=tt, e=e):
                    # within the "before" range iv itself is a free outer variable: rename is not needed,
                    # since tt no longer contains the iteration variable
                    g = c_and(cmp_le(a, e), cmp_le(e, b))
                    return ite(g, ctx.child(g).simp(tt), init_at_p) if k == "final" else ite(g, tt, init_at_p)
                return both(f)
        if xa not in t.fv:
            def f(a, b, k):
                n = b if asc else a
                return ite(cmp_le(a, b), subst(t, {ia: n}), init_at_p)
            return both(f)
        # accumulation
        D = subst(t, {xa: ZERO})
        if xa not in D.fv and is_zero(t - xa_p - D, ictx, 8.0):
            D = ictx.simp(D)

            def f(a, b, k):
                if k == "before":
                    w = fresh("b")
                    return init_at_p + mk_sum(w, a, b, subst(D, {ia: w}))
                return init_at_p + mk_sum(iv, a, b, D)
            return both(f)
        # conditional overwrite
        r = split_touch(t, xa)
        if r is None:
            t2 = ictx.simp(t)
            r = split_touch(t2, xa)
        if r is not None:
            c, val = r
            w = fresh("l")

            def f(a, b, k):
                m = {ia: w}
                return mk_last(w, a, b, csubst(c, m), subst(val, m), init_at_p, 1 if asc else -1)
            return both(f)
        # running extremum:  ite(e > x, e, x)
        a_ = atom_of(t)
        if a_ is not None and a_.kind == "ite":
            for e, isx, pos in ((a_.args[1], a_.args[2], True), (a_.args[2], a_.args[1], False)):
                if isx is xa_p and xa not in e.fv:
                    c = a_.args[0] if pos else c_not(a_.args[0])
                    for op, cs in (("max", (cmp_gt(e, xa_p), cmp_ge(e, xa_p))), ("min", (cmp_lt(e, xa_p), cmp_le(e, xa_p)))):
                        if c in cs:
                            w = fresh("m")

                            def f(a, b, k):
                                rd = mk_red(op, w, a, b, subst(e, {ia: w}))
                                comb = fn("max", init_at_p, rd) if op == "max" else fn("min", init_at_p, rd)
                                return ite(cmp_le(a, b), comb, init_at_p)
                            return both(f)
        return None
    # reads of other cells of the same array: single-assignment recurrence
    for L, d, e in eq_candidates(t, ia, ps):
        un = ictx.child(c_not(L))
        if not (un.dead or is_zero(t - xa_p, un, 4.0)):
            continue
        # value written at cell p by iteration e(p)
        V = subst(t, {ia: e})
        g = c_and(cmp_le(first, e), cmp_le(e, last))
        vctx = ctx.child(g)
        V = vctx.simp(V)
        # cells on which the iteration has no effect keep their initial value
        sp = split_write(V, xa)
        tc = TRUE
        if ph not in sel_names(sp[0]):
            tc, V = sp
            if tc is FALSE:
                return None
            g = c_and(g, tc)
            vctx = vctx.child(tc)
            V = vctx.simp(V)
        V = subst(V, {xa: init_at_p})
        if ph not in sel_names(V):
            def f(a, b, k, V=V, e=e):
                return ite(c_and(tc, cmp_le(a, e), cmp_le(e, b)), V, init_at_p)
            return both(f)
        # cells read relative to the written cell, along dimension d
        eqs = add(P(ia), neg(e))
        reads = []
        bad = []

        # e = s*p_d + rest, s = +-1 ; iteration index of a read cell q: e[p_d := q_d, others q]
        def iter_of(idx):
            return subst(e, {p: x for p, x in zip(ps, idx)})

        def classify(idx):
            it = iter_of(idx)
            earlier = cmp_lt(it, e) if asc else cmp_gt(it, e)
            later = cmp_ge(it, e) if asc else cmp_le(it, e)   # not touched before this iteration
            return it, earlier, later
        k = f"rec:{v}#{next(_hv)}"
        R = lambda idx: sel(k, *idx, *active, isint=c0.isint)

        def finalval(idx):
            it = iter_of(idx)
            tq = csubst(tc, {p: x for p, x in zip(ps, idx)})
            return ite(c_and(tq, cmp_le(first, it), cmp_le(it, last)), R(idx), c0.at(idx))

        def rd(idx):
            it, earlier, later = classify(idx)
            reads.append(idx)
            if vctx.decide(earlier) is True:
                return finalval(idx)
            if vctx.decide(later) is True:
                return c0.at(idx)
            # bound variables inside sums: decide is relative to unknown values
            bad.append(idx)
            return finalval(idx)
        # closed form: V = ph[p - s e_d] + rest
        V2 = None if ps[d] in tc.fv else _prefix(V, ph, ps, d, e, c0, first, last, asc, vctx)
        if V2 is not None:
            def f(a, b, kk, V2=V2, e=e):
                return ite(c_and(tc, cmp_le(a, e), cmp_le(e, b)), V2, init_at_p)
            return both(f)
        nb = vctx.simp(sub_ph(V, ph, rd))
        if bad:
            continue
        if k not in sel_names(nb):
            def f(a, b, kk, e=e, nb=nb):
                return ite(c_and(tc, cmp_le(a, e), cmp_le(e, b)), nb, init_at_p)
            return both(f)
        REC[k] = ([*ps, *[atom_of(a) for a in active]], nb, g)

        def f(a, b, kk, e=e):
            return ite(c_and(tc, cmp_le(a, e), cmp_le(e, b)), R([P(p) for p in ps]), init_at_p)
        return both(f)
    return None


def _prefix(V, ph, ps, d, e, c0, first, last, asc, vctx):
    """V = ph[.., p_d -+ 1, ..] + D(p)  ->  init at the start + sum of D"""
    hits = []

    def f(name, idx):
        if name == ph:
            hits.append(tuple(idx))
            return var("x!prefix")
        return None
    W = map_sels(V, f)
    xa = atom_of(var("x!prefix"))
    hs = set(hits)
    if len(hs) != 1:
        return None
    idx = hs.pop()
    for dd, (p, x) in enumerate(zip(ps, idx)):
        if dd != d and x is not P(p):
            return None
    it = subst(e, {ps[d]: idx[d]})
    delta = sub_const(it, e)
    if delta != (-1 if asc else 1):
        return None
    D = subst(W, {xa: ZERO})
    if xa in D.fv or not is_zero(W - var("x!prefix") - D, vctx, 4.0):
        return None
    # cell index whose iteration is first (asc) / last (desc), one before the start
    start_it = (first - 1) if asc else (last + 1)
    pstart = solve_for(ps[d], add(e, neg(start_it)))
    if pstart is None:
        return None
    base = subst(c0.at([P(p) for p in ps]), {ps[d]: pstart})
    w = fresh("c")
    # sum over iterations up to e(p)
    pw = solve_for(ps[d], add(e, neg(w)))
    Dw = subst(D, {ps[d]: pw})
    if asc:
        return base + mk_sum(w, first, e, Dw)
    return base + mk_sum(w, e, last, Dw)


def unfold_rules():
    """rewriting rules rec symbol -> its defining equation (valid inside its range)"""
    rules = {}
    for k in REC:
        def rule(idx, ctx, k=k):
            ps, bd, g = REC[k]
            m = {p: P(x) for p, x in zip(ps, idx)}
            c = csubst(g, m)
            if ctx is not None and ctx.decide(c) is not True:
                return None
            return subst(bd, m)
        rules[k] = rule
    return rules
