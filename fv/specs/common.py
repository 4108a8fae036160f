"""Contract obligations over symbolically executed code.

A job runs the verifier on one function of /repo's current source (unbounded sizes, all inputs) and checks each
postcondition; its result lists every obligation with its status:
  proved   discharged for all inputs
  refuted  a concrete assignment of sizes, indices and data falsifies the obligation
  unknown  neither (includes time-outs)
  unsupported  the source uses something outside the verifier's subset, or has another interface than the contract
"""
import os
import sys
import time
import traceback

sys.setrecursionlimit(40000)
from ..terms import *                                        # noqa
from .. import terms as T, prover, loops
from ..fparse import parse_file
from ..fexec import Exec
from ..prover import Ctx, prove_zero, refute, Failure

REPO = os.environ.get('FALWA_REPO', '/repo')
F90 = 'src/falwa/f90_modules'


class Job:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.functions = []
        self.t0 = time.time()
        self.notes = []
        self.crosschecks = 0

    def add(self, oid, status, dt=0.0, detail=None, kind='post'):
        self.obls.append(dict(id=self.name + '/' + oid, status=status, time=round(dt, 3), detail=detail, kind=kind))
        return status == 'proved'

    def zero(self, oid, r, facts, budget=40.0, kind='post'):
        """obligation: term r is zero under the facts, for every assignment satisfying them"""
        t = time.time()
        ctx = facts if isinstance(facts, Ctx) else Ctx(list(facts))
        st = ctx.check()
        if st == 'unsat':
            return self.add(oid, 'vacuous', time.time() - t, 'contradictory assumptions', kind)
        try:
            st, fail = prove_zero(r, ctx, budget)
        except Unsupported as e:
            return self.add(oid, 'unsupported', time.time() - t, str(e), kind)
        if st == 'proved':
            return self.add(oid, 'proved', time.time() - t, None, kind)
        und = [n for n in sel_names(P(r)) if n.startswith('undef:')] if isinstance(r, Poly) else []
        w = None
        if fail is not None:
            try:
                w = refute(fail)
            except Exception as e:
                w = None
                self.notes.append('refute: %r' % (e,))
        if w is not None:
            ints, val, fixed = w
            d = dict(residual=show(fail.residual)[:600], facts=[show_cond(f)[:120] for f in fail.facts[:20]],
                     assignment={k: int(v) for k, v in ints.items()}, difference=val)
            return self.add(oid, 'refuted', time.time() - t, d, kind)
        d = None
        if fail is not None and isinstance(fail.residual, Poly):
            d = dict(residual=show(fail.residual)[:600])
        return self.add(oid, 'unknown', time.time() - t, d or st, kind)

    def eq(self, oid, got, want, facts, budget=40.0, kind='post'):
        return self.zero(oid, P(got) - P(want), facts, budget, kind)

    def nonneg(self, oid, r, facts, kind='post'):
        """obligation: the term is not negative, by its form (products and sums of values that are not negative)"""
        t = time.time()
        ctx = facts if isinstance(facts, Ctx) else Ctx(list(facts))
        if ctx.check() == 'unsat':
            return self.add(oid, 'vacuous', 0, 'contradictory assumptions', kind)
        ok = ctx.nonneg(r)
        return self.add(oid, 'proved' if ok else 'unknown', time.time() - t, None if ok else dict(term=show(r)[:400]), kind)

    def holds(self, oid, cond, facts, kind='post'):
        t = time.time()
        ctx = facts if isinstance(facts, Ctx) else Ctx(list(facts))
        st = ctx.check()
        if st == 'unsat':
            return self.add(oid, 'vacuous', time.time() - t, 'contradictory assumptions', kind)
        r = ctx.decide(cond)
        if r is True:
            return self.add(oid, 'proved', time.time() - t, None, kind)
        # a model of the facts and the negation (integers only) is a counterexample when no data are involved
        st, m = ctx.check(c_not(cond), want_model=True)
        if st == 'unsat':
            return self.add(oid, 'proved', time.time() - t, None, kind)
        d = dict(condition=show_cond(cond)[:400])
        if st == 'sat':
            d['model'] = str(m)[:400]
            if not cond_has_data(cond):
                return self.add(oid, 'refuted', time.time() - t, d, kind)
        return self.add(oid, 'unknown', time.time() - t, d, kind)

    def fact(self, oid, facts, cond, ctx, kind='post'):
        """one of the path facts is the condition"""
        t = time.time()
        pv = prover.Prover(30.0)
        try:
            for f in facts:
                for l in (f.a if f.k == 'and' else [f]):
                    if pv.same_cond(l, cond, ctx, 0, 0):
                        return self.add(oid, 'proved', time.time() - t, None, kind)
            if ctx.child(*facts).decide(cond) is True:
                return self.add(oid, 'proved', time.time() - t, None, kind)
        except prover.Budget:
            pass
        return self.add(oid, 'unknown', time.time() - t, dict(condition=show_cond(cond)[:300], facts=[show_cond(f)[:300] for f in facts[:8]]), kind)

    def bounds(self, ex, extra=(), pre=None):
        """every array access inside its declared bounds, every integer division by a nonzero number, and no read of an
        element never written"""
        groups = {}
        for o in ex.obls:
            groups.setdefault((o.kind, o.text), []).append(o)
        for (kind, text), os_ in groups.items():
            t = time.time()
            bad, det = 'proved', None
            for o in os_:
                ctx = o.ctx.child(*extra) if extra else o.ctx
                if ctx.decide(o.cond) is True:
                    continue
                st, m = ctx.check(c_not(o.cond), want_model=True)
                if st == 'unsat':
                    continue
                if pre is not None and prover.decide_bucket(o.cond, ctx, pre):
                    continue
                det = dict(line=o.line, condition=show_cond(o.cond)[:300], model=str(m)[:300] if m is not None else None)
                bad = 'refuted' if st == 'sat' and not cond_has_data(o.cond) else 'unknown'
                break
            self.add('%s %s' % (kind, text), bad, time.time() - t, det, 'bounds')

    def result(self):
        return dict(job=self.name, obls=self.obls, functions=self.functions, notes=self.notes[:10],
                    crosschecks=self.crosschecks,
                    wall=round(time.time() - self.t0, 2), z3_calls=prover.STATS['z3_calls'], z3_time=round(prover.STATS['z3_time'], 2))


def cond_has_data(c):
    for x in c.a:
        if isinstance(x, Poly):
            if sel_names(x) or any(a.kind not in ('var', 'bv') for a in x.fv):
                return True
            for m, _ in x.t:
                for a, e in m:
                    if a.kind not in ('var', 'bv') or a.isint is not True:
                        return True
        elif isinstance(x, Cond) and cond_has_data(x):
            return True
    return False


def kernel_source(sub):
    """(file, procs) of the shipped module that defines subroutine `sub`"""
    d = os.path.join(REPO, F90)
    cands = sorted(os.listdir(d), key=lambda f: (f != sub + '.f90', f))
    for f in cands:
        if f.endswith('.f90'):
            text = open(os.path.join(d, f)).read()
            if ('subroutine ' + sub) in text.lower():
                return f, text
    raise Unsupported('no module defines ' + sub)


def run_kernel(J, sub, ctx, scalars, need, cut=False):
    """executes subroutine `sub` symbolically; `need`: the dummies the contract talks about"""
    f, text = kernel_source(sub)
    procs = parse_file(text)
    pr = procs[sub]
    miss = [n for n in need if n not in pr.args]
    if miss:
        raise Unsupported('interface of %s changed: no dummy %s' % (sub, ', '.join(miss)))
    ex = Exec(procs, cut=cut)
    cells = ex.run(sub, ctx, scalars)
    J.functions.append('%s/%s:%s' % (F90, f, sub))
    if loops.NOTES:
        J.notes += ['abstracted: ' + str(n) for n in loops.NOTES]
    return ex, cells


def guarded(J, fn):
    try:
        fn()
    except Unsupported as e:
        if os.environ.get('FV_TRACE'):
            traceback.print_exc()
        J.add('execution', 'unsupported', 0, str(e)[:400], 'exec')
    except Exception as e:
        J.add('execution', 'unsupported', 0, 'verifier error: %s' % traceback.format_exc()[-800:], 'exec')
    return J.result()


# ------------------------------------------------------------------ small spec language (indices 1-based as in the kernels)
I = ivar
i, j, k = I('i'), I('j'), I('k')


def rng_(x, lo, hi):
    return [cmp_ge(x, lo), cmp_le(x, hi)]


def S(lo, hi, f, tag='s'):
    """sum over lo..hi of f(v)"""
    v = fresh(tag)
    return mk_sum(v, P(lo), P(hi), P(f(v)))


def mean(n, f):
    return S(1, n, f) / n


def sin(x):
    return fn('sin', P(x))


def cos(x):
    return fn('cos', P(x))


def exp(x):
    return fn('exp', P(x))


def resolve(ex, x):
    """ghost names replaced by their definitions"""
    for why, defs in reversed(ex.cuts):
        m = {}
        for v, (new, old) in defs.items():
            if new.params:
                m[atom_of(new.term).args[0]] = old
            else:
                x = subst(x, {atom_of(new.term): old.term})
        x = map_sels(x, lambda n, idx: m[n].at(list(idx)) if n in m else None)
    return x
