"""Obligations over the Python part of the package, executed symbolically from the working tree (fv.py)."""
from .common import *                                        # noqa
from . import common
from ..py import values as V
from ..py.values import S as PS, Arr, Num, Bool, SymList, Flat, term, isnum, toarr
from ..py.interp import World

s_common = common.S


class Out:
    """outcome of one path: value or exception"""

    def __init__(self, pc, ctx, value=None, exc=None):
        self.pc, self.ctx, self.value, self.exc = pc, ctx, value, exc
        self.calls, self.touched = list(PS.calls), list(PS.touched)


class PyJob(Job):
    def __init__(self, name, *a, **k):
        super().__init__(name + (' (integers)' if INTS[0] else ''), *a, **k)
        self.kept = set()               # module and class state that a run changed

    def result(self):
        """the functions under contract keep nothing outside their arguments and objects: what is proved from the state after
        import then holds in any history of calls"""
        self.add('no state outside the objects', 'unknown' if self.kept else 'proved', 0, sorted(self.kept)[:5] or None, 'exec')
        return super().result()

    def begin(self, facts, hints=(), externals=None, contracts=None):
        """fresh state under the preconditions `facts`"""
        PS.begin(facts, hints)
        V.shim_reset()
        self.world = World(externals=externals, repo=REPO, contracts=contracts)
        return self.world

    def explore(self, run, name=''):
        """one Out per feasible path of `run()`"""
        def one():
            PS.calls, PS.touched = [], []
            self.world.state(restore=True)
            try:
                return Out([], None, run())
            except Unsupported:
                raise
            except Exception as e:
                if os.environ.get('FV_TRACE'):
                    traceback.print_exc()
                return Out([], None, None, e)
            finally:
                self.kept |= set(self.world.state())
        res = []
        for pc, ctx, o in V.paths(one):
            o.pc, o.ctx = pc, ctx
            res.append(o)
        self.functions += sorted(f for f in self.world.functions if f not in self.functions)
        return res

    def normal(self, outs, oid='no exception'):
        """obligation: under the preconditions no path ends in an exception; returns the paths that end normally"""
        bad = [o for o in outs if o.exc is not None]
        ok = [o for o in outs if o.exc is None]
        t = time.time()
        for o in bad:
            # a path condition on sizes alone that is satisfiable is a counterexample
            st, m = o.ctx.check(want_model=True)
            d = dict(exception='%s: %s' % (type(o.exc).__name__, str(o.exc)[:200]), path=[show_cond(c)[:200] for c in o.pc], model=str(m)[:300])
            data = any(cond_has_data(c) for c in o.pc)
            self.add(oid, 'refuted' if st == 'sat' and not data else 'unknown', time.time() - t, d, 'exec')
            return ok
        self.add(oid, 'proved' if ok else 'vacuous', time.time() - t, None, 'exec')
        return ok

    def frame(self, outs, oid='arguments unchanged'):
        """obligation: no buffer owned by the caller is written"""
        t = sorted({str(o) for x in outs for o, _ in x.touched})
        self.add(oid, 'proved' if not t else 'refuted', 0, None if not t else dict(written=t), 'frame')

    def elem(self, oid, outs, get, want, shape=None, names='ijkl'):
        """obligation: on every path the array get(value) has this shape and element want(indices) (0-based)"""
        for n, o in enumerate(outs):
            tag = oid if len(outs) == 1 else '%s (path %d)' % (oid, n + 1)
            a = get(o.value)
            if isnum(a):
                self.eq(tag, term(a), want(), o.ctx)
                continue
            a = toarr(a)
            if a.comp:
                raise Unsupported('selection returned')
            sh = a._shape if shape is None else tuple(P(x) for x in shape)
            if len(sh) != a.ndim:
                self.add(tag + ': dimensions', 'refuted', 0, dict(got=[show(x) for x in a._shape], want=[show(x) for x in sh]))
                continue
            if shape is not None:
                self.holds(tag + ': shape', c_and(*[cmp_eq(x, y) for x, y in zip(a._shape, sh)]), o.ctx)
            idx = [ivar(names[d]) for d in range(a.ndim)]
            R = [f for x, nn in zip(idx, sh) for f in (cmp_ge(x, 0), cmp_lt(x, nn))]
            w = want(*idx)
            if isinstance(w, list):
                # [(label, condition, term)]: one obligation per region
                for lab, cs, t in w:
                    self.eq('%s: %s' % (tag, lab), a.elem(idx), t, o.ctx.child(*R, *cs))
            else:
                self.eq(tag, a.elem(idx), w, o.ctx.child(*R))


INTS = [False]          # the caller's fields hold machine integers (the geometry stays real)
REALS = {'dmu', 'area', 'ylat', 'clat', 'dd', 'mu', 'height', 'dphi'}


def integers(job):
    """the same contracts for a caller whose arrays have an integer element type"""
    INTS[0] = True
    try:
        return job()
    finally:
        INTS[0] = False


def arr(name, *shape, owner=True):
    """an input array of the caller"""
    return Arr.symbol(name, [P(x) for x in shape], INTS[0] and name not in REALS, owner=name if owner else None)


def x_(name, *ix):
    """its elements"""
    return sel(name, *[P(q) for q in ix], isint=INTS[0] and name not in REALS)


def num(name):
    return Num(var(name))


def inum(name):
    return Num(ivar(name))


def rep(x, m):
    return subst(P(x), m)
