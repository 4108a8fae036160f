"""The compiled kernels as their Python callers see them: the f2py interface, derived on every run from the declarations in the
shipped Fortran source.  A call checks the shapes of its arguments against the declared extents (recorded as a precondition of the
call), records the arguments, and returns fresh functions of the call for the intent(out) arrays; what those functions are is the
business of the kernel's own contract."""
import os
from .values import *                                       # noqa
from . import values as V

ALL = ['compute_qgpv', 'compute_qgpv_direct_inv', 'compute_qref_and_fawa_first', 'matrix_b4_inversion', 'matrix_after_inversion', 'upward_sweep',
       'compute_flux_dirinv_nshem', 'compute_reference_states', 'compute_lwa_only_nhn22']


def dimexpr(e, env):
    if e[0] == 'int':
        return P(e[1])
    if e[0] == 'name':
        return env[e[1]]
    if e[0] == 'bin':
        a, b = dimexpr(e[2], env), dimexpr(e[3], env)
        return a + b if e[1] == '+' else a - b if e[1] == '-' else a * b if e[1] == '*' else V.floordiv(a, b)
    if e[0] in ('neg', 'un'):
        return neg(dimexpr(e[-1], env))
    raise Unsupported('extent %r' % (e,))


def names_in(e, out):
    if isinstance(e, tuple):
        if e and e[0] == 'name':
            out.append(e[1])
        else:
            for x in e:
                names_in(x, out)
    return out


def implicit(a):
    """a dummy without a declaration: implicit typing"""
    return dict(type='i' if a[0] in 'ijklmn' else 'r', dims=None, intent='in')


class Kernel:
    def __init__(self, name, proc):
        self.name, self.p = name, proc
        d = self.decls = {a: proc.decls.get(a) or implicit(a) for a in proc.args}
        self.args = proc.args
        self.ins = [a for a in proc.args if (d[a]['intent'] or 'in') in ('in', 'inout')]
        self.outs = [a for a in proc.args if d[a]['intent'] == 'out']
        self.inout = [a for a in proc.args if d[a]['intent'] == 'inout']
        arrays = [a for a in self.ins if d[a]['dims']]
        used = set()
        for a in arrays:
            for lo, hi in d[a]['dims']:
                ns = names_in(lo, []) + names_in(hi, [])
                if len(ns) == 1:
                    used.add(ns[0])
        self.opt = [a for a in self.ins if not d[a]['dims'] and d[a]['type'] == 'i' and a in used]
        self.req = [a for a in self.ins if a not in self.opt]

    def __call__(self, *pos, **kw):
        order = self.req + self.opt
        low = {k.lower(): v for k, v in kw.items()}
        if len(pos) > len(order):
            raise TypeError('%s() takes at most %d arguments (%d given)' % (self.name, len(order), len(pos)))
        a = dict(zip(order, pos))
        for k, v in low.items():
            if k not in order or k in a:
                raise TypeError("'%s' is an invalid keyword argument for %s()" % (k, self.name))
            a[k] = v
        for k in self.req:
            if k not in a:
                raise TypeError('%s() missing required argument %s' % (self.name, k))
        d = self.decls
        env, pre, snap, orig = {}, [], {}, {}
        for k, v in a.items():
            if d[k]['dims']:
                if not isinstance(v, Arr):
                    raise Unsupported('%s: argument %s of %s' % (self.name, k, type(v).__name__))
                orig[k], snap[k] = v, v.snapshot()
                if v.comp:
                    raise Unsupported('selection passed to a kernel')
            elif d[k]['type'] == 'l':
                snap[k] = bool(v)
            else:
                if v is None:
                    raise TypeError("must be real number, not NoneType")
                t = term(v.item() if isinstance(v, Arr) else v)
                if d[k]['type'] == 'i' and not t.isint:
                    t = fn('int', t)
                snap[k] = Num(t)
                if d[k]['type'] == 'i':
                    env[k] = t
        # extents not given are taken from the arrays, in order
        for k in order:
            if k not in orig:
                continue
            dims = d[k]['dims']
            v = orig[k]
            if v.ndim != len(dims):
                raise ValueError('%s: %d-th argument must have %d dimensions' % (self.name, self.args.index(k) + 1, len(dims)))
            for q, (lo, hi) in enumerate(dims):
                ns = names_in(lo, []) + names_in(hi, [])
                if len(ns) == 1 and ns[0] not in env and ns[0] in self.opt:
                    z = dimexpr(hi, {ns[0]: ZERO}) - dimexpr(lo, {ns[0]: ZERO}) + 1
                    one = dimexpr(hi, {ns[0]: ONE}) - dimexpr(lo, {ns[0]: ONE}) + 1
                    if (one - z).const != 1:
                        raise Unsupported('extent of %s' % k)
                    env[ns[0]] = v._shape[q] - z
                pre.append(cmp_eq(v._shape[q], dimexpr(hi, env) - dimexpr(lo, env) + 1))
        n = sum(1 for c in S.calls if c['name'] == self.name)
        nm = '%s#%d' % (self.name, n)
        pre = c_and(*[c for c in pre if S.ctx.decide(c) is not True])
        S.calls.append(dict(name='pre', of=self.name + ': shapes of the arguments', cond=pre, ctx=S.ctx))
        rec = dict(name=self.name, n=n, sym=nm, args=snap, orig=orig, ids={k: v.buf.id for k, v in orig.items()}, env=env, ctx=S.ctx, out={}, active=list(S.active))
        S.calls.append(rec)
        res = []
        act = list(S.active)
        for o in self.outs:
            if d[o]['dims']:
                sh = [S.ctx.simp(dimexpr(hi, env) - dimexpr(lo, env) + 1) for lo, hi in d[o]['dims']]
                r = Arr.of(sh, lambda idx, o=o: sel('%s:%s' % (nm, o), *idx, *act))
            else:
                t = sel('%s:%s' % (nm, o), *act, isint=d[o]['type'] == 'i') if act else var('%s:%s' % (nm, o), d[o]['type'] == 'i')
                r = Num(t)
            rec['out'][o] = r.snapshot() if isinstance(r, Arr) else r
            res.append(r)
        for o in self.inout:
            v = orig[o]
            v.store(Arr.of(v._shape, lambda idx, o=o: sel('%s:%s' % (nm, o), *idx, *act)))
        if not res:
            return None
        return res[0] if len(res) == 1 else tuple(res)


def load(repo):
    """kernels exported by the package, from the sources meson builds"""
    from ..fparse import parse_file
    from ..specs.common import kernel_source
    out = {}
    for k in ALL:
        f, t = kernel_source(k)
        out[k] = Kernel(k, parse_file(t)[k])
    return out
