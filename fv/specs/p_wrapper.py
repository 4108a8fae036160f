"""Contracts of falwa.wrapper and falwa.barotropic_field: callers of falwa.basis, checked against the contracts of the functions
called (basis.lwa: its proved contract; the equivalent-latitude functions: results are functions of the arguments passed)."""
import inspect
from .pycommon import *
from . import p_basis as B

nlat, nlon, npts, ns = I('nlat'), I('nlon'), I('npts'), I('nlat_s')
x_ = B.x_


def callee(name, params, outs):
    """stand-in for a function of basis: records its arguments; results are fresh functions of the call"""
    sig = inspect.Signature([inspect.Parameter(p, inspect.Parameter.POSITIONAL_OR_KEYWORD, **({} if d is inspect._empty else {'default': d})) for p, d in params])

    def f(*p, **k):
        b = sig.bind(*p, **k)
        b.apply_defaults()
        a = {n: (v.snapshot() if isinstance(v, Arr) else v) for n, v in b.arguments.items()}
        n = sum(1 for c in PS.calls if c['name'] == name)
        if PS.active:
            raise Unsupported('call in a loop')
        PS.calls.append(dict(name=name, args=a, n=n, ctx=PS.ctx))
        return outs(a, '%s#%d' % (name, n))
    return f


E_ = inspect._empty


def fawa_out(a, nm):
    n = a['ylat']._shape[0]
    q = Arr.symbol(nm + ':qref', (n,))
    return q, (Arr.symbol(nm + ':fawa', (n - 1,)) if a['output_fawa'] is True else None)


def vgrad_out(a, nm):
    n = a['ylat']._shape[0]
    return Arr.symbol(nm + ':qref', (n,)), (Arr.symbol(nm + ':brac', (n,)) if a['vgrad'] is not None else None)


def contracts():
    return {'falwa.basis.eqvlat_fawa': callee('eqvlat_fawa', [('ylat', E_), ('vort', E_), ('area', E_), ('n_points', E_), ('planet_radius', 6.378e+6), ('output_fawa', True)], fawa_out),
            'falwa.basis.eqvlat_vgrad': callee('eqvlat_vgrad', [('ylat', E_), ('vort', E_), ('area', E_), ('n_points', E_), ('planet_radius', 6.378e+6), ('vgrad', None)], vgrad_out),
            'falwa.basis.lwa': B.lwa_contract()}


def same_args(c, want, ctx):
    """want: {name: (shape, f) | term | None}; proved / refuted / unknown with the argument that differs"""
    res = 'proved'
    for n, w in want.items():
        g = c['args'].get(n)
        if w is None:
            if g is not None:
                return 'refuted', n
            continue
        if isinstance(w, tuple):
            sh, f = w
            if not isinstance(g, Arr) or g.ndim != len(sh):
                return 'refuted', n
            st = [ctx.decide(cmp_eq(x, y)) for x, y in zip(g._shape, sh)]
            if False in st:
                return 'refuted', n
            if None in st:
                res, bad = 'unknown', n
            idx = [ivar(v) for v in 'xy'[:len(sh)]]
            cx = ctx.child(*[q for v, m in zip(idx, sh) for q in (cmp_ge(v, 0), cmp_lt(v, m))])
            r = g.elem(idx) - P(f(*idx))
        else:
            if not isnum(g):
                return 'refuted', n
            cx, r = ctx, term(g) - P(w)
        st, fail = prove_zero(r, cx, 10.0)
        if st != 'proved':
            if fail is not None and refute(fail) is not None:
                return 'refuted', n
            res = 'unknown'
    return res, None


def find_call(J, oid, o, name, want):
    """obligation: `name` is called on exactly these arguments; returns the name of its results"""
    t = time.time()
    worst, why = 'refuted', []
    cs = [c for c in o.calls if c['name'] == name]
    for c in cs:
        st, bad = same_args(c, want, o.ctx)
        if st == 'proved':
            J.add(oid, 'proved', time.time() - t)
            return '%s#%d' % (name, c['n'])
        if st == 'unknown':
            worst = 'unknown'
        why.append(bad)
    if not cs:
        worst = 'unsupported'
    J.add(oid, worst, time.time() - t, dict(calls=len(cs), differs=why))
    return None


def precond(J, outs, tag):
    """the callees' preconditions hold at every call"""
    for o in outs:
        for c in o.calls:
            if c['name'] == 'pre':
                J.holds('%s: precondition of %s' % (tag, c['of']), c['cond'], c['ctx'])


q = lambda j, i: x_('q', j, i)
A = lambda j, i: x_('area', j, i)
Y = lambda j: x_('ylat', j)
D = lambda j: x_('dmu', j)
F = lambda j, i: x_('F', j, i)
G = lambda j, i: x_('G', j, i)
a = var('a')
HEMI = [cmp_ge(nlat, 4), cmp_ge(nlon, 1), cmp_ge(ns, 2), cmp_ge(nlat, 2 * ns)]


def hemi_args(hem, n, npoints, field, vgrad=None):
    """the arguments the definition takes for one hemisphere: rows from the pole towards the equator, the northern one mirrored with the
    sign of the field reversed"""
    f = field if hem == 's' else (lambda j, i: -field(nlat - 1 - j, i))
    w = dict(ylat=((n,), Y), vort=((n, nlon), f), area=((n, nlon), A), n_points=npoints, planet_radius=a)
    if vgrad is not None:
        w['vgrad'] = ((n, nlon), vgrad if hem == 's' else (lambda j, i: -vgrad(nlat - 1 - j, i)))
    return w


def wrapper(fname, needs, kind='eqvlat_fawa', outs_of=None, theta=False, defaults=(True, False), label=None, opts=None):
    """one job per wrapper: needs = names of array arguments after ylat"""
    def job():
        J = PyJob('wrapper.' + (label or fname))

        def go():
            for dflt in defaults:
                tag = 'default extent' if dflt else 'given extent'
                w = J.begin(HEMI if not dflt else [cmp_ge(nlat, 4), cmp_ge(nlon, 1)], contracts=contracts())
                f = w.get('falwa.wrapper.' + fname)
                arrs = {'vort': ('q', nlat, nlon), 'theta': ('q', nlat, nlon), 'area': ('area', nlat, nlon), 'dmu': ('dmu', nlat), 'ncforce': ('F', nlat, nlon),
                        'vgrad': ('G', nlat, nlon), 'qref': ('Q', nlat), 'ylat': ('ylat', nlat)}
                kw = {n: arr(*arrs[n]) for n in needs}
                kw['planet_radius'] = Num(a)
                n = fn('floordiv', nlat, P(2))
                np_ = n
                if not dflt:
                    n, np_ = ns, npts
                    kw['nlat_s'] = Num(ns)
                    if 'qref' not in needs:
                        kw['n_points'] = Num(npts)
                outs = J.normal(J.explore(lambda: f(**kw)), tag + ': no exception')
                J.frame(outs, tag + ': arguments unchanged')
                precond(J, outs, tag)
                for o in outs:
                    check(J, tag, o, n, np_)
        def check(J, tag, o, n, np_):
            v = o.value
            south, north, eq = (lambda j: [cmp_lt(j, n)]), (lambda j: [cmp_ge(j, nlat - n)]), (lambda j: [cmp_ge(j, n), cmp_lt(j, nlat - n)])
            vg = G if 'vgrad' in needs else None
            if 'qref' in needs:
                Qs, Qn = (lambda j: x_('Q', j)), (lambda j: x_('Q', nlat - n + j))
            else:
                ws, wn = hemi_args('s', n, np_, q, vg), hemi_args('n', n, np_, q, vg)
                if theta:
                    wn['vort'] = ((n, nlon), lambda j, i: q(nlat - 1 - j, i))
                s = find_call(J, tag + ': definition applied to the southern rows', o, kind, ws)
                m = find_call(J, tag + ': definition applied to the reflected northern rows', o, kind, wn)
                if s is None or m is None:
                    return
                sg = 1 if theta else -1
                Qs, Qn = (lambda j: sel(s + ':qref', P(j))), (lambda j: sg * sel(m + ':qref', n - 1 - P(j)))
            get = outs_of(v)
            two = lambda S_, N_: lambda j: [('southern rows', south(j), S_(j)), ('northern rows', north(j), N_(j - (nlat - n))), ('between', eq(j), ZERO)]
            two2 = lambda S_, N_: lambda j, i: [('southern rows', south(j), S_(j, i)), ('northern rows', north(j), N_(j - (nlat - n), i)), ('between', eq(j), ZERO)]
            if 'qref' in get:
                J.elem(tag + ': reference profile', [o], lambda v: get['qref'], two(Qs, Qn), (nlat,), 'j')
            lastz = lambda f_: lambda j, i: ite(cmp_le(j, n - 2), f_(j, i), ZERO)
            if 'lwa' in get:
                qn, dn, Fn = (lambda j, i: q(nlat - n + j, i)), (lambda j: D(nlat - n + j)), (lambda j, i: F(nlat - n + j, i))
                tot = lambda f_, Q_, d_: (lambda j, i: B.anti(f_, Q_, d_, n, j, i) + B.cyc(f_, Q_, d_, n, j, i))
                dS = D
                NQ, NF = Qn, qn
                if theta:
                    NQ, NF = (lambda j: -Qn(j)), (lambda j, i: -qn(j, i))
                NW = tot(NF, NQ, D if theta == 'south dmu' else dn)
                J.elem(tag + ': wave activity', [o], lambda v: get['lwa'], two2(lastz(tot(q, Qs, dS)), lastz(NW)), (nlat, nlon), 'ji')
                if 'sigma' in get:
                    if get['sigma'] is None:
                        J.add(tag + ': budget term returned', 'refuted')
                    else:
                        J.elem(tag + ': wave-activity source', [o], lambda v: get['sigma'],
                               two2(lastz(lambda j, i: B.sigma(q, Qs, D, F, n, j, i)), lastz(lambda j, i: B.sigma(qn, Qn, dn, Fn, n, j, i))), (nlat, nlon), 'ji')
            if 'brac' in get:
                if vg is None:
                    J.add(tag + ': no bracket without gradient', 'proved' if get['brac'] is None else 'refuted')
                else:
                    J.elem(tag + ': bracket', [o], lambda v: get['brac'], two(lambda j: sel(s + ':brac', P(j)), lambda j: -sel(m + ':brac', n - 1 - P(j))), (nlat,), 'j')
            if 'keys' in get:
                J.add(tag + ': keys', 'proved' if get['keys'][0] == get['keys'][1] else 'refuted', 0, str(get['keys']))
        return guarded(J, go)
    return job


def dict_out(*names):
    al = dict(qref='qref', lwa='lwa_result', brac='brac_result', sigma='capsigma')
    def f(v):
        d = {k: v.get(al[k]) for k in names}
        d['keys'] = (sorted(v), sorted(al[k] for k in names))
        return d
    return f


eqvlat_hemispheric = wrapper('eqvlat_hemispheric', ['ylat', 'vort', 'area'], outs_of=lambda v: dict(qref=v))
bracket_plain = wrapper('eqvlat_bracket_hemispheric', ['ylat', 'vort', 'area'], 'eqvlat_vgrad', lambda v: dict(qref=v[0], brac=v[1]), label='eqvlat_bracket_hemispheric (no gradient)')
bracket_vgrad = wrapper('eqvlat_bracket_hemispheric', ['ylat', 'vort', 'area', 'vgrad'], 'eqvlat_vgrad', lambda v: dict(qref=v[0], brac=v[1]))
eqlat_lwa = wrapper('qgpv_eqlat_lwa', ['ylat', 'vort', 'area', 'dmu'], outs_of=lambda v: dict(qref=v[0], lwa=v[1]))
eqlat_lwa_nc = wrapper('qgpv_eqlat_lwa_ncforce', ['ylat', 'vort', 'ncforce', 'area', 'dmu'], outs_of=lambda v: dict(qref=v[0], lwa=v[1], sigma=v[2]))
options = wrapper('qgpv_eqlat_lwa_options', ['ylat', 'vort', 'area', 'dmu'], outs_of=dict_out('qref', 'lwa'), label='qgpv_eqlat_lwa_options (plain)')
options_nc = wrapper('qgpv_eqlat_lwa_options', ['ylat', 'vort', 'area', 'dmu', 'ncforce'], outs_of=dict_out('qref', 'lwa', 'sigma'), label='qgpv_eqlat_lwa_options (forcing)')
options_vg = wrapper('qgpv_eqlat_lwa_options', ['ylat', 'vort', 'area', 'dmu', 'vgrad'], 'eqvlat_vgrad', dict_out('qref', 'lwa', 'brac'), label='qgpv_eqlat_lwa_options (gradient)')
options_all = wrapper('qgpv_eqlat_lwa_options', ['ylat', 'vort', 'area', 'dmu', 'vgrad', 'ncforce'], 'eqvlat_vgrad', dict_out('qref', 'lwa', 'brac', 'sigma'), label='qgpv_eqlat_lwa_options (gradient, forcing)')
input_qref = wrapper('qgpv_input_qref_to_compute_lwa', ['ylat', 'qref', 'vort', 'area', 'dmu'], outs_of=lambda v: dict(lwa=v))
theta_lwa = wrapper('theta_lwa', ['ylat', 'theta', 'area', 'dmu'], outs_of=lambda v: dict(qref=v[0], lwa=v[1]), theta=True)


def barotropic():
    """barotropic_eqlat_lwa, barotropic_input_qref_to_compute_lwa"""
    J = PyJob('wrapper.barotropic')

    def go():
        for part in (False, True):
            tag = 'partitioned' if part else 'total'
            for given in (False, True):
                tg = tag + (', contours given' if given else ', default contours')
                w = J.begin([cmp_ge(nlat, 2), cmp_ge(nlon, 1)], contracts=contracts())
                f = w.get('falwa.wrapper.barotropic_eqlat_lwa')
                outs = J.explore(lambda: f(arr('ylat', nlat), arr('q', nlat, nlon), arr('area', nlat, nlon), arr('dmu', nlat), Num(npts) if given else None,
                                           planet_radius=Num(a), **(dict(return_partitioned_lwa=True) if part else {})))
                outs = J.normal(outs, tg + ': no exception')
                J.frame(outs, tg + ': arguments unchanged')
                precond(J, outs, tg)
                for o in outs:
                    nm = find_call(J, tg + ': definition applied to the field', o, 'eqvlat_fawa',
                                   dict(ylat=((nlat,), Y), vort=((nlat, nlon), q), area=((nlat, nlon), A), n_points=npts if given else nlat, planet_radius=a))
                    if nm is None:
                        continue
                    Q = lambda j: sel(nm + ':qref', P(j))
                    J.elem(tg + ': reference profile', [o], lambda v: v[0], Q, (nlat,), 'j')
                    lwa_post(J, tg, o, lambda v: v[1], q, Q, D, part)
        w = J.begin([cmp_ge(nlat, 2), cmp_ge(nlon, 1)], contracts=contracts())
        f = w.get('falwa.wrapper.barotropic_input_qref_to_compute_lwa')
        outs = J.normal(J.explore(lambda: f(arr('ylat', nlat), arr('Q', nlat), arr('q', nlat, nlon), arr('area', nlat, nlon), arr('dmu', nlat), planet_radius=Num(a))), 'given reference: no exception')
        J.frame(outs, 'given reference: arguments unchanged')
        precond(J, outs, 'given reference')
        for o in outs:
            lwa_post(J, 'given reference', o, lambda v: v, q, lambda j: x_('Q', j), D, False)
    return guarded(J, go)


def lwa_post(J, tag, o, get, q, Q, dmu, part, n=None):
    n = nlat if n is None else n
    an, cy = (lambda j, i: B.anti(q, Q, dmu, n, j, i)), (lambda j, i: B.cyc(q, Q, dmu, n, j, i))
    if part:
        for c, nm, g in ((0, 'anticyclonic', an), (1, 'cyclonic', cy)):
            J.elem('%s: %s wave activity' % (tag, nm), [o], lambda v: get(v)[c], lambda j, i: B.rows(n, j, g(j, i)), (n, nlon), 'ji')
    else:
        J.elem(tag + ': wave activity', [o], get, lambda j, i: B.rows(n, j, an(j, i) + cy(j, i)), (n, nlon), 'ji')


def barotropic_field():
    """BarotropicField: constructor defaults, equivalent latitudes and wave activity, in either order of access and on repeated access"""
    J = PyJob('BarotropicField')

    def go():
        opts = ('area', 'dphi', 'n_partitions')
        for part in (False, True):
            for given in ((), opts) + (() if part else tuple((x,) for x in opts)):
                for order in ('eqvlat first', 'lwa first')[:1 if len(given) == 1 else 2]:
                    tag = '%s, %s, %s' % ('partitioned' if part else 'total', 'defaults' if not given else 'all given' if given == opts else given[0] + ' given', order)
                    w = J.begin([cmp_ge(nlat, 2), cmp_ge(nlon, 1)], contracts=contracts())
                    cls = w.get('falwa.barotropic_field.BarotropicField')

                    def run():
                        kw = dict(planet_radius=Num(a))
                        kw.update({x: v for x, v in dict(area=arr('area', nlat, nlon), dphi=arr('dphi', nlat), n_partitions=Num(npts)).items() if x in given})
                        if part:
                            kw['return_partitioned_lwa'] = True
                        b = cls(arr('xlon', nlon), arr('ylat', nlat), arr('q', nlat, nlon), **kw)
                        if order == 'lwa first':
                            l = b.lwa
                            e = b.equivalent_latitudes
                        else:
                            e = b.equivalent_latitudes
                            l = b.lwa
                        return e, l, b.equivalent_latitudes, b.lwa
                    outs = J.normal(J.explore(run), tag + ': no exception')
                    J.frame(outs, tag + ': arguments unchanged')
                    precond(J, outs, tag)
                    cl = lambda j: V.absval(cos(Y(j) * PI / 180))
                    dphi = (lambda j: x_('dphi', j)) if 'dphi' in given else (lambda j: PI / (nlat - 1))
                    ar = A if 'area' in given else (lambda j, i: 2 * PI * a ** 2 * cos(Y(j) * PI / 180) * dphi(j) / nlon)
                    for o in outs:
                        nm = find_call(J, tag + ': definition applied to the field', o, 'eqvlat_fawa',
                                       dict(ylat=((nlat,), Y), vort=((nlat, nlon), q), area=((nlat, nlon), ar), n_points=npts if 'n_partitions' in given else nlat, planet_radius=a))
                        if nm is None:
                            continue
                        # equal calls have equal results (the function called is deterministic)
                        for c in o.calls:
                            if c['name'] == 'eqvlat_fawa':
                                st, bad = same_args(c, dict(ylat=((nlat,), Y), vort=((nlat, nlon), q), area=((nlat, nlon), ar), n_points=npts if 'n_partitions' in given else nlat, planet_radius=a), o.ctx)
                                J.add(tag + ': every evaluation takes the same arguments', st)
                        m = {'eqvlat_fawa#%d:qref' % c['n']: None for c in o.calls if c['name'] == 'eqvlat_fawa'}
                        norm = lambda t: map_sels(P(t), lambda n_, idx: sel('E', *idx) if n_ in m else None)
                        Q = lambda j: sel('E', P(j))
                        for which, k in (('first', 0), ('repeated', 2)):
                            J.elem('%s: equivalent latitudes, %s access' % (tag, which), [o], lambda v: normed(v[k], norm), Q, (nlat,), 'j')
                            lwa_post(J, '%s, %s access' % (tag, which), o, lambda v: normed(v[k + 1], norm), q, Q, lambda j: a * cl(j) * dphi(j), part)
    return guarded(J, go)


def normed(x, norm):
    x = toarr(x)
    return Arr.of(x._shape, lambda idx: norm(x.elem(idx)))
