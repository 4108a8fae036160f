"""Contracts of falwa.utilities and falwa.stat_utils."""
from .pycommon import *

nlat, nlon, kmax = I('nlat'), I('nlon'), I('kmax')


def static_stability():
    J = PyJob('static_stability')

    def go():
        for case in ('2d', '3d', 'one extent'):
            w = J.begin([cmp_ge(nlat, 4), cmp_ge(nlon, 1), cmp_ge(kmax, 3)])
            f = w.get('falwa.utilities.static_stability')
            area2 = case == '2d'
            th = arr('theta', kmax, nlat) if area2 else arr('theta', kmax, nlat, nlon)
            ar = arr('area', nlat) if area2 else arr('area', nlat, nlon)
            s_et = I('s_et')
            if case == 'one extent':
                PS.ctx = PS.base = PS.ctx.child(cmp_ge(s_et, 1), cmp_le(s_et, nlat))
                outs = J.explore(lambda: f(arr('height', kmax), ar, th, s_et=Num(s_et)))
            else:
                outs = J.explore(lambda: f(arr('height', kmax), ar, th))
            outs = J.normal(outs, case + ': no exception')
            J.frame(outs, case + ': arguments unchanged')
            half = fn('floordiv', nlat, P(2))
            zm = (lambda k, j: x_('theta', k, j)) if area2 else (lambda k, j: s_common(0, nlon - 1, lambda i: x_('theta', k, j, i)) / nlon)
            am = (lambda j: x_('area', j)) if area2 else (lambda j: s_common(0, nlon - 1, lambda i: x_('area', j, i)) / nlon)

            def t0(lo, hi, k):
                return s_common(lo, hi, lambda j: zm(k, j) * am(j)) / s_common(lo, hi, am)
            ext = {'n': (nlat - half, nlat - 1), 's': (ZERO, (s_et if case == 'one extent' else half) - 1)}
            h = lambda k: x_('height', k)
            for q, nm in ((0, 'n'), (1, 's')):
                lo, hi = ext[nm]
                J.elem('%s: t0_%s is the area-weighted hemispheric mean' % (case, nm), outs, lambda v, q=q: v[q], lambda k: t0(lo, hi, k), (kmax,))
                T_ = lambda k: t0(lo, hi, k)

                def st(k):
                    return [('interior', [cmp_ge(k, 1), cmp_le(k, kmax - 2)], (T_(k + 1) - T_(k - 1)) / (h(k + 1) - h(k - 1))),
                            ('bottom', [cmp_eq(k, 0)], (T_(P(1)) - T_(ZERO)) / (h(P(1)) - h(ZERO))),
                            ('top', [cmp_eq(k, kmax - 1)], (T_(kmax - 1) - T_(kmax - 2)) / (h(kmax - 1) - h(kmax - 2)))]
                J.elem('%s: stat_%s' % (case, nm), outs, lambda v, q=q: v[q + 2], st, (kmax,))
    return guarded(J, go)


def qgpv_givenvort():
    J = PyJob('compute_qgpv_givenvort')

    def go():
        w = J.begin([cmp_ge(nlat, 3), cmp_ge(nlon, 1), cmp_ge(kmax, 3)])
        f = w.get('falwa.utilities.compute_qgpv_givenvort')
        H, om = var('hh'), var('omega')
        nlats = I('nlat_s')
        PS.ctx = PS.base = PS.ctx.child(cmp_ge(nlats, 1), cmp_ge(nlat, nlats))
        outs = J.explore(lambda: f(Num(om), Num(nlat), Num(nlon), Num(kmax), arr('unih', kmax), arr('ylat', nlat), arr('avort', kmax, nlat, nlon),
                                   arr('pt', kmax, nlat, nlon), arr('t0n', kmax), arr('t0s', kmax), arr('sn', kmax), arr('ss', kmax), nlat_s=Num(nlats), scale_height=Num(H)))
        outs = J.normal(outs)
        J.frame(outs)
        z = lambda k: x_('unih', k)

        def zd(k, j, i, hem):
            s = 'n' if hem else 's'
            return exp(-z(k) / H) * (x_('pt', k, j, i) - x_('t0' + s, k)) / x_('s' + s, k)
        for hem, lab, cs in ((1, 'northern rows', lambda j: [cmp_ge(j, nlat - nlats)]), (0, 'southern rows', lambda j: [cmp_lt(j, nlats), cmp_lt(j, nlat - nlats)])):
            def dz(k, j, i):
                return [('interior', cs(j) + [cmp_ge(k, 1), cmp_le(k, kmax - 2)], exp(z(k) / H) * (zd(k + 1, j, i, hem) - zd(k - 1, j, i, hem)) / (z(k + 1) - z(k - 1))),
                        ('bottom', cs(j) + [cmp_eq(k, 0)], exp(z(ZERO) / H) * (zd(P(1), j, i, hem) - zd(ZERO, j, i, hem)) / (z(P(1)) - z(ZERO))),
                        ('top', cs(j) + [cmp_eq(k, kmax - 1)], exp(z(kmax - 1) / H) * (zd(kmax - 1, j, i, hem) - zd(kmax - 2, j, i, hem)) / (z(kmax - 1) - z(kmax - 2)))]

            def q(k, j, i):
                f0 = 2 * om * sin(x_('ylat', j) * PI / 180)
                return [(l, c, x_('avort', k, j, i) + t * f0) for l, c, t in dz(k, j, i)]
            J.elem('stretching term, ' + lab, outs, lambda v: v[1], dz, (kmax, nlat, nlon), 'kji')
            J.elem('PV, ' + lab, outs, lambda v: v[0], q, (kmax, nlat, nlon), 'kji')
    return guarded(J, go)


def gradients():
    J = PyJob('horizontal derivatives')

    def go():
        a, dl, dp, tol = var('a'), var('dl'), var('dp'), var('tol')
        c = lambda j: x_('clat', j)
        F = lambda j, i: x_('field', j, i)
        fin = lambda j: cmp_gt(V.absval(c(j)), tol)
        w = J.begin([cmp_ge(nlat, 3), cmp_ge(nlon, 3), cmp_gt(tol, 0)])
        outs = J.explore(lambda: w.get('falwa.utilities.zonal_convergence')(arr('field', nlat, nlon), arr('clat', nlat), Num(dl), planet_radius=Num(a), tol=Num(tol)))
        outs = J.normal(outs, 'zonal: no exception')
        J.frame(outs, 'zonal: arguments unchanged')

        def want(j, i):
            d = lambda p, m: -(p - m) / (2 * a * c(j) * dl)
            return [('interior', [fin(j), cmp_ge(i, 1), cmp_le(i, nlon - 2)], d(F(j, i + 1), F(j, i - 1))),
                    ('first longitude', [fin(j), cmp_eq(i, 0)], d(F(j, P(1)), F(j, nlon - 1))),
                    ('last longitude', [fin(j), cmp_eq(i, nlon - 1)], d(F(j, ZERO), F(j, nlon - 2)))]
        J.elem('zonal convergence', outs, lambda v: v, want, (nlat, nlon), 'ji')
        # the convergence sums to zero round a latitude circle: induction over the partial sums, whose closed form is G
        for o in outs:
            v, j, m = toarr(o.value), ivar('j'), ivar('m')
            G = lambda m: -(F(j, m + 1) + F(j, m) - F(j, ZERO) - F(j, nlon - 1)) / (2 * a * c(j) * dl)
            cx = [cmp_ge(j, 0), cmp_lt(j, nlat), fin(j)]
            J.eq('zero round a latitude circle: first partial sum', v.elem([j, ZERO]), G(ZERO), o.ctx.child(*cx))
            J.eq('zero round a latitude circle: next partial sum', G(m - 1) + v.elem([j, m]), G(m), o.ctx.child(*cx, cmp_ge(m, 1), cmp_le(m, nlon - 2)))
            J.eq('zero round a latitude circle: whole sum', G(nlon - 2) + v.elem([j, nlon - 1]), ZERO, o.ctx.child(*cx))
        w = J.begin([cmp_ge(nlat, 3), cmp_ge(nlon, 3), cmp_gt(tol, 0)])
        outs = J.explore(lambda: w.get('falwa.utilities.meridional_divergence')(arr('field', nlat, nlon), arr('clat', nlat), Num(dp), planet_radius=Num(a), tol=Num(tol)))
        outs = J.normal(outs, 'meridional: no exception')
        J.frame(outs, 'meridional: arguments unchanged')

        def want(j, i):
            return [('interior', [fin(j), cmp_ge(j, 1), cmp_le(j, nlat - 2)], (F(j + 1, i) * c(j + 1) - F(j - 1, i) * c(j - 1)) / (2 * a * c(j) * dp))]
        J.elem('meridional divergence', outs, lambda v: v, want, (nlat, nlon), 'ji')
        w = J.begin([cmp_ge(nlat, 3), cmp_ge(nlon, 3)])
        U, Vv = (lambda j, i: x_('uu', j, i)), (lambda j, i: x_('vv', j, i))
        outs = J.explore(lambda: w.get('falwa.utilities.curl_2d')(arr('uu', nlat, nlon), arr('vv', nlat, nlon), arr('clat', nlat), Num(dl), Num(dp), planet_radius=Num(a)))
        outs = J.normal(outs, 'curl: no exception')
        J.frame(outs, 'curl: arguments unchanged')

        def want(j, i):
            inn = [cmp_ge(j, 1), cmp_le(j, nlat - 2)]
            d = lambda e, w_: ((Vv(j, e) - Vv(j, w_)) / (2 * dl) - (U(j + 1, i) * c(j + 1) - U(j - 1, i) * c(j - 1)) / (2 * dp)) / (a * c(j))
            return [('interior', inn + [cmp_ge(i, 1), cmp_le(i, nlon - 2)], d(i + 1, i - 1)),
                    ('first longitude', inn + [cmp_eq(i, 0)], d(P(1), nlon - 1)),
                    ('last longitude', inn + [cmp_eq(i, nlon - 1)], d(ZERO, nlon - 2)),
                    ('pole rows', [c_or(cmp_eq(j, 0), cmp_eq(j, nlat - 1))], ZERO)]
        J.elem('curl', outs, lambda v: v, want, (nlat, nlon), 'ji')
    return guarded(J, go)


def z_derivative():
    J = PyJob('z_derivative_of_prod')

    def go():
        e, dz = I('equator_idx'), var('dz')
        w = J.begin([cmp_ge(e, 2), cmp_ge(nlon, 1), cmp_ge(kmax, 3)])
        N = 2 * e - 1
        outs = J.explore(lambda: w.get('falwa.utilities.z_derivative_of_prod')(
            stat_n=arr('sn', kmax), stat_s=arr('ss', kmax), kmax=Num(kmax), equator_idx=Num(e), dz=Num(dz), density_decay=arr('dd', kmax),
            gfunc=arr('g', kmax, N, nlon), multiplier=arr('mu', kmax, N)))
        outs = J.normal(outs)
        J.frame(outs)
        for lab, cs, st in (('southern rows', lambda j: cmp_lt(j, e - 1), lambda k: x_('ss', k)), ('equator', lambda j: cmp_eq(j, e - 1), lambda k: (x_('ss', k) + x_('sn', k)) / 2),
                            ('northern rows', lambda j: cmp_gt(j, e - 1), lambda k: x_('sn', k))):
            def want(k, j, i):
                t = lambda q: x_('dd', q) * x_('g', q, j, i) / st(q)
                m = x_('mu', k, j)
                return [('interior', [cs(j), cmp_ge(k, 1), cmp_le(k, kmax - 2)], m * (t(k + 1) - t(k - 1)) / (2 * dz)),
                        ('bottom', [cs(j), cmp_eq(k, 0)], m * (t(P(1)) - t(ZERO)) / dz), ('top', [cs(j), cmp_eq(k, kmax - 1)], m * (t(kmax - 1) - t(kmax - 2)) / dz)]
            J.elem(lab, outs, lambda v: v, want, (kmax, N, nlon), 'kji')
    return guarded(J, go)


def covariance():
    J = PyJob('calculate_covariance')

    def go():
        nt, n = I('nt'), I('n')
        for case in ('one field', 'two fields'):
            w = J.begin([cmp_ge(nt, 2), cmp_ge(nlat, 1), cmp_ge(nlon, 1)])
            f = w.get('falwa.stat_utils.calculate_covariance')
            if case == 'one field':
                outs = J.explore(lambda: f(*[arr('x', nt, nlat, nlon)] * 2))
                y = 'x'
            else:
                outs = J.explore(lambda: f(arr('x', nt, nlat, nlon), arr('y', nt, nlat, nlon)))
                y = 'y'
            outs = J.normal(outs, case + ': no exception')
            J.frame(outs, case + ': arguments unchanged')
            X = lambda t, j, i: x_('x', t, j, i)
            Y = lambda t, j, i: x_(y, t, j, i)
            m = lambda G, j, i: s_common(0, nt - 1, lambda t: G(t, j, i)) / nt
            J.elem(case, outs, lambda v: v, lambda j, i: s_common(0, nt - 1, lambda t: (X(t, j, i) - m(X, j, i)) * (Y(t, j, i) - m(Y, j, i))) / (nt - 1), (nlat, nlon), 'ji')
    return guarded(J, go)
