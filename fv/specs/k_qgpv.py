"""Contracts of the potential-vorticity kernels."""
from .common import *

nlon, nlat, kmax = I('nlon'), I('nlat'), I('kmax')


def avort_spec(u, v, omega, a, i, j, k):
    """absolute vorticity: f + v_x - (u cos)_y, centred differences on the sphere; polar rows hold the zonal mean of
    the neighbouring row"""
    ph = lambda jj: -PI / 2 + PI * (P(jj) - 1) / (nlat - 1)
    dphi, dlam = PI / (nlat - 1), 2 * PI / nlon

    def inner(i, j):
        e = ite(cmp_eq(i, nlon), P(1), P(i) + 1)
        w = ite(cmp_eq(i, P(1)), nlon, P(i) - 1)
        d = 2 * a * cos(ph(j)) * dphi
        return (2 * omega * sin(ph(j)) + (sel(v, e, j, k) - sel(v, w, j, k)) / (2 * a * cos(ph(j)) * dlam)
                - (sel(u, i, j + 1, k) * cos(ph(j + 1)) - sel(u, i, j - 1, k) * cos(ph(j - 1))) / d)
    return inner(P(i), P(j))


def stretch(th, t0, st, h, H, i, j, k):
    x = lambda kk: exp(-sel(h, kk) / H) * (sel(th, i, j, kk) - t0(kk)) / st(kk)
    return exp(sel(h, k) / H) * (x(k + 1) - x(k - 1)) / (sel(h, k + 1) - sel(h, k - 1))


GRID = [cmp_ge(nlon, 3), cmp_ge(nlat, 5), cmp_ge(kmax, 3)]


def nh18():
    J = Job('compute_qgpv')

    def go():
        ctx = Ctx(GRID)
        ex, c = run_kernel(J, 'compute_qgpv', ctx, {}, 'ut vt theta height t0 stat aa omega hh pv avort'.split())
        om, a, H = var('omega'), var('aa'), var('hh')
        av = lambda i, j, k: avort_spec('ut', 'vt', om, a, i, j, k)
        full = GRID + rng_(i, 1, nlon) + rng_(k, 1, kmax)
        row = full + rng_(j, 2, nlat - 1)
        J.eq('absolute vorticity = f + v_x - (u cos)_y', c['avort'].at([i, j, k]), av(i, j, k), row)
        for nm, jp, jn in (('south', P(1), P(2)), ('north', nlat, nlat - 1)):
            J.eq('polar row (%s) = zonal mean of the neighbouring row' % nm, c['avort'].at([i, jp, k]),
                 mean(nlon, lambda x: c['avort'].at([x, jn, k])), full)
        G = lambda j, k: mean(nlon, lambda x: sel('AV', x, j, k))
        # pv is stated over the kernel's own absolute vorticity array (contract above)
        pv = sel('AV', i, j, k) + G(j, k) * stretch('theta', lambda kk: sel('t0', kk), lambda kk: sel('stat', kk), 'height', H, i, j, k)
        inter = GRID + rng_(i, 1, nlon) + rng_(j, 1, nlat) + rng_(k, 2, kmax - 1)
        got = c['pv'].at([i, j, k])
        want = map_sels(pv, lambda n, ix: c['avort'].at(list(ix)) if n == 'AV' else None)
        J.eq('QGPV = absolute vorticity + zonal-mean absolute vorticity x stretching', got, want, inter, 90)
        J.bounds(ex)
    return guarded(J, go)


def nhn22():
    J = Job('compute_qgpv_direct_inv')

    def go():
        ctx = Ctx(GRID)
        ex, c = run_kernel(J, 'compute_qgpv_direct_inv', ctx, {}, 'jd uq vq tq height ts0 tn0 stats statn aa omega hh pv avort'.split())
        om, a, H, jd = var('omega'), var('aa'), var('hh'), I('jd')
        av = lambda i, j, k: avort_spec('uq', 'vq', om, a, i, j, k)
        full = GRID + rng_(i, 1, nlon) + rng_(k, 1, kmax)
        row = full + rng_(j, 2, nlat - 1)
        J.eq('absolute vorticity = f + v_x - (u cos)_y', c['avort'].at([i, j, k]), av(i, j, k), row)
        for nm, jp, jn in (('south', P(1), P(2)), ('north', nlat, nlat - 1)):
            J.eq('polar row (%s) = zonal mean of the neighbouring row' % nm, c['avort'].at([i, jp, k]),
                 mean(nlon, lambda x: c['avort'].at([x, jn, k])), full)
        f = 2 * om * sin(-PI / 2 + PI * (j - 1) / (nlat - 1))
        inter = GRID + rng_(i, 1, nlon) + rng_(j, 1, nlat) + rng_(k, 2, kmax - 1)
        got = c['pv'].at([i, j, k])
        south = cmp_le(j, jd)
        pick = lambda s, n: (lambda kk: ite(south, sel(s, kk), sel(n, kk)))
        want = c['avort'].at([i, j, k]) + f * stretch('tq', pick('ts0', 'tn0'), pick('stats', 'statn'), 'height', H, i, j, k)
        J.eq('QGPV = absolute vorticity + f x stretching with the means of the own hemisphere', got, want, inter, 60)
        J.bounds(ex)
    return guarded(J, go)
