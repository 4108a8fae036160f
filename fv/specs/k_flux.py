"""Contracts of the LWA and flux kernels (northern-hemisphere call, the only one the package makes: a southern hemisphere is
presented to the kernels as a northern one)."""
from .common import *

imax, nd, jb, kmax = I('imax'), I('nd'), I('jb'), I('kmax')
jp = I('jp')
GRID = [cmp_ge(imax, 1), cmp_ge(nd, 4), cmp_ge(jb, 0), cmp_le(jb, nd - 4), cmp_ge(kmax, 3)]
SIZES = {'jmax': 2 * nd - 1, 'jd': nd - jb}
NB = {'is_nhem': TRUE}


def dphi():
    return PI / (2 * nd - 2)


def lat(jj):
    return dphi() * (P(jj) - 1)


def tail(sign, q, Q, w, lo=1, hi=None):
    """sum over the latitudes of the departing part of the displaced PV: cyclonic (q>Q equatorward) or anticyclonic
    (q<=Q poleward), each weighted by w(j')"""
    hi = nd if hi is None else hi

    def f(x):
        d = q(x) - Q
        if sign == 'cyc':
            return ite(c_and(cmp_gt(d, P(0)), cmp_lt(x, j)), d * w(x), P(0))
        return ite(c_and(cmp_le(d, P(0)), cmp_ge(x, j)), -d * w(x), P(0))
    return S(lo, hi, f)


def cnd_sum(q, Q, g):
    """sum of g(j', +1) over the cyclonic tail and g(j', -1) over the anticyclonic one"""
    def f(x):
        d = q(x) - Q
        return ite(c_and(cmp_gt(d, P(0)), cmp_lt(x, j)), g(x, d, 1), P(0)) + \
            ite(c_and(cmp_le(d, P(0)), cmp_ge(x, j)), g(x, d, -1), P(0))
    return S(1, nd, f)


def rows():
    """latitudes the kernel fills"""
    return GRID + rng_(i, 1, imax) + rng_(j, jb + 1, nd - 1) + rng_(k, 2, kmax - 1)


OUTS = 'astar1 astar2 ncforce3d ua1 ua2 ep1 ep2 ep3'.split()


def flux():
    J = Job('compute_flux_dirinv_nshem')

    def go():
        ctx = Ctx(GRID)
        need = 'pv uu vv pt ncforce tn0 qref uref tref imax jmax kmax nd jb jd is_nhem a om dz h rr cp prefac'.split() + OUTS + ['ep4']
        ex, c = run_kernel(J, 'compute_flux_dirinv_nshem', ctx, dict(SIZES, **NB), need)
        a, om, dz, h, rr, cp, prefac = [var(x) for x in 'a om dz h rr cp prefac'.split()]
        R = rows()
        off = nd - 1
        q = lambda x: sel('pv', i, x + off, k)
        Q = sel('qref', j, k)
        ur = lambda x: sel('uref', x - jb, k)
        aa = lambda x: a * dphi() * cos(lat(x))
        A = {n: c[n].at([i, j, k]) for n in OUTS}
        J.eq('cyclonic wave activity = equatorward sum of the PV in excess of the reference', A['astar1'], tail('cyc', q, Q, aa), R)
        J.eq('anticyclonic wave activity = poleward sum of the PV deficit', A['astar2'], tail('anti', q, Q, aa), R)
        for n in ('astar1', 'astar2'):
            J.nonneg('wave activity is not negative (%s)' % n, A[n], R + [cmp_gt(a, 0)])
        J.eq('non-conservative source summed over the same displaced air', A['ncforce3d'],
             cnd_sum(q, Q, lambda x, d, s: s * sel('ncforce', i, x + off, k) * aa(x)), R)
        J.eq('advective flux F1 = uref (A1 + A2)', A['ua1'], ur(j) * (A['astar1'] + A['astar2']), R)
        ue = lambda x: sel('uu', i, x + off, k) * cos(lat(j)) - ur(j) * cos(lat(x))
        J.eq('advective flux F2 = sum of qe ue over the displaced air', A['ua2'],
             cnd_sum(q, Q, lambda x, d, s: s * d * ue(x) * a * dphi()), R)
        u_ = lambda x: sel('uu', i, x + off, k)
        v_ = lambda x: sel('vv', i, x + off, k)
        t_ = lambda x, kk=k: sel('pt', i, x + off, kk)
        tr = lambda x, kk=k: sel('tref', x - jb, kk)
        tg = lambda kk: sel('tn0', kk)
        z = dz * (k - 1)
        half = Fraction(1, 2)
        ep1 = (half * v_(j) ** 2 - half * (u_(j) - ur(j)) ** 2
               - half * (t_(j) - tr(j)) ** 2 * (rr / h) * exp(-(rr / cp) * z / h) * 2 * dz / (tg(k + 1) - tg(k - 1))) * cos(lat(j))
        J.eq('zonal radiation flux F3 = (v^2-ue^2)/2 - R e^{-kappa z/H} te^2/(2 H dtheta/dz), times cos', A['ep1'], ep1, R)
        mom = lambda x: (u_(x) - ur(x)) * cos(lat(x)) ** 2 * v_(x)
        J.eq('momentum flux one row poleward', A['ep2'], mom(j + 1), R)
        J.eq('momentum flux one row equatorward (own row at the boundary latitude)', A['ep3'],
             ite(cmp_eq(j, jb + 1), mom(j), mom(j - 1)), R)
        ph = lat(j)
        ht = lambda kk: sel('vv', i, j + off, kk) * (sel('pt', i, j + off, kk) - sel('tref', j - jb, kk))
        ep4 = 2 * om * sin(ph) * cos(ph) * dz / prefac * (exp(-dz / h) * ht(P(2)) / (tg(P(3)) - tg(P(1)))
                                                          + half * ht(P(1)) / (tg(P(2)) - tg(P(1))))
        J.eq('low-level meridional heat flux', c['ep4'].at([i, j]), ep4,
             GRID + rng_(i, 1, imax) + rng_(j, jb + 1, nd - 1))

        def own(out, reach):
            # the reference states at rows other than the own one (and the one equatorward of it, reach=1) are replaced by others
            def f(n_, ix):
                if n_ in ('uref', 'tref'):
                    lo = j - jb - (reach if n_ == 'uref' else 0)
                    return ite(c_and(cmp_ge(ix[0], lo), cmp_le(ix[0], j - jb + reach)), sel(n_, *ix), sel('other:' + n_, *ix))
                if n_ == 'qref':
                    return ite(cmp_eq(ix[0], j), sel(n_, *ix), sel('other:' + n_, *ix))
                return None
            return map_sels(P(out), f)
        for n in OUTS:
            J.eq('depends on the reference state of its own row only%s: %s' % (' (momentum flux: and of the adjacent one)' if n in ('ep2', 'ep3') else '', n),
                 A[n], own(A[n], 1 if n in ('ep2', 'ep3') else 0), R)
        J.eq('depends on the reference state of its own row only: ep4', c['ep4'].at([i, j]), own(c['ep4'].at([i, j]), 0), GRID + rng_(i, 1, imax) + rng_(j, jb + 1, nd - 1))
        # frame: nothing outside the rows and levels above is touched
        allp = GRID + rng_(i, 1, imax) + rng_(j, 1, nd) + rng_(k, 1, kmax)
        for nm, cond in (('equatorward of the boundary', [cmp_le(j, jb)]), ('polar row', [cmp_eq(j, nd)]),
                         ('surface', [cmp_eq(k, P(1))]), ('top', [cmp_eq(k, kmax)])):
            for n in OUTS:
                J.eq('%s is zero: %s' % (n, nm), A[n], P(0), allp + cond, 15)
        J.bounds(ex)
    return guarded(J, go)


def lwa_nhn22():
    J = Job('compute_lwa_only_nhn22')

    def go():
        ctx = Ctx(GRID)
        need = 'pv uu qref imax jmax kmax nd jb is_nhem a dz h prefac astarbaro ubaro astar1 astar2'.split()
        ex, c = run_kernel(J, 'compute_lwa_only_nhn22', ctx, dict({k_: v for k_, v in SIZES.items() if k_ != 'jd'}, **NB), need)
        a, dz, h, prefac = [var(x) for x in 'a dz h prefac'.split()]
        R = rows()
        off = nd - 1
        q = lambda x: sel('pv', i, x + off, k)
        Q = sel('qref', j, k)
        aa = lambda x: a * dphi() * cos(lat(x))
        J.eq('cyclonic wave activity', c['astar1'].at([i, j, k]), tail('cyc', q, Q, aa), R)
        J.eq('anticyclonic wave activity', c['astar2'].at([i, j, k]), tail('anti', q, Q, aa), R)
        R2 = GRID + rng_(i, 1, imax) + rng_(j, jb + 1, nd - 1)
        w = lambda kk: exp(-dz * (P(kk) - 1) / h) * dz / prefac
        for n in ('astar1', 'astar2'):
            J.nonneg('wave activity is not negative (%s)' % n, c[n].at([i, j, k]), R + [cmp_gt(a, 0)])
        J.eq('barotropic LWA = density-weighted level sum', c['astarbaro'].at([i, j]),
             S(2, kmax - 1, lambda x: (c['astar1'].at([i, j, x]) + c['astar2'].at([i, j, x])) * w(x)), R2)
        J.eq('barotropic u = density-weighted level sum of u', c['ubaro'].at([i, j]),
             S(2, kmax - 1, lambda x: sel('uu', i, j + off, x) * w(x)), R2)
        allp = GRID + rng_(i, 1, imax) + rng_(j, 1, nd) + rng_(k, 1, kmax)
        for nm, cond in (('equatorward of the boundary', [cmp_le(j, jb)]), ('polar row', [cmp_eq(j, nd)]),
                         ('surface', [cmp_eq(k, P(1))]), ('top', [cmp_eq(k, kmax)])):
            for n in ('astar1', 'astar2'):
                J.eq('%s is zero: %s' % (n, nm), c[n].at([i, j, k]), P(0), allp + cond, 15)
        J.bounds(ex)
    return guarded(J, go)
