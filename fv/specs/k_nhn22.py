"""Contracts of the NHN22 direct-inversion kernels."""
from .common import *

nd, jb, kmax = I('nd'), I('jb'), I('kmax')
m, n = I('m'), I('n')
jd = nd - jb
half = Fraction(1, 2)
dp = PI / (2 * nd - 2)
GRID = [cmp_ge(jb, 0), cmp_ge(jd, 5), cmp_ge(kmax, 4)]
SIZES = {'jmax': 2 * nd - 1, 'jd': jd, 'nd': nd}


def coeffs(m, k, a, om, dz, h, rr, cp, z, stat, dp=dp, jb=jb):
    """coefficients of the discretised elliptic operator at unknown m (latitude row m+1+jb), level k"""
    jj = P(m) + 1 + jb
    kap = rr / cp
    ph = dp * (jj - 1)
    pp, pm = dp * (jj - half), dp * (jj - 3 * half)
    fact = 4 * om ** 2 * h * a ** 2 * sin(ph) * dp ** 2 / (dz ** 2 * rr * cos(ph))
    zp, zm = (z(k + 1) + z(k)) / 2, (z(k - 1) + z(k)) / 2
    sp, sm = (stat(k + 1) + stat(k)) / 2, (stat(k - 1) + stat(k)) / 2
    c = exp(-zp / h) * exp(kap * zp / h) / sp * fact * exp(z(k) / h)
    d = exp(-zm / h) * exp(kap * zm / h) / sm * fact * exp(z(k) / h)
    return 1 / (sin(pp) * cos(pp)), 1 / (sin(pm) * cos(pm)), c, d


def before():
    J = Job('matrix_b4_inversion')

    def go():
        ctx = Ctx(GRID + rng_(k, 2, kmax - 1))
        need = 'k jmax kmax nd jb jd z statn qref ckref sjk a om dz h rr cp qjj djj cjj rj'.split()
        ex, c = run_kernel(J, 'matrix_b4_inversion', ctx, dict(SIZES, k=k), need)
        a, om, dz, h, rr, cp = [var(x) for x in 'a om dz h rr cp'.split()]
        z = lambda x: sel('z', P(x))
        st = lambda x: sel('statn', P(x))
        A, B, C, D = coeffs(m, k, a, om, dz, h, rr, cp, z, st)
        R = GRID + rng_(k, 2, kmax - 1) + rng_(m, 1, jd - 2) + rng_(n, 1, jd - 2)
        jj = m + 1 + jb
        qd = sel('qref', jj + 1, k) - sel('qref', jj - 1, k)
        ub = sel('ckref', jb + 1, k) / (2 * PI * a) - om * a * cos(dp * jb)
        J.eq('right-hand side = -a dphi dQ/2, minus the boundary wind in the first row', c['rj'].at([m]),
             -half * a * dp * qd - ite(cmp_eq(m, P(1)), B * ub, P(0)), R)
        J.eq('coupling to the level above is the diagonal stretching coefficient', c['cjj'].at([m, n]), ite(cmp_eq(m, n), C, P(0)), R)
        J.eq('coupling to the level below is the diagonal stretching coefficient', c['djj'].at([m, n]), ite(cmp_eq(m, n), D, P(0)), R)
        want = ite(cmp_eq(m, n), -(A + B + C + D), P(0)) + ite(cmp_eq(n, m + 1), A, P(0)) + ite(cmp_eq(n, m - 1), B, P(0)) \
            + C * sel('sjk', m, n, k)
        J.eq('matrix to invert = tridiagonal operator + C S_k', c['qjj'].at([m, n]), want, R, 90)
        J.bounds(ex)
    return guarded(J, go)


def compose():
    """C17: over the contracts of the elimination kernels, of the matrix inverse and of the upward sweep, the wind satisfies the discretised elliptic
    equation at every inner row and level.  With Q = L + C S_k, S_{k-1} = -Q^-1 D, T_{k-1} = Q^-1 (r - C T_k) and U_{k+1} = S_k U_k + T_k:
    L U_k + C U_{k+1} + D U_{k-1} = r"""
    J = Job('direct inversion')

    def go():
        M = jd - 2
        R = GRID + rng_(k, 2, kmax - 1) + rng_(m, 1, M)
        l_ = I('l')
        RL = GRID + rng_(k, 2, kmax - 1) + rng_(l_, 1, M)
        a, om, dz, h, rr, cp = [var(x) for x in 'a om dz h rr cp'.split()]
        z, st = (lambda x: sel('z', P(x))), (lambda x: sel('statn', P(x)))
        A, B, C, D = coeffs(m, k, a, om, dz, h, rr, cp, z, st)
        Ac, Bc, Cc, Dc = [lambda x, t=t: sel(t, P(x)) for t in ('A', 'B', 'C', 'D')]
        Q, S1, T1, v, r = (lambda x, y: sel('Qinv', P(x), P(y))), (lambda x, y: sel('S_k', P(x), P(y))), (lambda x: sel('T_k', P(x))), (lambda x: sel('U_below', P(x))), (lambda x: sel('r', P(x)))
        djj, cjj = (lambda x, y: ite(cmp_eq(x, y), Dc(x), P(0))), (lambda x, y: ite(cmp_eq(x, y), Cc(x), P(0)))
        L = lambda x, y: ite(cmp_eq(x, y), -(Ac(x) + Bc(x) + Cc(x) + Dc(x)), P(0)) + ite(cmp_eq(y, P(x) + 1), Ac(x), P(0)) + ite(cmp_eq(y, P(x) - 1), Bc(x), P(0))
        S0 = lambda x, y: -S(1, M, lambda p: Q(x, p) * djj(p, y))
        T0 = lambda x: S(1, M, lambda p: Q(x, p) * (r(p) - S(1, M, lambda y: cjj(p, y) * T1(y))))
        y0 = lambda p: r(p) - Cc(p) * T1(p) - Dc(p) * v(p)
        J.eq('wind of a level = inverse matrix applied to (r - C T_k - D U_{k-1})', S(1, M, lambda y: S0(l_, y) * v(y)) + T0(l_), S(1, M, lambda p: Q(l_, p) * y0(p)), RL)
        # contract of the inverse: Q (Q^-1 y) = y
        u = lambda x: sel('U', P(x))
        above = S(1, M, lambda y: S1(m, y) * u(y)) + T1(m)
        lhs = S(1, M, lambda y: (L(m, y) + Cc(m) * S1(m, y)) * u(y)) - y0(m)
        J.eq('matrix equation of the level = operator on the wind + coupling to the levels above and below', lhs,
             S(1, M, lambda y: L(m, y) * u(y)) + Cc(m) * above + Dc(m) * v(m) - r(m), R)
        # the wind at the polar row is zero (cos = 0), the one at the boundary row is the given one and enters the right-hand side
        stencil = Ac(m) * (ite(cmp_eq(m, M), P(0), u(m + 1)) - u(m)) - Bc(m) * (u(m) - ite(cmp_eq(m, 1), P(0), u(m - 1))) - (Cc(m) + Dc(m)) * u(m)
        J.eq('operator = difference stencil in latitude', S(1, M, lambda y: L(m, y) * u(y)), stencil, R)
    return guarded(J, go)


def after():
    J = Job('matrix_after_inversion')

    def go():
        g = [cmp_ge(I('jd'), 5), cmp_ge(kmax, 4)] + rng_(k, 2, kmax - 1)
        ctx = Ctx(g)
        jd_ = I('jd')
        need = 'k kmax jd qjj djj cjj rj sjk tjk'.split()
        ex, c = run_kernel(J, 'matrix_after_inversion', ctx, {'k': k}, need)
        R = g + rng_(m, 1, jd_ - 2) + rng_(n, 1, jd_ - 2)
        J.eq('S_{k-1} = -Q D', c['sjk'].at([m, n, k - 1]), -S(1, jd_ - 2, lambda x: sel('qjj', m, x) * sel('djj', x, n)), R)
        J.eq('T_{k-1} = Q (r - C T_k)', c['tjk'].at([m, k - 1]),
             S(1, jd_ - 2, lambda x: sel('qjj', m, x) * (sel('rj', x) - S(1, jd_ - 2, lambda y: sel('cjj', x, y) * sel('tjk', y, k)))), R)
        kk = I('kk')
        R2 = R + rng_(kk, 1, kmax - 1) + [c_not(cmp_eq(kk, k - 1))]
        J.eq('the other levels of S are untouched', c['sjk'].at([m, n, kk]), sel('sjk', m, n, kk), R2)
        J.eq('the other levels of T are untouched', c['tjk'].at([m, kk]), sel('tjk', m, kk), R2)
        J.bounds(ex)
    return guarded(J, go)


def sweep():
    J = Job('upward_sweep')

    def go():
        ctx = Ctx(GRID)
        need = 'jmax kmax nd jb jd sjk tjk ckref tb qref_over_cor tref qref u a om dz h rr cp'.split()
        ex, c = run_kernel(J, 'upward_sweep', ctx, SIZES, need)
        a, om, dz, h, rr, cp = [var(x) for x in 'a om dz h rr cp'.split()]
        u = lambda x, kk: c['u'].at([P(x), P(kk)])
        lat = lambda x: dp * (P(x) + jb - 1)
        inter = GRID + rng_(m, 1, jd - 2)
        J.eq('no wind at the ground', u(j, 1), P(0), GRID + rng_(j, 1, jd))
        J.eq('upward recursion u_{k+1} cos = S_k (u_k cos) + T_k', u(m + 1, k + 1) * cos(lat(m + 1)),
             S(1, jd - 2, lambda x: sel('sjk', m, x, k) * u(x + 1, k) * cos(lat(x + 1))) + sel('tjk', m, k),
             inter + rng_(k, 1, kmax - 1), 90)
        J.eq('boundary wind from the circulation', u(1, k) * cos(lat(1)),
             sel('ckref', jb + 1, k) / (2 * PI * a) - om * a * cos(lat(1)), GRID + rng_(k, 2, kmax - 1))
        J.eq('polar row extrapolated', u(jd, k), 2 * u(jd - 1, k) - u(jd - 2, k), GRID + rng_(k, 1, kmax))
        t = lambda x, kk: c['tref'].at([P(x), P(kk)])
        lev = GRID + rng_(k, 2, kmax - 1)
        f = 2 * om * sin(lat(j))
        uz = (u(j, k + 1) - u(j, k - 1)) / (2 * dz)
        J.eq('thermal-wind balance at interior levels', t(j + 1, k) - t(j - 1, k),
             -2 * dp * f * uz * a * h * exp(rr / cp * dz * (k - 1) / h) / rr, lev + rng_(j, 2, jd - 1), 60)
        J.eq('first two rows equal (start of the integration)', t(2, k), t(1, k), lev)
        W = S(1, jd, lambda x: cos(lat(x)))
        J.eq('cosine-weighted mean of the reference temperature = hemispheric mean', S(1, jd, lambda x: cos(lat(x)) * t(x, k)),
             W * sel('tb', k), lev, 60)
        J.eq('bottom level differs from its neighbour by the mean profile', t(j, 1) - t(j, 2), sel('tb', P(1)) - sel('tb', P(2)), GRID + rng_(j, 1, jd), 40)
        J.eq('top level differs from its neighbour by the mean profile', t(j, kmax) - t(j, kmax - 1), sel('tb', kmax) - sel('tb', kmax - 1),
             GRID + rng_(j, 1, jd), 40)
        J.eq('reference PV = PV/sin x sin at interior levels', c['qref'].at([j, k]), sel('qref_over_cor', j, k) * sin(dp * (j - 1)),
             lev + rng_(j, 1, nd))
        J.bounds(ex)
    return guarded(J, go)
