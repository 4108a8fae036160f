"""Contracts of the reference-state kernels: equal-area zonalisation of the PV (both), circulation and start of the inversion
(NHN22), relaxation and thermal-wind integration (NH18)."""
from .common import *
from .k_nhn22 import coeffs

imax, nd, jb, kmax, nnd = [I(x) for x in 'imax nd jb kmax nnd'.split()]
m, n = I('m'), I('n')
half = Fraction(1, 2)


class Hist:
    """the area histogram of a level of a global field, as the kernels define it: nb bins of equal width between the
    extremes of the level, counted from the maximum"""

    def __init__(self, q, nx, ny, nb, dphi, dlam, a, kk):
        self.q, self.nx, self.ny, self.nb, self.dphi, self.dlam, self.a, self.k = q, nx, ny, nb, dphi, dlam, a, kk
        self.max = self.red('max')
        self.min = self.red('min')
        self.dq = (self.max - self.min) / (nb - 1)

    def red(self, op):
        x, y = fresh('rx'), fresh('ry')
        return mk_red(op, x, P(1), self.nx, mk_red(op, y, P(1), self.ny, sel(self.q, x, y, self.k)))

    def bin(self, x, y):
        return 1 + fn('int', (self.max - sel(self.q, x, y, self.k)) / self.dq)

    def da(self, y):
        return self.a ** 2 * self.dphi * self.dlam * cos(-PI / 2 + self.dphi * (P(y) - 1))

    def total(self, b, w):
        """sum over the cells of bin b of w x cell area"""
        return S(1, self.ny, lambda y: S(1, self.nx, lambda x: ite(cmp_eq(self.bin(x, y), b), self.da(y) * w(x, y), P(0))))

    def cum(self, b, w):
        """the same over the bins 2..b"""
        return ite(cmp_le(b, P(1)), P(0), S(2, b, lambda t: self.total(t, w)))

    def area(self, b):
        return self.cum(b, lambda x, y: P(1))

    def circ(self, b):
        return self.cum(b, lambda x, y: sel(self.q, x, y, self.k))

    def value(self, b):
        return self.max - self.dq * (P(b) - 1)

    def at_area(self, A, f, default):
        """f interpolated linearly in area to the bin boundaries enclosing the area A"""
        b = fresh('bn')
        a0, a1 = self.area(b), self.area(b + 1)
        dd = (A - a0) / (a1 - a0)
        return mk_last(b, P(1), self.nb - 1, c_and(cmp_le(a0, A), cmp_gt(a1, A)), f(b) * (1 - dd) + f(b + 1) * dd, default)


def monotone(J, G, nx, ny, nb):
    """lemmas over the contract of the zonalisation: the value enclosing an area does not increase with the area and lies between the extremes of the
    level, so that the reference PV does not decrease towards the pole (the areas poleward of its rows decrease) and stays within the range of the PV"""
    dl, a = var('dlambda'), var('a')
    H = Hist('pv', nx, ny, nb, PI / (ny - 1), dl, a, k)
    b = I('b')
    pos = [cmp_gt(H.max, H.min), cmp_gt(dl, 0), cmp_gt(a, 0)]
    bb = G + pos + rng_(b, 1, nb - 1)
    y = I('y')
    J.nonneg('lemma: area of a cell', H.da(y), G + pos + rng_(y, 1, ny))
    T = lambda u: sel('area of bin', u)
    J.eq('lemma: the enclosed areas differ by the area of a bin', S(2, b + 1, T) - S(2, b, T), T(b + 1), bb)
    J.eq('lemma: no area inside the first boundary', H.area(P(1)), 0, G + pos)
    J.eq('lemma: contour values differ by the width of a bin', H.value(b) - H.value(b + 1), H.dq, bb)
    J.holds('lemma: the width of a bin is positive', cmp_gt(H.dq, 0), G + pos)
    J.eq('lemma: the first contour is the maximum', H.value(P(1)), H.max, G + pos)
    J.eq('lemma: the last contour is the minimum', H.value(nb), H.min, G + pos)
    # an area s beyond the lower and r short of the upper boundary of its bracket; brackets of growing areas do not go back
    s, r, e, a0, f0, dq = [var(x) for x in ('s', 'r', 'e', 'a0', 'f0', 'dq')]

    def val(x, w):
        dd = (a0 + x - a0) / (a0 + w - a0)
        return f0 * (1 - dd) + (f0 - dq) * dd
    J.eq('lemma: value above the lower contour of its bracket', (val(s, s + r) - (f0 - dq)) * (s + r), dq * r, [cmp_ge(s, 0), cmp_gt(r, 0)])
    J.eq('lemma: value below the upper contour of its bracket', (f0 - val(s, s + r)) * (s + r), dq * s, [cmp_ge(s, 0), cmp_gt(r, 0)])
    J.eq('lemma: larger area, smaller value in the same bracket', (val(s, s + e + r) - val(s + e, s + e + r)) * (s + e + r), dq * e, [cmp_ge(s, 0), cmp_ge(e, 0), cmp_gt(r, 0)])
    A1, A2, al, ah = [var(x) for x in ('A1', 'A2', 'al', 'ah')]
    J.holds('lemma: the bracket of a larger area is not an earlier one', cmp_ge(A1, A2), [cmp_gt(ah, A2), cmp_le(al, A1), cmp_ge(al, ah)])
    jj = I('jj')
    x = lambda q: PI / (ny - 1) * (q - 1)
    R = G + rng_(jj, 1, (ny - 1) / 2)
    J.holds('lemma: rows ascend to the pole', c_and(cmp_gt(x(jj + 1), x(jj)), cmp_ge(x(jj), 0), cmp_le(x(jj + 1), PI / 2)), R)
    # the sine increases on [0, pi/2]
    J.eq('lemma: the areas poleward of two rows differ as the sines', cap(a, PI / (ny - 1), jj) - cap(a, PI / (ny - 1), jj + 1), 2 * PI * a ** 2 * (sin(x(jj + 1)) - sin(x(jj))), R)


def nonconst(ats):
    """precondition: the PV (vorticity) of a level is not constant"""
    mx = [a for a in ats if a.kind == 'red' and a.args[4] == 'max']
    mn = [a for a in ats if a.kind == 'red' and a.args[4] == 'min']
    out = []
    for a in mx:
        for b in mn:
            la, lb = prover.red_layers(a), prover.red_layers(b)
            if la[1] is not None and la[1] is lb[1] and len(la[0]) == len(lb[0]) == 2:
                out.append(cmp_gt(P(a), P(b)))
    return out


def cap(a, dphi, j):
    return 2 * PI * a ** 2 * (1 - sin(dphi * (P(j) - 1)))


def zmean(f, nx, j, kk, ny0):
    return S(1, nx, lambda x: sel(f, x, P(j) + ny0, kk)) / nx


def qref_nhn22():
    J = Job('compute_qref_and_fawa_first')

    def go():
        G = [cmp_ge(imax, 1), cmp_ge(nd, 4), cmp_ge(jb, 0), cmp_ge(nd - jb, 5), cmp_ge(kmax, 4), cmp_ge(nnd, 3)]
        need = 'pv uu vort pt imax jmax kmax nd nnd jb jd a omega dz h dphi dlambda rr cp qref ubar tbar ckref tjk sjk'.split()
        ex, c = run_kernel(J, 'compute_qref_and_fawa_first', Ctx(G), {'jmax': 2 * nd - 1, 'jd': nd - jb}, need)
        a, om, dz, h, dphi, dlam, rr, cp = [var(x) for x in 'a omega dz h dphi dlambda rr cp'.split()]
        lev = G + rng_(k, 2, kmax - 1)
        H = Hist('pv', imax, 2 * nd - 1, nnd, dphi, dlam, a, k)
        V = Hist('vort', imax, 2 * nd - 1, nnd, dphi, dlam, a, k)
        qr = lambda x: c['qref'].at([P(x), k])
        J.eq('reference PV encloses the area poleward of its latitude', qr(j) * sin(dphi * (j - 1)),
             H.at_area(cap(a, dphi, j), H.value, P(0)), lev + rng_(j, 2, nd - 1), 90)
        J.eq('reference PV at the pole is the maximum', qr(nd) * sin(dphi * (nd - 1)), H.max, lev, 60)
        J.eq('reference PV over sin(lat) extrapolated to the equator', qr(1), 2 * qr(2) - qr(3), lev, 60)
        J.eq('reference circulation encloses the area poleward of its latitude', c['ckref'].at([j, k]),
             V.at_area(cap(a, dphi, j), V.circ, P(0)), lev + rng_(j, 1, nd - 1), 90)
        for nm, f in (('ubar', 'uu'), ('tbar', 'pt')):
            J.eq('%s is the zonal mean of the hemisphere' % nm, c[nm].at([j, k]), zmean(f, imax, j, k, nd - 1),
                 G + rng_(j, 1, nd) + rng_(k, 1, kmax))
        R = G + rng_(m, 1, nd - jb - 2) + rng_(n, 1, nd - jb - 2) + rng_(k, 1, kmax - 1)
        ph = dphi * (m + jb)
        zt = dz * (kmax - 2)
        tb = lambda x: zmean('pt', imax, x, kmax, nd - 1)
        top = -dz * rr * cos(ph) * exp(-zt * (rr / cp) / h) * (tb(m + jb + 2) - tb(m + jb)) / (4 * om * sin(ph) * dphi * h * a)
        J.eq('top condition: thermal wind of the uppermost temperature', c['tjk'].at([m, k]), ite(cmp_eq(k, kmax - 1), top, P(0)), R, 60)
        J.eq('top condition: identity carrying the level below', c['sjk'].at([m, n, k]),
             ite(c_and(cmp_eq(k, kmax - 1), cmp_eq(m, n)), P(1), P(0)), R, 60)
        J.bounds(ex, pre=nonconst)
        monotone(J, G, imax, 2 * nd - 1, nnd)
    return guarded(J, go)


jd, nlon, npart, maxits = I('jd'), I('nlon'), I('npart'), I('maxits')


def ref_nh18():
    J = Job('compute_reference_states')

    def go():
        G = [cmp_ge(nlon, 1), cmp_ge(jd, 6), cmp_ge(kmax, 5), cmp_ge(npart, 3), cmp_ge(maxits, 1)]
        need = 'pv uu pt stat nlon nlat kmax jd npart maxits a om dz eps h dphi dlambda r cp rjac qref u tref num_of_iter'.split()
        ny = 2 * jd - 1
        ex, c = run_kernel(J, 'compute_reference_states', Ctx(G), {'nlat': ny}, need, cut=True)
        if len(ex.cuts) < 2 or not hasattr(ex, 'iter_begin') or len(ex.convs) != 1:
            raise Unsupported('the relaxation loop has another structure')
        a, om, dz, h, dphi, dlam, rr, cp, eps = [var(x) for x in 'a om dz h dphi dlambda r cp eps'.split()]
        pre = {v: d for v, d in ex.cuts[0][1].items()}                # ghost names of everything before the relaxation
        new = lambda v, *ix: (pre[v][0] if v in pre else ex.iter_begin[v]).at([P(x) for x in ix])
        miss = [v for v in 'ajk bjk cjk djk ejk fjk tbar ubar cref cbar'.split() if v not in pre]
        if miss:
            raise Unsupported('working arrays renamed: ' + ', '.join(miss))
        old = lambda v, *ix: pre[v][1].at([P(x) for x in ix])
        lev = G + rng_(k, 2, kmax - 1)
        # -- zonalisation
        H = Hist('pv', nlon, ny, npart, dphi, dlam, a, k)
        q = lambda x: resolve(ex, c['qref'].at([P(x), k]))
        f2 = lambda x: 2 * om * sin(dphi * (P(x) - 1))
        J.eq('reference PV encloses the area poleward of its latitude', q(j) * f2(j),
             H.at_area(cap(a, dphi, j), H.value, P(0)), lev + rng_(j, 2, jd - 1), 90)
        J.eq('reference PV at the pole is the maximum', q(jd) * f2(jd), H.max, lev, 60)
        J.eq('reference PV over f extrapolated to the equator', q(1), 2 * q(2) - q(3), lev, 60)
        J.eq('circulation encloses the area poleward of its latitude', old('cref', j, k),
             H.at_area(cap(a, dphi, j), H.circ, sel('undef:cref', j, k)), lev + rng_(j, 1, jd - 1), 90)
        half_ = Fraction(1, 2)
        qb = lambda x: zmean('pv', nlon, x, k, jd - 1)
        J.eq('zonal-mean circulation = trapezoid sum of the zonal-mean PV poleward', old('cbar', j, k),
             S(j, jd - 1, lambda x: half_ * (qb(x + 1) + qb(x)) * a * dphi * 2 * PI * a * cos(dphi * (x - half_))),
             lev + rng_(j, 1, jd - 1), 60)
        for nm, f in (('ubar', 'uu'), ('tbar', 'pt')):
            J.eq('%s is the zonal mean of the hemisphere' % nm, resolve(ex, new(nm, j, k)), zmean(f, nlon, j, k, jd - 1),
                 G + rng_(j, 1, jd) + rng_(k, 1, kmax))
        w = lambda x: cos(dphi * (x - 1) - PI / 2)
        J.eq('hemispheric mean temperature', old('tb', k) * S(jd, ny, w),
             S(jd, ny, lambda x: w(x) * S(1, nlon, lambda y: sel('pt', y, x, k)) / nlon), G + rng_(k, 1, kmax))
        # -- operator
        inter = lev + rng_(j, 2, jd - 1)
        A, B, C, D = coeffs(j - 1, k, a, om, dz, h, rr, cp, lambda x: dz * (P(x) - 1), lambda x: sel('stat', P(x)), dphi, 0)
        for nm, want in (('ajk', A), ('bjk', B), ('cjk', C), ('djk', D), ('ejk', -(A + B + C + D))):
            J.eq('operator coefficient %s' % nm, old(nm, j, k), want, inter, 60)
        qo = (lambda x: old('qref', x, k))
        J.eq('right-hand side = -Omega a dphi dQ', old('fjk', j, k), -om * a * dphi * (qo(j + 1) - qo(j - 1)), inter, 60)
        J.eq('norm of the right-hand side', old('anormf'), S(2, jd - 1, lambda x: S(2, kmax - 1, lambda y: fn('abs', old('fjk', x, y)))), G, 60)
        # -- one sweep from an arbitrary state
        it = ex.iter_begin
        nn = it['nnn'].term
        U = lambda x, y: it['u'].at([P(x), P(y)])
        res = lambda x, y: new('ajk', x, y) * U(x + 1, y) + new('bjk', x, y) * U(x - 1, y) + new('cjk', x, y) * U(x, y + 1) \
            + new('djk', x, y) * U(x, y - 1) + new('ejk', x, y) * U(x, y) - new('fjk', x, y)
        end = ex.iter_end.c
        W = lambda x, y: end['u'].at([P(x), P(y)])
        mt = lambda x, y: cmp_eq(fn('mod', P(x) + P(y), P(2)), fn('mod', nn, P(2)))
        ictx = list(ex.iter_ctx.facts)
        e = new('ejk', j, k)
        J.eq('sweep: points of the parity of the sweep are relaxed with their residual', (W(j, k) - U(j, k)) * e, -it['omega'].term * res(j, k),
             inter + ictx + [mt(j, k), c_not(cmp_eq(e, P(0)))], 60)
        J.eq('sweep: the other points are untouched', W(j, k), U(j, k), inter + ictx + [c_not(mt(j, k))], 60)
        J.eq('sweep: no wind at the ground', W(j, 1), P(0), G + ictx + rng_(j, 2, jd - 1))
        zt = dz * (kmax - 2)
        uz = dz * rr * cos(dphi * (j - 1)) * exp(-zt * (rr / cp) / h) * (new('tbar', j + 1, kmax - 1) - new('tbar', j - 1, kmax - 1)) \
            / (2 * om * sin(dphi * (j - 1)) * dphi * h * a)
        J.eq('sweep: thermal-wind condition at the top', subst_z(W(j, kmax), ex) - subst_z(W(j, kmax - 2), ex), -uz, G + ictx + rng_(j, 2, jd - 1), 60)
        J.eq('sweep: no wind at the pole', W(jd, k), P(0), G + ictx + rng_(k, 1, kmax))
        J.eq('sweep: boundary wind at the equator from the circulation', W(1, k),
             new('ubar', 1, k) + (new('cref', 1, k) - new('cbar', 1, k)) / (2 * PI * a), G + ictx + rng_(k, 1, kmax))
        norm = S(2, jd - 1, lambda x: S(2, kmax - 1, lambda y: ite(mt(x, y), fn('abs', res(x, y)), P(0))))
        conv, gctx, snap = ex.convs[0]
        facts = dict((a_.uid, b_) for a_, b_ in ex.exitfacts)[conv.uid]
        J.fact('left early only after a sweep with sum |residual| < eps x sum |right-hand side|', facts,
               cmp_lt(norm, eps * new('anormf')), ex.iter_ctx)
        J.fact('left early only after at least two sweeps', facts, cmp_gt(nn, P(1)), ex.iter_ctx)
        J.eq('the wind published is that of the last sweep', snap.c['u'].at([j, k]), W(j, k), G + ictx + rng_(j, 1, jd) + rng_(k, 1, kmax), 60)
        # -- result
        ni = c['num_of_iter'].term
        J.eq('not converged: iteration count is beyond the maximum', ni, maxits + 1, G + [c_not(conv)])
        J.holds('converged: iteration count within the maximum', c_and(cmp_le(ni, maxits), cmp_ge(ni, P(2))), Ctx(G + [conv] + facts))
        post = ex.cuts[1][1]
        if 'u' not in post:
            raise Unsupported('the wind is not carried to the end')
        J.eq('not converged: no wind is published', post['u'][1].at([j, k]), P(0), G + [c_not(conv)] + rng_(j, 1, jd) + rng_(k, 1, kmax))
        uu = lambda x, y: c['u'].at([P(x), P(y)])
        J.eq('published wind x cos = solution', uu(j, k) * cos(dphi * (j - 1)), post['u'][0].at([j, k]), G + rng_(j, 2, jd - 1) + rng_(k, 1, kmax))
        J.eq('equator row is the zonal mean', uu(1, k), new('ubar', 1, k), G + rng_(k, 1, kmax))
        J.eq('polar row extrapolated', uu(jd, k), 2 * uu(jd - 1, k) - uu(jd - 2, k), G + rng_(k, 1, kmax))
        t = lambda x, y: c['tref'].at([P(x), P(y)])
        uzz = (uu(j, k + 1) - uu(j, k - 1)) / (2 * dz)
        J.eq('thermal-wind balance at interior levels', t(j + 1, k) - t(j - 1, k),
             -2 * dphi * f2(j) * uzz * a * h * exp(rr / cp * dz * (k - 1) / h) / rr, inter, 60)
        J.eq('first two rows equal (start of the integration)', t(2, k), t(1, k), lev)
        wt = S(1, jd, lambda x: cos(dphi * (x - 1)))
        tb = lambda x: new('tb', x)
        J.eq('cosine-weighted mean of the reference temperature = hemispheric mean', S(1, jd, lambda x: cos(dphi * (x - 1)) * t(x, k)),
             wt * tb(k), lev, 60)
        J.eq('bottom level differs from its neighbour by the mean profile', t(j, 1) - t(j, 2), tb(1) - tb(2), G + rng_(j, 1, jd), 40)
        J.eq('top level differs from its neighbour by the mean profile', t(j, kmax) - t(j, kmax - 1), tb(kmax) - tb(kmax - 1), G + rng_(j, 1, jd), 40)
        J.bounds(ex, pre=nonconst)
        monotone(J, G, nlon, ny, npart)
    return guarded(J, go)


def subst_z(x, ex):
    """the level heights are dz (k-1): their ghost name is replaced by the definition"""
    d = ex.cuts[0][1].get('z')
    if d is None:
        return x
    nm = atom_of(d[0].term).args[0]
    return map_sels(x, lambda n, idx: d[1].at(list(idx)) if n == nm else None)
