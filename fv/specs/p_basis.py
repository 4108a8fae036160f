"""Contracts of falwa.basis."""
from .pycommon import *

nlat, nlon, npts = I('nlat'), I('nlon'), I('npts')


# ---- specification of the wave activity of a field q (function of row, column) with n rows and reference Q
def anti(q, Q, dmu, n, j, i):
    return s_common(j + 1, n - 1, lambda p: ite(cmp_lt(q(p, i), Q(j)), (Q(j) - q(p, i)) * dmu(p), ZERO))


def cyc(q, Q, dmu, n, j, i):
    return s_common(ZERO, j, lambda p: ite(cmp_gt(q(p, i), Q(j)), (q(p, i) - Q(j)) * dmu(p), ZERO))


def sigma(q, Q, dmu, nc, n, j, i):
    """forcing summed over the displaced points: + on the equatorward high side, - on the poleward low side"""
    return s_common(ZERO, j, lambda p: ite(cmp_gt(q(p, i), Q(j)), nc(p, i) * dmu(p), ZERO)) - \
        s_common(j + 1, n - 1, lambda p: ite(cmp_lt(q(p, i), Q(j)), nc(p, i) * dmu(p), ZERO))


def rows(n, j, t):
    """t at the rows 0..n-2, zero at the last row"""
    return [('rows below the last', [cmp_le(j, n - 2)], t), ('last row', [cmp_eq(j, n - 1)], ZERO)]


def lwa_contract():
    """callable standing for basis.lwa in its callers, by the contract proved in job `lwa`"""
    def f(nlon, nlat, vort, q_part, dmu, return_partitioned_lwa=False, ncforce=None):
        n, m = term(nlat), term(nlon)
        v, Q, d = vort.snapshot(), q_part.snapshot(), dmu.snapshot()
        pre = c_and(cmp_eq(v._shape[0], n), cmp_eq(v._shape[1], m), cmp_eq(d._shape[0], n), cmp_ge(Q._shape[0], n - 1), cmp_ge(n, 2), cmp_ge(m, 1))
        PS.calls.append(dict(name='pre', of='basis.lwa', cond=pre, ctx=PS.ctx))
        q, Qf, df = (lambda p, i: v.elem([P(p), P(i)])), (lambda p: Q.elem([P(p)])), (lambda p: d.elem([P(p)]))
        last = lambda j, t: ite(cmp_le(j, n - 2), t, ZERO)
        A = lambda j, i: last(j, anti(q, Qf, df, n, j, i))
        C = lambda j, i: last(j, cyc(q, Qf, df, n, j, i))
        big = None
        if ncforce is not None:
            F = ncforce.snapshot()
            big = Arr.of((n, m), lambda ix: last(ix[0], sigma(q, Qf, df, lambda p, i: F.elem([P(p), P(i)]), n, ix[0], ix[1])))
        if return_partitioned_lwa if not isinstance(return_partitioned_lwa, Bool) else bool(return_partitioned_lwa):
            return Arr.of((2, n, m), lambda ix: ite(cmp_eq(ix[0], 0), A(ix[1], ix[2]), C(ix[1], ix[2]))), big
        return Arr.of((n, m), lambda ix: A(ix[0], ix[1]) + C(ix[0], ix[1])), big
    return f


def lwa():
    J = PyJob('basis.lwa')

    def go():
        q, Q, d, F = (lambda p, i: x_('q', p, i)), (lambda p: x_('Q', p)), (lambda p: x_('dmu', p)), (lambda p, i: x_('F', p, i))
        for part in (True, False):
            for nc in (False, True):
                tag = ('partitioned' if part else 'total') + (', forcing' if nc else '')
                w = J.begin([cmp_ge(nlat, 2), cmp_ge(nlon, 1)])
                f = w.get('falwa.basis.lwa')
                kw = dict(ncforce=arr('F', nlat, nlon)) if nc else {}
                if part:
                    kw['return_partitioned_lwa'] = True
                outs = J.explore(lambda: f(Num(nlon), Num(nlat), arr('q', nlat, nlon), arr('Q', nlat), arr('dmu', nlat), **kw))
                outs = J.normal(outs, tag + ': no exception')
                J.frame(outs, tag + ': arguments unchanged')
                A, C = lambda j, i: anti(q, Q, d, nlat, j, i), lambda j, i: cyc(q, Q, d, nlat, j, i)
                if part:
                    for c, nm, G in ((0, 'anticyclonic', A), (1, 'cyclonic', C)):
                        J.elem('%s: %s part' % (tag, nm), outs, lambda v: v[0][c], lambda j, i: rows(nlat, j, G(j, i)), (nlat, nlon), 'ji')
                else:
                    J.elem(tag + ': wave activity', outs, lambda v: v[0], lambda j, i: rows(nlat, j, A(j, i) + C(j, i)), (nlat, nlon), 'ji')
                if nc:
                    J.elem(tag + ': wave-activity source', outs, lambda v: v[1], lambda j, i: rows(nlat, j, sigma(q, Q, d, F, nlat, j, i)), (nlat, nlon), 'ji')
                else:
                    for o in outs:
                        J.add(tag + ': no source without forcing', 'proved' if o.value[1] is None else 'refuted')
        # lemmas: a field that is zonally uniform and equal to a nondecreasing reference has no wave activity: every summand is zero
        p = I('p')
        j_ = I('j')
        J.zero('lemma: no displaced point poleward for a nondecreasing reference', ite(cmp_lt(Q(p), Q(j_)), (Q(j_) - Q(p)) * d(p), ZERO), [cmp_gt(p, j_), cmp_ge(Q(p), Q(j_))])
        J.zero('lemma: no displaced point equatorward for a nondecreasing reference', ite(cmp_gt(Q(p), Q(j_)), (Q(p) - Q(j_)) * d(p), ZERO), [cmp_le(p, j_), cmp_le(Q(p), Q(j_))])
    return guarded(J, go)


# ---- equivalent latitude of a field q with area weights A on n x m cells, nb contours, radius a
def contour(q, n, m, nb):
    """contour values: equally spaced between the extremes of the field"""
    i, j = fresh('ci'), fresh('cj')
    lo = mk_red('min', j, ZERO, n - 1, mk_red('min', i, ZERO, m - 1, q(j, i)))
    hi = mk_red('max', j, ZERO, n - 1, mk_red('max', i, ZERO, m - 1, q(j, i)))
    return lambda l: lo + (hi - lo) * P(l) / (nb - 1)


def inbin(q, b, l, val, n, m, top=None):
    """sum of val over the cells whose q lies in [b(l-1), b(l))"""
    return s_common(ZERO, n - 1, lambda j: s_common(ZERO, m - 1, lambda i: ite(c_and(cmp_le(b(l - 1), q(j, i)), cmp_lt(q(j, i), b(l))), val(j, i), ZERO)))


def below(q, b, l, val, n, m):
    """sum of val over the cells whose q lies below contour l (0-based), bin by bin"""
    return s_common(ONE, l, lambda u: inbin(q, b, u, val, n, m))


def bin_lemma(J):
    """the bin-by-bin sums are the sums over the cells below a contour: G(l) - G(l-1) is the content of bin l, cell by cell"""
    q, a, b0, bl, bm = [var(x) for x in ('q', 'area', 'b0', 'bl', 'bm')]
    R = [cmp_le(b0, bm), cmp_le(bm, bl)]
    G = lambda b: ite(c_and(cmp_le(b0, q), cmp_lt(q, b)), a, ZERO)
    J.zero('lemma: cells below a contour = sum of the bins (step)', G(bl) - G(bm) - ite(c_and(cmp_le(bm, q), cmp_lt(q, bl)), a, ZERO), R)
    J.zero('lemma: no cell lies below the lowest contour', G(b0), [])
    J.holds('lemma: enclosed area does not decrease with the contour', cmp_ge(G(bl) - G(bm), 0), R + [cmp_ge(a, 0)])
    s, c = var('scale'), var('shift')
    qq, bb = s * q + c, s * bl + c
    J.zero('lemma: an increasing affine map keeps the cells below each contour',
           ite(cmp_lt(qq, bb), a, ZERO) - ite(cmp_lt(q, bl), a, ZERO), [cmp_gt(s, 0)])


def profile_lemma(J):
    """the reference profile is nondecreasing and within the range of the field: linear interpolation in nondecreasing contours at ascending latitudes
    (latitudes of the contours do not decrease: the enclosed areas do not, and arcsin increases)"""
    lo, hi, l = var('qmin'), var('qmax'), I('l')
    b = lambda l_: lo + (hi - lo) * P(l_) / (npts - 1)
    R = [cmp_ge(npts, 2), cmp_ge(hi, lo)]
    J.holds('lemma: contours do not decrease', cmp_ge((b(l + 1) - b(l)) * (npts - 1), 0), R + [cmp_ge(l, 0), cmp_le(l, npts - 2)])
    J.zero('lemma: the lowest contour is the minimum', b(ZERO) - lo, R)
    J.zero('lemma: the highest contour is the maximum', b(npts - 1) - hi, R)
    # inside a bracket of latitudes x0 < x0+s+r with contour values f0 <= f0+d
    s, r, e, x0, f0, d = [var(x) for x in ('s', 'r', 'e', 'x0', 'f0', 'd')]
    val = lambda t, w: f0 + d * ((x0 + t - x0) / (x0 + w - x0))
    C = [cmp_ge(s, 0), cmp_ge(e, 0), cmp_gt(r, 0), cmp_ge(d, 0)]
    J.zero('lemma: interpolated value at least the lower contour', (val(s, s + r) - f0) * (s + r) - d * s, C)
    J.zero('lemma: interpolated value at most the upper contour', (f0 + d - val(s, s + r)) * (s + r) - d * r, C)
    J.zero('lemma: interpolated value does not decrease with latitude', (val(s + e, s + e + r) - val(s, s + e + r)) * (s + e + r) - d * e, C)


def find(outs_call, name):
    return [c for c in outs_call if c['name'] == name]


def eqvlat_fawa():
    J = PyJob('basis.eqvlat_fawa')

    def go():
        a = var('a')
        q, A, yl = (lambda j, i: x_('q', j, i)), (lambda j, i: x_('area', j, i)), (lambda j: x_('ylat', j))
        qA = lambda j, i: q(j, i) * A(j, i)
        b = contour(q, nlat, nlon, npts)
        for fawa in (True, False):
            tag = 'with FAWA' if fawa else 'without FAWA'
            w = J.begin([cmp_ge(nlat, 3), cmp_ge(nlon, 1), cmp_ge(npts, 2)])
            f = w.get('falwa.basis.eqvlat_fawa')
            kw = {} if fawa else dict(output_fawa=False)
            outs = J.explore(lambda: f(arr('ylat', nlat), arr('q', nlat, nlon), arr('area', nlat, nlon), Num(npts), planet_radius=Num(a), **kw))
            outs = J.normal(outs, tag + ': no exception')
            J.frame(outs, tag + ': arguments unchanged')
            for o in outs:
                cs = find(o.calls, 'np.interp')
                if len(cs) != (2 if fawa else 1):
                    raise Unsupported('not the expected number of interpolations')
                l = I('l')
                R = [cmp_ge(l, 0), cmp_lt(l, npts)]
                c = o.ctx.child(*R)
                J.eq(tag + ': contour values', cs[0]['fp'].elem([l]), b(l), c)
                mu = below(q, b, l, A, nlat, nlon) / (2 * PI * a ** 2) - 1
                J.eq(tag + ': equivalent latitude of a contour', cs[0]['xp'].elem([l]), 180 * fn('arcsin', mu) / PI, c)
                if fawa:
                    J.eq(tag + ': second interpolation at the same equivalent latitudes', cs[1]['xp'].elem([l]) - cs[0]['xp'].elem([l]), 0, c)
                    J.eq(tag + ': PV content below a contour', cs[1]['fp'].elem([l]), below(q, b, l, qA, nlat, nlon), c)
                W = lambda f_: lambda j: s_common(ZERO, npts - 1, lambda v: sel('W:npinterp%d' % cs[0]['id'], yl(j), v) * f_(v))
                J.elem(tag + ': reference profile interpolates the contours at the latitudes', [o], lambda v: v[0], lambda j: W(b)(j), (nlat,), 'j')
                if fawa:
                    rowq = lambda j: s_common(ZERO, nlon - 1, lambda i: q(j, i)) / nlon * s_common(ZERO, nlon - 1, lambda i: A(j, i))
                    cbar = lambda j: s_common(j, nlat - 2, lambda p: (rowq(p + 1) + rowq(p)) / 2)
                    cref = W(lambda l: below(q, b, l, qA, nlat, nlon))
                    J.elem(tag + ': FAWA', [o], lambda v: v[1], lambda j: -(cbar(j + 1) + cref(j + 1)) / (2 * PI * a), (nlat - 1,), 'j')
        bin_lemma(J)
        profile_lemma(J)
    return guarded(J, go)


def binl(q, b, l, val, n, m):
    """sum of val over the cells in bin l: q in [b(l-1), b(l)); bin 0: q below the lowest contour"""
    return s_common(ZERO, n - 1, lambda j: s_common(ZERO, m - 1, lambda i: ite(c_and(c_or(cmp_eq(l, 0), cmp_le(b(l - 1), q(j, i))), cmp_lt(q(j, i), b(l))), val(j, i), ZERO)))


def eqvlat_vgrad():
    J = PyJob('basis.eqvlat_vgrad')

    def go():
        a = var('a')
        q, A, yl, G = (lambda j, i: x_('q', j, i)), (lambda j, i: x_('area', j, i)), (lambda j: x_('ylat', j)), (lambda j, i: x_('vgrad', j, i))
        GA = lambda j, i: A(j, i) * G(j, i)
        b = contour(q, nlat, nlon, npts)
        for vg in (True, False):
            tag = 'with gradient' if vg else 'without gradient'
            w = J.begin([cmp_ge(nlat, 2), cmp_ge(nlon, 1), cmp_ge(npts, 3)])
            f = w.get('falwa.basis.eqvlat_vgrad')
            kw = dict(vgrad=arr('vgrad', nlat, nlon)) if vg else {}
            outs = J.explore(lambda: f(arr('ylat', nlat), arr('q', nlat, nlon), arr('area', nlat, nlon), Num(npts), planet_radius=Num(a), **kw))
            outs = J.normal(outs, tag + ': no exception')
            J.frame(outs, tag + ': arguments unchanged')
            for o in outs:
                cs = find(o.calls, 'np.interp')
                if len(cs) != (2 if vg else 1):
                    raise Unsupported('not the expected number of interpolations')
                l = I('l')
                R = [cmp_ge(l, 0), cmp_lt(l, npts)]
                c = o.ctx.child(*R)
                J.eq(tag + ': contour values', cs[0]['fp'].elem([l]), b(l), c)
                mu = s_common(ZERO, l, lambda u: binl(q, b, u, A, nlat, nlon)) / (2 * PI * a ** 2) - 1
                J.eq(tag + ': equivalent latitude of a contour', cs[0]['xp'].elem([l]), 180 * fn('arcsin', mu) / PI, c)
                W = lambda f_: lambda j: s_common(ZERO, npts - 1, lambda v: sel('W:npinterp%d' % cs[0]['id'], yl(j), v) * f_(v))
                J.elem(tag + ': reference profile interpolates the contours at the latitudes', [o], lambda v: v[0], lambda j: W(b)(j), (nlat,), 'j')
                if vg:
                    ar = lambda u: binl(q, b, u, A, nlat, nlon)
                    dp = lambda u: ite(cmp_eq(ar(u), 0), ZERO, binl(q, b, u, GA, nlat, nlon) / ar(u))
                    J.eq(tag + ': second interpolation at the same equivalent latitudes', cs[1]['xp'].elem([l]) - cs[0]['xp'].elem([l]), 0, c)
                    for lab, cc, t in (('interior', [cmp_ge(l, 1), cmp_le(l, npts - 2)], (dp(l - 1) + dp(l + 1)) / 2), ('ends', [c_or(cmp_eq(l, 0), cmp_eq(l, npts - 1))], ZERO)):
                        J.eq(tag + ': bracket on contours, ' + lab, cs[1]['fp'].elem([l]), t, c.child(*cc))
                    J.elem(tag + ': brackets interpolated at the latitudes', [o], lambda v: v[1],
                           lambda j: s_common(ZERO, npts - 1, lambda v: sel('W:npinterp%d' % cs[1]['id'], yl(j), v) * cs[1]['fp'].elem([v])), (nlat,), 'j')
                else:
                    J.add(tag + ': no bracket without gradient', 'proved' if o.value[1] is None else 'refuted')
        bin_lemma(J)
        profile_lemma(J)
    return guarded(J, go)
