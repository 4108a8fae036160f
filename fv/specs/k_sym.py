"""Symmetry lemmas over the contracts of the kernels: mirrored and rotated input (used by C13, C27)."""
from .common import *
from . import k_qgpv

nlon, nlat, kmax = I('nlon'), I('nlat'), I('kmax')
QG = dict(nh18=('compute_qgpv', 'ut', 'vt', 'theta', {}), nhn22=('compute_qgpv_direct_inv', 'uq', 'vq', 'tq', dict(ts0='tn0', tn0='ts0', stats='statn', statn='stats')))


def qgpv(which, jd=None):
    name, u, v, t, swap = QG[which]
    need = [u, v, t, 'height', 'aa', 'omega', 'hh', 'pv', 'avort'] + (['jd'] if which == 'nhn22' else [])

    def prepare(J):
        G = k_qgpv.GRID if which == 'nh18' else [cmp_ge(nlon, 3), cmp_ge(I('jd'), 3), cmp_ge(kmax, 3)]
        ex, c = run_kernel(J, name, Ctx(G), {} if which == 'nh18' else {'nlat': 2 * I('jd') - 1}, need)
        return ex, c, G, (nlat if which == 'nh18' else 2 * I('jd') - 1)
    return name, (u, v, t), swap, prepare


def regions(G, n, first, last):
    """rows: interior and poles; levels first..last"""
    R = G + rng_(i, 1, nlon) + rng_(k, first, last)
    return [('interior rows', R + rng_(j, 2, n - 1)), ('south polar row', R + [cmp_eq(j, 1)]), ('north polar row', R + [cmp_eq(j, n)])]


def rotation(names, axis, n, first, facts):
    """replacement of every array in `names` by itself rotated by one longitude (index `axis`, n longitudes from `first`).  A sum (extremum)
    over all longitudes is unchanged when its terms are those of the next longitude: proved for every such sum met"""
    last = P(first) + n - 1
    rot = lambda x: ite(cmp_eq(x, last), P(first), P(x) + 1)

    def f(n_, ix):
        ax = axis.get(n_) if n_ in names else None
        return None if ax is None else sel(n_, *[rot(x) if d == ax else x for d, x in enumerate(ix)])
    known = {}

    def binder(a):
        b, lo, hi, body = a.args[:4]
        if P(lo) != P(first) or P(hi) != last or not (sel_names(body) & names):
            return None
        if a in known:
            return known[a]
        v = fresh('rl')
        va = atom_of(P(v))
        t = subst(body, {b: v})
        moved = map_sels(t, f)
        ok = True
        for cs, r in (([cmp_lt(v, last)], P(v) + 1), ([cmp_eq(v, last)], P(first))):
            st, _ = prove_zero(moved - subst(t, {va: r}), Ctx(list(facts) + [cmp_ge(v, first), cmp_le(v, last)] + cs), 20.0)
            ok = ok and st == 'proved'
        known[a] = P(a) if ok else None
        return known[a]
    f.binder = binder
    f.rot = rot
    return f


def align(p):
    """sums of terms x(v+d) over v become sums of x(v) and the terms at the ends"""
    acc = ZERO
    for mono, c in P(p).t:
        t = P(c)
        for a, e in mono:
            q = P(a)
            if a.kind == 'sum':
                b, lo, hi, body = a.args
                v = fresh('al')
                va = atom_of(P(v))
                body = subst(body, {b: v})
                d = None
                for x in prover._all_sels(body):
                    for y in x.args[1:]:
                        r = P(y) - v
                        if r.const is not None:
                            d = int(r.const)
                    if d is not None:
                        break
                if d in (1, -1):
                    g = lambda y: subst(body, {va: P(y) - d})
                    q = mk_sum(v, lo, hi, g(v)) + (g(hi + 1) - g(lo) if d == 1 else g(lo - 1) - g(hi))
            t = mul(t, q ** e if e > 0 else inv(q) ** (-e))
        acc = add(acc, t)
    return acc


def mirror(which):
    def job():
        name, (u, v, t), swap, prepare = qgpv(which)
        J = Job('mirror.' + name)

        def go():
            ex, c, G, n = prepare(J)

            def M(n_, ix):
                if n_ in (u, t):
                    return sel(n_, ix[0], n + 1 - ix[1], ix[2])
                if n_ == v:
                    return -sel(n_, ix[0], n + 1 - ix[1], ix[2])
                if n_ in swap:
                    return sel(swap[n_], *ix)
                return None
            for nm, lo, hi in (('avort', P(1), kmax), ('pv', P(2), kmax - 1)):
                at = lambda y: c[nm].at([i, P(y), k])
                for lab, R in regions(G, n, lo, hi):
                    J.eq('mirrored input: %s changes sign and is mirrored, %s' % (nm, lab), map_sels(at(j), M), -at(n + 1 - j), R, 60)
        return guarded(J, go)
    return job


def rotate(which):
    def job():
        name, uvt, swap, prepare = qgpv(which)
        J = Job('rotate.' + name)

        def go():
            ex, c, G, n = prepare(J)
            M = rotation(set(uvt), {x: 0 for x in uvt}, nlon, 1, G)
            u, v, t = uvt
            om, a, H = var('omega'), var('aa'), var('hh')
            nl = {atom_of(nlat): n} if which == 'nhn22' else {}
            ph = lambda y: -PI / 2 + PI * (P(y) - 1) / (n - 1)
            zm = lambda y, kk: mean(nlon, lambda x: sel(u, x, y, kk))
            Z = lambda y, kk: 2 * om * sin(ph(y)) - (zm(y + 1, kk) * cos(ph(y + 1)) - zm(y - 1, kk) * cos(ph(y - 1))) / (2 * a * cos(ph(y)) * PI / (n - 1))
            row = lambda lab, y: Z(P(2), k) if 'south' in lab else Z(n - 1, k) if 'north' in lab else Z(P(y), k)
            av = lambda lab, x: row(lab, j) if 'polar' in lab else subst(k_qgpv.avort_spec(u, v, om, a, x, j, k), nl)

            def pv(lab, x):
                if which == 'nh18':
                    return av(lab, x) + row(lab, j) * k_qgpv.stretch(t, lambda kk: sel('t0', kk), lambda kk: sel('stat', kk), 'height', H, x, j, k)
                pick = lambda s_, n_: (lambda kk: ite(cmp_le(j, I('jd')), sel(s_, kk), sel(n_, kk)))
                return av(lab, x) + 2 * om * sin(ph(j)) * k_qgpv.stretch(t, pick('ts0', 'tn0'), pick('stats', 'statn'), 'height', H, x, j, k)
            for nm, lo, hi, spec in (('avort', P(1), kmax, av), ('pv', P(2), kmax - 1, pv)):
                for lab, R in regions(G, n, lo, hi):
                    J.eq('%s, zonal differences summing to zero round a latitude circle, %s' % (nm, lab), align(Ctx(R).simp(c[nm].at([i, j, k]) - spec(lab, i))), P(0), R, 60)
                    for lb, cs, r in (('', [cmp_lt(i, nlon)], i + 1), (', last longitude', [cmp_eq(i, nlon)], P(1))):
                        J.eq('input rotated by one longitude: %s is rotated, %s%s' % (nm, lab, lb), map_sels(spec(lab, i), M), spec(lab, r), R + cs, 60)
        return guarded(J, go)
    return job


mirror_nh18, mirror_nhn22 = mirror('nh18'), mirror('nhn22')
rotate_nh18, rotate_nhn22 = rotate('nh18'), rotate('nhn22')


def rotate_flux(name, outs, flat):
    def job():
        J = Job('rotate.' + name)

        def go():
            from . import k_flux as K
            sz = dict(K.SIZES, **K.NB)
            if name == 'compute_lwa_only_nhn22':
                sz.pop('jd')
            ex, c = run_kernel(J, name, Ctx(K.GRID), sz, ['imax', 'nd', 'jb', 'is_nhem'] + outs)
            data = {'pv', 'uu', 'vv', 'pt', 'ncforce'}
            M = rotation(data, {x: 0 for x in data}, K.imax, 1, K.GRID)
            for n in outs:
                for lb, cs, r in (('', [cmp_lt(i, K.imax)], i + 1), (', last longitude', [cmp_eq(i, K.imax)], P(1))):
                    R = K.GRID + rng_(i, 1, K.imax) + rng_(j, K.jb + 1, K.nd - 1) + ([] if n in flat else rng_(k, 2, K.kmax - 1)) + cs
                    at = lambda x: c[n].at([P(x), j] + ([] if n in flat else [k]))
                    J.eq('input rotated by one longitude: %s is rotated%s' % (n, lb), map_sels(at(i), M), at(r), R, 60)
        return guarded(J, go)
    return job


rotate_fluxes = rotate_flux('compute_flux_dirinv_nshem', 'astar1 astar2 ncforce3d ua1 ua2 ep1 ep2 ep3 ep4'.split(), ['ep4'])
rotate_lwa = rotate_flux('compute_lwa_only_nhn22', 'astar1 astar2 astarbaro ubaro'.split(), ['astarbaro', 'ubaro'])


def rotate_qref():
    """reference states of the direct inversion depend on the data through sums and extrema over all longitudes only"""
    J = Job('rotate.compute_qref_and_fawa_first')

    def go():
        from . import k_qref as K
        G = [cmp_ge(K.imax, 1), cmp_ge(K.nd, 4), cmp_ge(K.jb, 0), cmp_ge(K.nd - K.jb, 5), cmp_ge(K.kmax, 4), cmp_ge(K.nnd, 3)]
        outs = dict(qref=(K.nd, K.kmax), ubar=(K.nd, K.kmax), tbar=(K.nd, K.kmax), ckref=(K.nd - 1, K.kmax), tjk=(K.nd - K.jb - 2, K.kmax - 1))
        ex, c = run_kernel(J, 'compute_qref_and_fawa_first', Ctx(G), {'jmax': 2 * K.nd - 1, 'jd': K.nd - K.jb}, ['imax', 'nd', 'jb', 'jd'] + list(outs))
        data = {'pv', 'uu', 'vort', 'pt'}
        M = rotation(data, {x: 0 for x in data}, K.imax, 1, G)
        for n, (nj, nk) in outs.items():
            lo, hi = (2, nk - 1) if n in ('qref', 'ckref') else (1, nk)
            t = c[n].at([j, k])
            J.eq('input rotated by one longitude: %s is unchanged' % n, map_sels(t, M), t, G + rng_(j, 1, nj) + rng_(k, lo, hi), 60)
        J.holds('input rotated by one longitude: sjk does not depend on the data', FALSE if sel_names(c['sjk'].at([K.m, K.n, k])) & data else TRUE, Ctx(G))
    return guarded(J, go)


def cond_term(c):
    """the comparison of a condition as a term (for the names it depends on)"""
    return c.a[0] if c.k in ('le', 'lt', 'eq') else sum((cond_term(x) for x in c.a), ZERO) if c.k != 'b' else ZERO


def rotate_ref():
    """reference states of NH18: the quantities computed before the relaxation depend on the data through sums and extrema over all longitudes only, and
    the relaxation and the integration after it use nothing but these"""
    J = Job('rotate.compute_reference_states')

    def go():
        from . import k_qref as K
        G = [cmp_ge(K.nlon, 1), cmp_ge(K.jd, 6), cmp_ge(kmax, 5), cmp_ge(K.npart, 3), cmp_ge(K.maxits, 1)]
        ex, c = run_kernel(J, 'compute_reference_states', Ctx(G), {'nlat': 2 * K.jd - 1}, 'nlon jd qref u tref num_of_iter'.split(), cut=True)
        if len(ex.cuts) < 2 or not hasattr(ex, 'iter_begin'):
            raise Unsupported('the relaxation loop has another structure')
        data = {'pv', 'uu', 'pt'}
        M = rotation(data, {x: 0 for x in data}, K.nlon, 1, G)
        used = {'cut0:anormf'}

        def reach(t):
            """names everything after the relaxation loop starts from; recurrences by their defining equation"""
            for n_ in sel_names(t):
                if n_.startswith('rec:') and n_ not in used:
                    used.add(n_)
                    reach(T.REC[n_][1])
                else:
                    used.add(n_)
            for a in prover.atoms_in(t):
                if a.kind == 'var' and isinstance(a.args[0], str):
                    used.add(a.args[0])
        end = ex.iter_end.c
        for t in [c[n].at([j, k]) for n in ('qref', 'u', 'tref')] + [end['u'].at([j, k])] + [cell.term for _, cell in ex.cuts[1][1].values() if isinstance(cell.term, Poly)] \
                + [cond_term(x) for x in (ex.convs[0][0],)]:
            reach(t)
        pre = ex.cuts[0][1]
        # (the residual norm and the wind carried by the loop are functions of the state of the loop and of the quantities below)
        J.holds('the data enter the results through the quantities before the relaxation only', FALSE if used & data else TRUE, Ctx(G))
        rows = dict(cref=(1, K.jd - 1), cbar=(1, K.jd), qref=(1, K.jd), tbar=(1, K.jd), ubar=(1, K.jd))
        for v in sorted(pre):
            cell = pre[v][1]
            if 'cut0:' + v not in used or not (sel_names(cell.term) & data):
                continue
            nd_ = len(cell.params)
            ix = [j, k][:nd_] if nd_ != 1 else [k]
            lo, hi = rows.get(v, (2, K.jd - 1))
            full = v in ('tbar', 'ubar', 'tb')
            R = G + (rng_(j, lo, hi) if nd_ == 2 else []) + (rng_(k, 1, kmax) if full else rng_(k, 2, kmax - 1) if nd_ else [])
            t = cell.at(ix)
            if 'havoc:' in show(t):
                J.add('%s has a known value' % v, 'unsupported')
            J.eq('input rotated by one longitude: %s is unchanged' % v, map_sels(t, M), t, R, 60)
    return guarded(J, go)
