"""Contracts of the barotropic functions, the utilities, the statistics and the xarray layer."""
import numpy as np

from . import ref
from .core import gen_case, make_field, make_input, field_kwargs, P0, quiet
from .p_qg import cases, TH, N22, _zder
from .ref import Grid


def stored(c, *xs):
    """(values, arrays): the same values as double precision and as the caller stores them: as they are, machine integers, a strided view, or with
    different memory orders"""
    kind = ('double', 'fortran', 'int', 'strided')[c['seed'] % 4]
    if kind == 'int':
        xs = [np.round(x * 1e6 / np.abs(x).max()) for x in xs]
    put = {'double': lambda x, q: x, 'int': lambda x, q: x.astype(int), 'strided': lambda x, q: np.repeat(x, 2, axis=-1)[..., ::2],
           'fortran': lambda x, q: np.asfortranarray(x) if q % 2 == 0 else x}[kind]
    return list(xs), [put(x, q) for q, x in enumerate(xs)]


def bcase(rng, **o):
    c = dict(nlat=int(rng.choice([9, 12, 15, 16, 21])), nlon=int(rng.choice([5, 8, 11])),
             a=float(rng.choice([6.378e6, 5.1e6, 1.0])), n_points=int(rng.choice([4, 7, 12, 20, 33])),
             seed=int(rng.integers(1 << 30)), mean=float(rng.choice([0.0, 0.5, -1.5])), noise=float(rng.choice([0.1, 0.6, 2.0])))
    c.update(o)
    return c


def bfield(c):
    """ylat, q, area, dmu, random extra field, dlambda/dphi"""
    rng = np.random.default_rng(c['seed'])
    nlat, nlon, a = c['nlat'], c['nlon'], c['a']
    lat = np.linspace(-90, 90, nlat)
    cl = np.abs(np.cos(np.deg2rad(lat)))
    dphi = np.pi / (nlat - 1)
    q = (np.sin(np.deg2rad(lat))[:, None] * 2 + c['mean'] + c['noise'] * rng.standard_normal((nlat, nlon)))
    area = (2 * np.pi * a ** 2 * cl * dphi / nlon)[:, None] * np.ones((nlat, nlon))
    area = area * (1 - 0.2 * rng.random((nlat, nlon)))          # an area element may depend on longitude
    dmu = a * cl * dphi
    _, (q, w) = stored(c, q, rng.standard_normal((nlat, nlon)))
    return lat, q, area, dmu, w, cl, dphi


def sphere(a):
    return 4 * np.pi * a ** 2


def cap_tables(q, area, n, w=None):
    """Q_i, area and integral of q (or bin mean of w) over {q < Q_i}, Q_i evenly spaced from min to max"""
    Q = np.linspace(q.min(), q.max(), n)
    below = np.array([area[q < x].sum() for x in Q])
    circ = np.array([(area * q)[q < x].sum() for x in Q])
    br = None
    if w is not None:
        dp = np.zeros(n)
        for i in range(1, n):
            m = (q >= Q[i - 1]) & (q < Q[i])
            if area[m].sum() != 0:
                dp[i] = (area * w)[m].sum() / area[m].sum()
        br = np.zeros(n)
        br[1:-1] = 0.5 * (dp[:-2] + dp[2:])
    return Q, below, circ, br


def at_lat(lat, A, vals, a, d=0.0):
    el = np.rad2deg(np.arcsin(np.minimum(A / (2 * np.pi * a ** 2) - 1, 1.0)))
    return np.interp(lat + d, el, vals)


def env_close(R, name, got, lat, A, vals, a, rtol=1e-9):
    w = [at_lat(lat, A, vals, a, d) for d in (0.0, 1e-5, -1e-5)]
    slope = np.max(w, 0) - np.min(w, 0)
    R.close(name, got, w[0], rtol, scale=np.abs(vals).max(), lo=np.min(w, 0) - 0 * slope, hi=np.max(w, 0))


# ------------------------------------------------------------------------------------------------ C05 barotropic LWA
def spec_lwa(q, Q, dmu, w=None):
    """anticyclonic, cyclonic parts and the integral of w over the displaced area (sum over latitude, per longitude)"""
    nlat, nlon = q.shape
    anti, cyc, sig = np.zeros(q.shape), np.zeros(q.shape), np.zeros(q.shape)
    for j in range(nlat - 1):
        for jj in range(nlat):
            e = q[jj] - Q[j]
            if jj > j:
                anti[j] += np.where(e < 0, -e, 0) * dmu[jj]
                if w is not None:
                    sig[j] -= np.where(e < 0, w[jj], 0) * dmu[jj]
            else:
                cyc[j] += np.where(e > 0, e, 0) * dmu[jj]
                if w is not None:
                    sig[j] += np.where(e > 0, w[jj], 0) * dmu[jj]
    return anti, cyc, sig


def blwa_case(R, c):
    from falwa import basis, wrapper
    from falwa.barotropic_field import BarotropicField
    lat, q, area, dmu, w, cl, dphi = bfield(c)
    rng = np.random.default_rng(c['seed'] + 1)
    nlat, nlon, a, n = c['nlat'], c['nlon'], c['a'], c['n_points']
    Q = np.sort(rng.uniform(q.min(), q.max(), nlat)).astype(q.dtype)
    anti, cyc, sig = spec_lwa(q, Q, dmu, w)
    got, s = R.no_raise('lwa', lambda: basis.lwa(nlon, nlat, q, Q, dmu))
    R.close('lwa = area-weighted displacement of the PV contours', got, anti + cyc, 1e-10)
    R.true('no forcing requested', s is None)
    R.true('lwa >= 0', got.min() >= 0)
    got2, s = R.no_raise('lwa', lambda: basis.lwa(nlon, nlat, q, Q, dmu, return_partitioned_lwa=True, ncforce=w))
    R.close('anticyclonic part', got2[0], anti, 1e-10, scale=got.max())
    R.close('cyclonic part', got2[1], cyc, 1e-10, scale=got.max())
    R.close('forcing over the displaced area', s, sig, 1e-10)
    got3, s3 = R.no_raise('lwa', lambda: basis.lwa(nlon, nlat, q, Q, dmu, ncforce=w))
    R.close('parts sum to the total', got2.sum(0), got3, 1e-12)
    R.close('same forcing', s3, s, 1e-12)
    # a zonally symmetric field that increases with latitude has no wave activity on its own profile
    prof = np.sort(rng.standard_normal(nlat))
    z = np.repeat(prof[:, None], nlon, 1)
    R.close('no wave activity without waves', R.no_raise('lwa', lambda: basis.lwa(nlon, nlat, z, prof, dmu))[0], 0 * z, 0, 0)
    # scaling and shifting the field
    k = float(rng.uniform(0.3, 3))
    R.close('linear in the amplitude', basis.lwa(nlon, nlat, k * q + 0.7, k * Q + 0.7, dmu)[0], k * got, 1e-9)
    # BarotropicField
    lon = np.linspace(0, 360, nlon, endpoint=False)
    kw = dict(n_partitions=n, planet_radius=a)
    b = R.no_raise('BarotropicField', lambda: BarotropicField(lon, lat, q, area=area, **kw))
    Qe = R.no_raise('equivalent_latitudes', lambda: np.array(b.equivalent_latitudes))
    A = cap_tables(q, area, n)
    env_close(R, 'BarotropicField.equivalent_latitudes', Qe, lat, A[1], A[0], a)
    an, cy, _ = spec_lwa(q, Qe, dmu)
    L = R.no_raise('lwa property', lambda: np.array(b.lwa))
    R.close('BarotropicField.lwa', L, an + cy, 1e-9)
    b2 = BarotropicField(lon, lat, q, area=area, return_partitioned_lwa=True, **kw)
    R.close('BarotropicField partitioned', R.no_raise('lwa property', lambda: np.array(b2.lwa)), np.array([an, cy]), 1e-9)
    R.close('independent of reading order', R.no_raise('', lambda: np.array(b2.equivalent_latitudes)), Qe, 1e-12)
    # default area and partition count, given grid spacing
    ar = (2 * np.pi * a ** 2 * np.cos(np.deg2rad(lat)) * dphi / nlon)[:, None] * np.ones((nlat, nlon))
    b3 = BarotropicField(lon, lat, q, planet_radius=a)
    A = cap_tables(q, ar, nlat)
    env_close(R, 'default area and partitions', R.no_raise('', lambda: np.array(b3.equivalent_latitudes)), lat, A[1], A[0], a)
    an, cy, _ = spec_lwa(q, np.array(b3.equivalent_latitudes), dmu)
    R.close('default area: lwa', R.no_raise('', lambda: np.array(b3.lwa)), an + cy, 1e-9)
    dp = dphi * rng.uniform(0.5, 1, nlat)
    b4 = BarotropicField(lon, lat, q, dphi=dp, planet_radius=a)
    ar = (2 * np.pi * a ** 2 * np.cos(np.deg2rad(lat)) * dp / nlon)[:, None] * np.ones((nlat, nlon))
    A = cap_tables(q, ar, nlat)
    env_close(R, 'given dphi', R.no_raise('', lambda: np.array(b4.equivalent_latitudes)), lat, A[1], A[0], a)
    an, cy, _ = spec_lwa(q, np.array(b4.equivalent_latitudes), a * cl * dp)
    R.close('given dphi: lwa', R.no_raise('', lambda: np.array(b4.lwa)), an + cy, 1e-9)


def C05(rng, n):
    return [bcase(rng) for _ in range(n)], blwa_case


# ------------------------------------------------------------------------------------------------ C06 equivalent latitude
def eqlat_case(R, c):
    from falwa import basis
    lat, q, area, dmu, w, cl, dphi = bfield(c)
    a, n, nlat = c['a'], c['n_points'], c['nlat']
    if c.get('coarse'):
        # few distinct values: many grid points share a contour
        lev = np.sort(np.random.default_rng(c['seed'] + 9).uniform(-3, 3, 9))
        q = lev[np.clip(np.searchsorted(lev, q), 0, 8)]
    Qr, fa = R.no_raise('eqvlat_fawa', lambda: basis.eqvlat_fawa(lat, q, area, n, planet_radius=a))
    Q, A, C, br = cap_tables(q, area, n, w)
    env_close(R, 'area enclosed by the contour = area of the cap', Qr, lat, A, Q, a)
    R.true('Q increases with latitude', np.all(np.diff(Qr) >= -1e-12 * np.abs(q).max()))
    R.true('Q within the range of q', Qr.min() >= q.min() - 1e-12 * np.abs(q).max() and Qr.max() <= q.max() + 1e-12 * np.abs(q).max())
    qa = q.mean(1) * area.sum(1)
    cbar = np.zeros(nlat)
    for j in range(nlat - 2, 0, -1):
        cbar[j] = cbar[j + 1] + 0.5 * (qa[j + 1] + qa[j])
    cr = [at_lat(lat, A, C, a, d) for d in (0, 1e-5, -1e-5)]
    f = [-(cbar[1:] + x[1:]) / (2 * np.pi * a) for x in cr]
    R.close('finite-amplitude wave activity', fa, f[0], 1e-9, scale=np.abs(C).max() / (2 * np.pi * a), lo=np.min(f, 0), hi=np.max(f, 0))
    Q2, none = R.no_raise('eqvlat_fawa', lambda: basis.eqvlat_fawa(lat, q, area, n, planet_radius=a, output_fawa=False))
    R.close('same Q without FAWA', Q2, Qr, 1e-12)
    R.true('no FAWA requested', none is None)
    q3, b3 = R.no_raise('eqvlat_vgrad', lambda: basis.eqvlat_vgrad(lat, q, area, n, planet_radius=a))
    R.close('eqvlat_vgrad: same Q', q3, Qr, 1e-9)
    R.true('no bracket requested', b3 is None)
    q4, b4 = R.no_raise('eqvlat_vgrad', lambda: basis.eqvlat_vgrad(lat, q, area, n, planet_radius=a, vgrad=w))
    R.close('eqvlat_vgrad: same Q with bracket', q4, Qr, 1e-9)
    env_close(R, 'bracket average', b4, lat, A, br, a)
    # rearranging the field within latitude circles of equal area weights does not change Q
    ar = np.repeat(area.mean(1)[:, None], c['nlon'], 1)
    rng = np.random.default_rng(c['seed'] + 3)
    qs = np.array([r[rng.permutation(r.size)] for r in q])
    x = basis.eqvlat_fawa(lat, q, ar, n, planet_radius=a)[0]
    y = basis.eqvlat_fawa(lat, qs, ar, n, planet_radius=a)[0]
    R.close('invariant under rearrangement', y, x, 1e-7)
    if c.get('coarse'):
        return
    k = float(rng.uniform(0.3, 3))
    y = basis.eqvlat_fawa(lat, k * q - 0.3, ar, n, planet_radius=a)[0]
    R.close('linear in the field', y, k * x - 0.3, 1e-6)


def C06(rng, n):
    return [bcase(rng, coarse=bool(m % 4 == 3)) for m in range(n)], eqlat_case


# ------------------------------------------------------------------------------------------------ C07 hemispheric wrappers
def hemi_case(R, c):
    from falwa import wrapper as W
    lat, q, area, dmu, w, cl, dphi = bfield(c)
    area = np.repeat(area.mean(1)[:, None], c['nlon'], 1)
    area = 0.5 * (area + area[::-1])
    rng = np.random.default_rng(c['seed'] + 4)
    vg = rng.standard_normal(q.shape)
    a, nlat, nlon = c['a'], c['nlat'], c['nlon']
    ns = c['nlat_s'] if c['nlat_s'] is not None else nlat // 2
    npt = c['n_points'] if not c['default_n'] else ns
    kw = dict(planet_radius=a)
    if c['nlat_s'] is not None:
        kw['nlat_s'] = ns
    if not c['default_n']:
        kw['n_points'] = npt
    ls, as_ = lat[:ns], area[:ns]

    def half(x, wx=None):
        Q, A, C, br = cap_tables(x, as_, npt, wx)
        f = lambda v: [at_lat(ls, A, v, a, d) for d in (0, 1e-5, -1e-5)]
        return f(Q), (f(br) if wx is not None else None)
    S, bS = half(q[:ns], vg[:ns])
    N, bN = half(-q[::-1][:ns], -vg[::-1][:ns])

    def check_q(name, got, sgn=-1.0, NN=None, SS=None, scale=None):
        NN, SS = NN or N, SS or S
        sc = scale or np.abs(q).max()
        got = np.asarray(got)
        if not R.true(name + ' shape', got.shape == (nlat,), str(got.shape)):
            return
        R.close(name + ' south', got[:ns], SS[0], 1e-9, scale=sc, lo=np.min(SS, 0), hi=np.max(SS, 0))
        n_ = [sgn * x[::-1] for x in NN]
        R.close(name + ' north', got[-ns:], n_[0], 1e-9, scale=sc, lo=np.min(n_, 0), hi=np.max(n_, 0))
        R.close(name + ' between', got[ns:nlat - ns], 0 * got[ns:nlat - ns], 0, 0)

    def check_l(name, got, Q, x=q, sg=1.0, f=None, forc=None):
        want, sig = np.zeros(q.shape), np.zeros(q.shape)
        for sl, s in ((slice(0, ns), 1.0), (slice(nlat - ns, nlat), sg)):
            an, cy, si = spec_lwa(s * x[sl], s * Q[sl], dmu[sl], None if f is None else f[sl])
            want[sl] = an + cy
            sig[sl] = si
        R.close(name, got, want, 1e-9)
        if f is not None:
            R.close(name + ' forcing', forc, sig, 1e-9)
    g = lambda nm, fn: R.no_raise(nm, fn)
    x = g('eqvlat_hemispheric', lambda: W.eqvlat_hemispheric(lat, q, area, **kw))
    check_q('eqvlat_hemispheric', x)
    x, b = g('eqvlat_bracket_hemispheric', lambda: W.eqvlat_bracket_hemispheric(lat, q, area, vgrad=vg, **kw))
    check_q('eqvlat_bracket_hemispheric', x)
    check_q('bracket', b, NN=bN, SS=bS, scale=np.abs(vg).max())
    x, b = g('eqvlat_bracket_hemispheric', lambda: W.eqvlat_bracket_hemispheric(lat, q, area, **kw))
    check_q('eqvlat_bracket_hemispheric without vgrad', x)
    R.true('no bracket requested', b is None)
    x, l = g('qgpv_eqlat_lwa', lambda: W.qgpv_eqlat_lwa(lat, q, area, dmu, **kw))
    check_q('qgpv_eqlat_lwa', x)
    check_l('qgpv_eqlat_lwa lwa', l, x)
    x, l, s = g('qgpv_eqlat_lwa_ncforce', lambda: W.qgpv_eqlat_lwa_ncforce(lat, q, w, area, dmu, **kw))
    check_q('qgpv_eqlat_lwa_ncforce', x)
    check_l('qgpv_eqlat_lwa_ncforce lwa', l, x, f=w, forc=s)
    for vv in (None, vg):
        for ff in (None, w):
            d = g('qgpv_eqlat_lwa_options', lambda: W.qgpv_eqlat_lwa_options(lat, q, area, dmu, vgrad=vv, ncforce=ff, **kw))
            R.true('result keys', set(d) == {'qref', 'lwa_result'} | ({'brac_result'} if vv is not None else set()) | ({'capsigma'} if ff is not None else set()), str(sorted(d)))
            check_q('options qref', d['qref'])
            check_l('options lwa', d['lwa_result'], d['qref'], f=ff, forc=d.get('capsigma'))
            if vv is not None:
                check_q('options bracket', d['brac_result'], NN=bN, SS=bS, scale=np.abs(vg).max())
    Q = np.sort(rng.standard_normal(nlat))
    kq = {k_: v for k_, v in kw.items() if k_ != 'n_points'}
    l = g('qgpv_input_qref_to_compute_lwa', lambda: W.qgpv_input_qref_to_compute_lwa(lat, Q, q, area, dmu, **kq))
    check_l('qgpv_input_qref_to_compute_lwa', l, Q)
    th = 300 - 10 * np.abs(q) if c.get('th') else 290 + 5 * rng.standard_normal(q.shape) - 20 * np.sin(np.deg2rad(lat))[:, None] ** 2
    tS, _ = half(th[:ns])
    tN, _ = half(th[::-1][:ns])
    x, l = g('theta_lwa', lambda: W.theta_lwa(lat, th, area, dmu, **kw))
    check_q('theta_lwa', x, 1.0, NN=tN, SS=tS, scale=np.abs(th).max())
    check_l('theta_lwa lwa', l, x, x=th, sg=-1.0)
    sym = np.repeat(th.mean(1)[:, None], nlon, 1)
    # global versions
    n_pts = c['n_points']
    x, l = g('barotropic_eqlat_lwa', lambda: W.barotropic_eqlat_lwa(lat, q, area, dmu, n_pts, planet_radius=a))
    T = cap_tables(q, area, n_pts)
    env_close(R, 'barotropic_eqlat_lwa', x, lat, T[1], T[0], a)
    an, cy, _ = spec_lwa(q, x, dmu)
    R.close('barotropic_eqlat_lwa lwa', l, an + cy, 1e-9)
    x2, l2 = g('barotropic_eqlat_lwa', lambda: W.barotropic_eqlat_lwa(lat, q, area, dmu, n_pts, planet_radius=a, return_partitioned_lwa=True))
    R.close('partitioned', l2, np.array([an, cy]), 1e-9)
    an, cy, _ = spec_lwa(q, Q, dmu)
    R.close('barotropic_input_qref_to_compute_lwa', g('', lambda: W.barotropic_input_qref_to_compute_lwa(lat, Q, q, area, dmu, planet_radius=a)), an + cy, 1e-9)


def C07(rng, n):
    out = []
    for m in range(n):
        c = bcase(rng, nlat=int(rng.choice([12, 15, 16, 21])), n_points=int(rng.choice([5, 9, 16])))
        c['nlat_s'] = None if m % 2 else int(rng.integers(4, c['nlat'] // 2 + 1))
        c['default_n'] = bool(m % 3 == 0)
        out.append(c)
    return out, hemi_case


# ------------------------------------------------------------------------------------------------ C03 static stability, QGPV
def stab_case(R, c):
    from falwa import utilities as U
    rng = np.random.default_rng(c['seed'])
    K, J, I, H = c['kmax'], c['nlat'], c['nlon'], c['H']
    z = np.cumsum(rng.uniform(0.5, 1.5, K)) * 1000 if c['uneven'] else np.arange(K) * 900.0
    lat = np.linspace(-90, 90, J)
    th = 290 + 0.004 * z[:, None, None] + rng.standard_normal((K, J, I)) + 0.002 * z[:, None, None] * rng.random((1, J, I))
    ar1 = np.abs(np.cos(np.deg2rad(lat))) * (1 + 0.3 * rng.random(J))
    ar = ar1[:, None] * (1 - 0.2 * rng.random((J, I)))
    _, (th,) = stored(c, th)
    s_et = J // 2 if c['s_et'] is None else c['s_et']
    n_et = J // 2 if c['n_et'] is None else c['n_et']
    kw = {k_: c[k_] for k_ in ('s_et', 'n_et') if c[k_] is not None}
    for nm, t, a in (('3d', th, ar), ('zonal mean', th.mean(-1), ar), ('1-d area', th, ar1)):
        got = R.no_raise('static_stability', lambda: U.static_stability(z, a, t, **kw))
        zm = t.mean(-1) if t.ndim == 3 else t
        w = a.mean(-1) if a.ndim == 2 else a
        want = []
        for sl in (slice(J - n_et, J), slice(0, s_et)):
            want.append((zm[:, sl] * w[None, sl]).sum(1) / w[sl].sum())
        for t0 in list(want):
            d = np.empty(K)
            d[1:-1] = (t0[2:] - t0[:-2]) / (z[2:] - z[:-2])
            d[0] = (t0[1] - t0[0]) / (z[1] - z[0])
            d[-1] = (t0[-1] - t0[-2]) / (z[-1] - z[-2])
            want.append(d)
        for n_, g_, w_ in zip(('t0_n', 't0_s', 'stat_n', 'stat_s'), got, want):
            R.close('%s (%s)' % (n_, nm), g_, w_, 1e-9)
    t0n, t0s, sn, ss = got
    av = rng.standard_normal((K, J, I)) * 1e-4
    _, (av,) = stored(c, av)
    om = float(rng.uniform(5e-5, 1e-4))
    ns = J // 2 if c['nlat_s'] is None else c['nlat_s']
    k2 = {} if c['nlat_s'] is None else dict(nlat_s=ns)
    qg, dz = R.no_raise('compute_qgpv_givenvort', lambda: U.compute_qgpv_givenvort(om, J, I, K, z, lat, av, th, t0n, t0s, sn, ss, scale_height=H, **k2))
    rows = np.arange(J)
    T0 = np.where((rows >= J - ns)[None], t0n[:, None], t0s[:, None])
    ST = np.where((rows >= J - ns)[None], sn[:, None], ss[:, None])
    x = np.exp(-z / H)[:, None, None] * (th - T0[:, :, None]) / ST[:, :, None]
    x[:, ns:J - ns] = 0
    d = np.zeros(x.shape)
    e = np.exp(z / H)[:, None, None]
    d[1:-1] = e[1:-1] * (x[2:] - x[:-2]) / (z[2:] - z[:-2])[:, None, None]
    d[0] = e[0] * (x[1] - x[0]) / (z[1] - z[0])
    d[-1] = e[-1] * (x[-1] - x[-2]) / (z[-1] - z[-2])
    R.close('stretching term', dz, d, 1e-9)
    f = 2 * om * np.sin(np.deg2rad(lat))[None, :, None]
    R.close('qgpv = absolute vorticity + f * stretching', qg, av + f * d, 1e-9)


def C03(rng, n):
    out = []
    for m in range(n):
        J = int(rng.choice([8, 11, 14, 17]))
        c = dict(kmax=int(rng.choice([4, 5, 9])), nlat=J, nlon=int(rng.choice([4, 7])), H=float(rng.choice([7000.0, 8100.0])),
                 uneven=bool(m % 2), s_et=None if m % 4 in (0, 1) else int(rng.integers(2, J // 2 + 1)),
                 n_et=None if m % 4 in (0, 2) else int(rng.integers(2, J // 2 + 1)),
                 nlat_s=None if m % 2 == 0 else int(rng.integers(2, J // 2 + 1)), seed=int(rng.integers(1 << 30)))
        out.append(c)
    return out, stab_case


# ------------------------------------------------------------------------------------------------ C22 spherical operators
def oper_case(R, c):
    from falwa import utilities as U
    rng = np.random.default_rng(c['seed'])
    J, I, a = c['nlat'], c['nlon'], c['a']
    lat = np.deg2rad(np.linspace(-90, 90, J)) if c['pole'] else np.deg2rad(np.linspace(-80, 80, J))
    cl = np.cos(lat)
    dl, dp = 2 * np.pi / I, lat[1] - lat[0]
    (f, h), (F, V) = stored(c, *rng.standard_normal((2, J, I)))
    tol = c['tol']
    kw = dict(planet_radius=a)
    got = R.no_raise('zonal_convergence', lambda: U.zonal_convergence(F, cl, dl, tol=tol, **kw))
    m = np.abs(cl) > tol
    d = np.roll(f, -1, 1) - np.roll(f, 1, 1)
    with np.errstate(all='ignore'):
        want = np.where(m[:, None], -d / (2 * dl * a * cl[:, None]), np.nan)
    R.close('zonal convergence = -1/(a cos) d/dlambda', got[m], want[m], 1e-10, scale=np.abs(want[m]).max())
    R.close('sums to zero around a latitude circle', got[m].sum(1), 0 * got[m].sum(1), 1e-10, scale=np.abs(want[m]).max() * I)
    got = R.no_raise('meridional_divergence', lambda: U.meridional_divergence(F, cl, dp, tol=tol, **kw))
    y = f * cl[:, None]
    mi = m.copy()
    mi[[0, -1]] = False
    with np.errstate(all='ignore'):
        want = np.full_like(f, np.nan)
        want[1:-1] = (y[2:] - y[:-2]) / (2 * dp * a * cl[1:-1, None])
    R.close('meridional divergence = 1/(a cos) d(cos F)/dphi', got[mi], want[mi], 1e-10)
    R.true('finite', np.isfinite(got).all())
    got = R.no_raise('curl_2d', lambda: U.curl_2d(F, V, cl, dl, dp, **kw))
    dv = (np.roll(h, -1, 1) - np.roll(h, 1, 1)) / (2 * dl)
    want = np.zeros_like(f)
    want[1:-1] = (dv[1:-1] - (y[2:] - y[:-2]) / (2 * dp)) / (a * cl[1:-1, None])
    R.close('curl', got, want, 1e-10)
    # default planet radius is the Earth's
    R.close('default radius', U.curl_2d(F, V, cl, dl, dp) * 6.378e6, got * a, 1e-9)
    R.close('default radius', (U.zonal_convergence(F, cl, dl) * 6.378e6)[1:-1], (U.zonal_convergence(F, cl, dl, **kw) * a)[1:-1], 1e-9)
    R.close('default radius', (U.meridional_divergence(F, cl, dp) * 6.378e6)[1:-1], (U.meridional_divergence(F, cl, dp, **kw) * a)[1:-1], 1e-9)
    # vertical derivative of a product
    K = c['kmax']
    nd = J // 2 + 1
    if J % 2:
        z = np.arange(K) * c['dz']
        ss, sn = rng.uniform(0.002, 0.006, (2, K))
        x = rng.standard_normal((K, J, I))
        mu = rng.standard_normal((K, J))
        (x, mu), (X, MU) = stored(c, x, mu)
        dec = np.exp(-z / 7000.0)
        got = R.no_raise('z_derivative_of_prod', lambda: U.z_derivative_of_prod(sn, ss, K, nd, c['dz'], dec, X, MU))
        st = np.empty((K, J))
        st[:, :nd - 1], st[:, nd - 1], st[:, nd:] = ss[:, None], 0.5 * (ss + sn), sn[:, None]
        y = dec[:, None, None] * x / st[:, :, None]
        d = np.empty_like(y)
        d[1:-1] = (y[2:] - y[:-2]) / (2 * c['dz'])
        d[0], d[-1] = (y[1] - y[0]) / c['dz'], (y[-1] - y[-2]) / c['dz']
        R.close('vertical derivative of the weighted product', got, d * mu[:, :, None], 1e-10)


def C22(rng, n):
    return [dict(nlat=int(rng.choice([7, 10, 13])), nlon=int(rng.choice([4, 7, 9])), a=float(rng.choice([6.378e6, 2.0])),
                 pole=bool(m % 2), tol=float(rng.choice([1e-5, 0.3])), kmax=int(rng.choice([3, 6])), dz=float(rng.choice([1.0, 800.0])),
                 seed=int(rng.integers(1 << 30))) for m in range(n)], oper_case


# ------------------------------------------------------------------------------------------------ C26 covariance
def cov_case(R, c):
    from falwa.stat_utils import calculate_covariance
    rng = np.random.default_rng(c['seed'])
    T, J, I = c['shape']
    a = rng.standard_normal((T, J, I)) * c['amp'] + c['off']
    b = 0.3 * a + rng.standard_normal((T, J, I))
    _, (a, b) = stored(c, a, b)
    cov = lambda x, y: ((x - x.mean(0)) * (y - y.mean(0))).sum(0) / (T - 1)
    f = lambda x, y: R.no_raise('calculate_covariance', lambda: calculate_covariance(x, y))
    sc = np.sqrt(a.var(0).max() * b.var(0).max())
    R.close('covariance over time at every grid point', f(a, b), cov(a, b), 1e-9, scale=sc)
    R.close('symmetric', f(b, a), f(a, b), 1e-9, scale=sc)
    R.close('variance', f(a, a), a.var(0, ddof=1), 1e-9)
    R.true('variance >= 0', f(a, a).min() >= 0)
    k_ = float(rng.uniform(-2, 2))
    R.close('bilinear and shift invariant', f(k_ * a + 5, b), k_ * f(a, b), 1e-8, scale=sc * max(abs(k_), 1))
    R.close('constant series', f(0 * a + 2, b), 0 * b[0], 0, 1e-12 * max(sc, 1))


def C26(rng, n):
    return [dict(shape=[int(rng.integers(2, 12)), int(rng.integers(1, 7)), int(rng.integers(2, 9))], amp=float(rng.choice([1, 30.0])),
                 off=float(rng.choice([0, 5.0])), seed=int(rng.integers(1 << 30))) for _ in range(n)], cov_case


# ------------------------------------------------------------------------------------------------ C23 xarray layer
STAGES = [('interpolate_fields', ['qgpv', 'interpolated_u', 'interpolated_v', 'interpolated_theta']),
          ('compute_reference_states', ['qref', 'uref', 'ptref']),
          ('compute_lwa_and_barotropic_fluxes', ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
           'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'ncforce_baro',
           'flux_vector_lambda_baro', 'flux_vector_phi_baro', 'lwa']),
          ('compute_layerwise_lwa_fluxes', ['lwa', 'ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'stretch_term'])]
NAMES = dict(plev=['plev', 'lev', 'level', 'isobaricInhPa', 'pressure_level'], ylat=['ylat', 'lat', 'latitude'],
             xlon=['xlon', 'lon', 'longitude'], u=['u', 'U'], v=['v', 'V'], t=['t', 'T'])


def xr_case(R, c):
    import xarray as xr
    import falwa.oopinterface as oop
    from falwa.xarrayinterface import QGDataset
    rng = np.random.default_rng(c['seed'] + 2)
    other = [tuple(o) for o in c['other']]
    shape = tuple(n for _, n in other)
    size = int(np.prod(shape, dtype=int))
    data = [make_input(dict(c, seed=c['seed'] + 31 * m)) for m in range(size)]
    lon, lat, plev = data[0][:3]
    nm = dict(zip(('plev', 'ylat', 'xlon', 'u', 'v', 't'), c['names']))
    var_names = {}
    if c['custom']:
        nm['ylat'], nm['v'] = 'phi_custom', 'merid_wind'
        var_names = dict(ylat='phi_custom', v='merid_wind')
    ocoords = {}
    for d, n in other:
        ocoords[d] = (np.datetime64('2005-01-23') + np.timedelta64(6, 'h') * np.arange(n)).astype('datetime64[ns]') if d == 'time' else np.arange(10, 10 + 5 * n, 5)
    dims = tuple(d for d, _ in other) + (nm['plev'], nm['ylat'], nm['xlon'])
    fl = tuple(slice(None, None, -1) if (ax == -3 and c['flip_p']) or (ax == -2 and c['flip_y']) else slice(None) for ax in (-3, -2, -1))
    coords = dict(ocoords)
    coords[nm['plev']], coords[nm['ylat']], coords[nm['xlon']] = plev[fl[0]], lat[fl[1]], lon

    def da(arrs, name=None):
        x = np.array([a[fl] for a in arrs]).reshape(shape + arrs[0].shape)
        return xr.DataArray(x, dims=dims, coords=coords, name=name)
    das = [da([d[3 + m] for d in data], nm[k_]) for m, k_ in enumerate('uvt')]
    ds = xr.Dataset({x.name: x for x in das})
    kw = field_kwargs(c)
    cls = oop.QGFieldNH18 if c['cls'] == TH else oop.QGFieldNHN22
    if c['cls'] == N22:
        kw['eq_boundary_index'] = c['jb']
    qk = dict(var_names=var_names or None, qgfield=cls, qgfield_kwargs=kw)
    if c['form'] == 'dataset':
        mk = lambda: QGDataset(ds, **qk)
    elif c['form'] == 'arrays':
        mk = lambda: QGDataset(*das, **qk)
    else:
        mk = lambda: QGDataset(ds[[nm['u'], nm['v']]].rename({nm['v']: nm['v']}), da_t=das[2], **qk)
    qg = R.no_raise('QGDataset', mk)
    R.true('one field per slice', len(qg.fields) == size, '%d fields' % len(qg.fields))
    fields = [cls(d[0], d[1], d[2], d[3], d[4], d[5], **kw) for d in data]
    J = c['nlat']
    odd = J % 2 == 1
    od = tuple(d for d, _ in other)
    heat = [rng.standard_normal(d[3].shape) * 1e-5 for d in data]
    nch, ncx = [None] * size, None
    turn = {d: slice(None, None, -1) for d in od} if c.get('backward') else {}   # matched by label, not by position
    for stage, names in STAGES:
        args = {}
        if stage in ('compute_lwa_and_barotropic_fluxes', 'compute_layerwise_lwa_fluxes') and odd and c['forcing']:
            if ncx is None:
                ncx = R.no_raise('compute_ncforce_from_heating_rate', lambda: qg.compute_ncforce_from_heating_rate(da(heat).isel(turn)))
                nch = [f.compute_ncforce_from_heating_rate(h) for f, h in zip(fields, heat)]
                compare(R, 'ncforce', ncx, nch, shape, od, ocoords, fields[0], J)
            args['ncforce'] = ncx.isel(turn)
        out = R.no_raise(stage, lambda: getattr(qg, stage)(**args))
        for f, x in zip(fields, nch):
            getattr(f, stage)(**(dict(ncforce=x) if args else {}))
        want = set(names)
        if stage == 'interpolate_fields':
            st = [f.static_stability for f in fields]
            if isinstance(st[0], tuple):
                want |= {'static_stability_n', 'static_stability_s'}
                if {'static_stability_n', 'static_stability_s'} <= set(out):
                    compare(R, 'static_stability_n', out['static_stability_n'], [s[1] for s in st], shape, od, ocoords, fields[0], J)
                    compare(R, 'static_stability_s', out['static_stability_s'], [s[0] for s in st], shape, od, ocoords, fields[0], J)
            else:
                want |= {'static_stability'}
                if 'static_stability' in out:
                    compare(R, 'static_stability', out['static_stability'], st, shape, od, ocoords, fields[0], J)
        R.true(stage + ' variables', set(out.data_vars) == want, 'variables %s' % sorted(out.data_vars))
        for n in names:
            if n not in out:
                continue
            compare(R, n, out[n], [getattr(f, n) for f in fields], shape, od, ocoords, fields[0], J)
            R.true('attribute = output ' + n, R.no_raise(n, lambda: getattr(qg, n)).identical(out[n]))
        for k_ in ('kmax', 'dz', 'npart', 'scale_height', 'cp', 'dry_gas_constant', 'omega', 'planet_radius', 'prefactor', 'tol', 'maxit', 'rjac'):
            R.true('attribute ' + k_, np.allclose(out.attrs[k_], getattr(fields[0], k_), rtol=1e-12), '%r' % (out.attrs.get(k_),))
        R.true('protocol', out.attrs['protocol'] == cls.__name__)
    q2 = mk()
    q2.interpolate_fields(return_dataset=False)
    q2.compute_reference_states(return_dataset=False)
    out = R.no_raise('compute_lwa_only', q2.compute_lwa_only)
    for f in fields:
        f.compute_lwa_only()
    for n in ('lwa', 'lwa_baro', 'u_baro'):
        compare(R, 'lwa_only ' + n, out[n], [getattr(f, n) for f in fields], shape, od, ocoords, fields[0], J)


def compare(R, n, x, fs, shape, od, ocoords, f0, J):
    n0 = n.split(' ')[-1]
    base = np.array(fs[0])
    want = np.array([np.array(a) for a in fs]).reshape(shape + base.shape)
    R.close('values of ' + n, x.values, want, 1e-12)
    core = {1: ('height',), 2: ('ylat', 'xlon'), 3: ('height', 'ylat', 'xlon')}[base.ndim]
    if n0 in ('qref', 'uref', 'ptref'):
        core = ('height', 'ylat')
    R.true('dimensions of ' + n, x.dims == od + core, str(x.dims))
    for d in od:
        R.true('coordinate %s of %s' % (d, n), np.array_equal(x[d].values, ocoords[d]))
    if 'ylat' in core:
        k = core.index('ylat')
        lat = f0.ylat if base.shape[k] == J else f0.ylat_ref_states
        R.close('latitudes of ' + n, x['ylat'].values, lat, 1e-12)
    if 'height' in core:
        R.close('heights of ' + n, x['height'].values, f0.height, 1e-12)
    if 'xlon' in core:
        R.close('longitudes of ' + n, x['xlon'].values, f0.xlon, 1e-12)


def C23(rng, n):
    out = []
    for m in range(max(4, n // 3)):
        o = dict(nlat=int(rng.choice([12, 14]))) if m % 4 == 3 else {}
        c = cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2), **o)[0]
        c['other'] = [[], [['time', 2]], [['time', 2], ['number', 2]], [['number', 3]]][int(rng.integers(4))]
        c['names'] = [str(rng.choice(NAMES[k_])) for k_ in ('plev', 'ylat', 'xlon', 'u', 'v', 't')]
        c['custom'] = bool(m % 5 == 4)
        c['flip_p'], c['flip_y'] = bool(rng.integers(2)), bool(rng.integers(2))
        c['form'] = ['dataset', 'arrays', 'mixed'][m % 3]
        c['forcing'] = bool(rng.integers(3))
        c['backward'] = bool(m % 2)
        out.append(c)
    return out, xr_case


# ------------------------------------------------------------------------------------------------ C24 xarray utilities
def globe_case(R, c):
    import xarray as xr
    from falwa.xarrayinterface import hemisphere_to_globe, integrate_budget
    rng = np.random.default_rng(c['seed'])
    n, I, T = c['n'], c['nlon'], c['nt']
    lat = np.linspace(0, 90, n) * (1 if c['north'] else -1)
    if c['eq_last']:
        lat = lat[::-1]
    ln = c['latname']
    vn = c['vname']
    x = {k_: rng.standard_normal((T, n, I)) for k_ in ('u', vn, 'temp')}
    ds = xr.Dataset({k_: (('time', ln, 'longitude'), v) for k_, v in x.items()},
                    coords={ln: lat, 'longitude': np.arange(I) * 1.0, 'time': np.arange(T)})
    ds['prof'] = ((ln,), rng.standard_normal(n))
    ds0 = ds.copy(deep=True)
    kw = {}
    if vn not in ('v', 'V'):
        kw['var_names'] = dict(v=vn)
    if ln not in NAMES['ylat']:
        kw.setdefault('var_names', {})['ylat'] = ln
    g = R.no_raise('hemisphere_to_globe', lambda: hemisphere_to_globe(ds, **kw))
    R.true('input unchanged', ds.identical(ds0))
    gl = g[ln].values
    R.true('latitudes strictly monotone, pole to pole, one equator', gl.shape == (2 * n - 1,) and (np.all(np.diff(gl) > 0) or np.all(np.diff(gl) < 0)) and np.allclose(np.sort(gl), np.linspace(-90, 90, 2 * n - 1)), str(gl))
    for k_ in x:
        R.close('given hemisphere kept: ' + k_, g[k_].transpose('time', ln, 'longitude').sel({ln: lat}).values, x[k_], 0, 0)
        other = lat[np.abs(lat) > 1e-4]
        w = ds0[k_].sel({ln: other}).values
        s = -1 if k_ == vn else 1
        R.close('mirrored hemisphere: ' + k_, g[k_].transpose('time', ln, 'longitude').sel({ln: -other}).values, s * w, 0, 0)
    R.close('mirrored profile', g['prof'].sel({ln: -other}).values, ds0['prof'].sel({ln: other}).values, 0, 0)
    bad = ds.isel({ln: slice(1, -1)})
    R.raises('no equator', (AssertionError, ValueError), lambda: hemisphere_to_globe(bad, **kw))
    # ---- budget integration
    tn = c['timename']
    dt = rng.integers(1, 12, T + 2)
    t = (np.datetime64('2005-01-23T00') + np.cumsum(dt).astype('timedelta64[h]')).astype('datetime64[%s]' % c['unit'])
    if c['seed'] % 5 == 3:          # latest first
        t = t[::-1].copy()
    names = ['lwa_baro', 'convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux', 'meridional_heat_flux']
    use = [n_ + '_x' for n_ in names] if c['renamed'] else names
    vals = [rng.standard_normal((T + 2, 4, 3)) * s for s in (50, 1e-4, 1e-4, 1e-4)]
    b = xr.Dataset({k_: ((tn, 'ylat', 'xlon'), v) for k_, v in zip(use, vals)}, coords={tn: t, 'ylat': np.arange(4.0), 'xlon': np.arange(3.0)}, attrs=dict(a=1))
    b0 = b.copy(deep=True)
    kw = dict(var_names=dict(zip(names, use))) if c['renamed'] else {}
    r = R.no_raise('integrate_budget', lambda: integrate_budget(b, **kw))
    R.true('input unchanged', b.identical(b0))
    sec = (t - t[0]) / np.timedelta64(1, 's')
    trap = lambda v: (0.5 * (v[1:] + v[:-1]) * np.diff(sec)[:, None, None]).sum(0)
    w = [trap(v) for v in vals[1:]]
    d = vals[0][-1] - vals[0][0]
    R.close('change of LWA', r['delta_lwa'].values, d, 1e-12)
    for n_, v in zip(names[1:], w):
        R.close('integrated ' + n_, r['integrated_' + n_].values, v, 1e-10)
    R.close('residual closes the budget', r['residual'].values, d - sum(w), 1e-9)
    R.close('interval', float(r.attrs['integration_seconds']), sec[-1], 1e-12)
    R.true('start, stop', r.attrs['integration_start'] == str(t[0]) and r.attrs['integration_stop'] == str(t[-1]))


def C24(rng, n):
    return [dict(n=int(rng.integers(3, 9)), nlon=int(rng.integers(2, 6)), nt=int(rng.integers(1, 4)), north=bool(m % 2),
                 eq_last=bool((m // 2) % 2), latname=str(rng.choice(['ylat', 'lat', 'latitude', 'phi_c'])),
                 vname=str(rng.choice(['v', 'V', 'vwnd'])), timename=str(rng.choice(['time', 'date', 'datetime', 'valid_time'])),
                 renamed=bool(rng.integers(2)), unit=['ns', 's', 'us', 'ms'][m % 4], seed=int(rng.integers(1 << 30))) for m in range(n)], globe_case


# ------------------------------------------------------------------------------------------------ C19 memory safety
def mem_case(R, c):
    """runs on a build whose kernels check every array access; an invalid access ends the process"""
    from .p_api import run_all, ALL
    g = Grid(c)
    rng = np.random.default_rng(c['seed'] + 5)
    nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10 if c['nlat'] % 2 else None
    r, A = run_all(R, c, c['cls'], ncforce=nc)
    R.no_raise('lwa only', r.obj.compute_lwa_only)
    for n in ALL:
        R.true('finite ' + n, np.isfinite(A[n]).all(), 'not finite')


def C19(rng, n):
    out = []
    for m in range(n):
        nlat = int(rng.choice([9, 11, 13, 14, 16, 17, 21, 31]))
        o = dict(nlat=nlat, nlon=int(rng.choice([3, 4, 5, 8, 13])), npart=[None, 4, 9, 50][int(rng.integers(4))],
                 field=['wave', 'smooth', 'noise'][m % 3])
        k = [TH, N22][m % 2]
        if k == TH:
            o['kmax'] = int(rng.choice([4, 5, 6, 9, 12]))
        else:
            o['kmax'] = int(rng.choice([6, 7, 9, 12]))
            o['jb'] = int(rng.integers(1, max(2, min(6, nlat // 2 - 3))))
        out += cases(rng, 1, k, nh_only=bool((m // 2) % 2), **o)
    return out, mem_case
