"""Contracts over whole objects: symmetries, hemispheric restriction, averages, errors, purity, shapes."""
import numpy as np

from . import ref
from .core import gen_case, make_field, make_input, quiet, field_kwargs, P0
from .p_qg import cases, TH, N22
from .ref import Grid
from .state import Run

ZY = ['qref', 'uref', 'ptref']
FULL3 = ['qgpv', 'interpolated_u', 'interpolated_v', 'interpolated_theta']
LAY3 = ['lwa', 'ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'stretch_term']
BARO = ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
        'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_lambda_baro', 'flux_vector_phi_baro',
        'lwa_baro', 'u_baro', 'ncforce_baro']
ALL = FULL3 + ZY + LAY3 + BARO


def lat_axis(name):
    return 0 if name in BARO else 1


def run_all(R, c, cls, data=None, ncforce=None):
    r = Run(R, c, cls, 'layer', data=data, ncforce=ncforce)
    return r, {n: r.get(n) for n in ALL}


def pole_free(name, x, rows):
    """rows where the published quantity is well conditioned (the divergence divides by cos(lat))"""
    return x


# ------------------------------------------------------------------------------------- C13: mirror symmetry
PARITY = dict(qgpv=-1, interpolated_u=1, interpolated_v=-1, interpolated_theta=1, qref=-1, uref=1, ptref=1, lwa=1,
              ua1=1, ua2=1, ep1=1, stretch_term=1, adv_flux_f1=1, adv_flux_f2=1, adv_flux_f3=1,
              convergence_zonal_advective_flux=1, divergence_eddy_momentum_flux=1, meridional_heat_flux=1,
              flux_vector_lambda_baro=1, flux_vector_phi_baro=-1, lwa_baro=1, u_baro=1, ncforce_baro=1)


def mirror_case(R, c):
    c = dict(c, nh_only=False, tol=1e-9)
    rng = np.random.default_rng(c['seed'] + 5)
    lon, lat, plev, u, v, t = make_input(c)
    g = Grid(c)
    nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10
    r, A = run_all(R, c, c['cls'], ncforce=nc)
    data = (lon, lat, plev, u[:, ::-1].copy(), -v[:, ::-1], t[:, ::-1].copy())
    r2, B = run_all(R, c, c['cls'], data=data, ncforce=-nc[:, ::-1])
    eq = g.nd - 1
    for n, p in PARITY.items():
        ax = lat_axis(n)
        want = p * np.flip(A[n], axis=ax)
        # row of the equator is shared by the two hemispheric computations and taken from one of them; QGPV of NHN22
        # uses southern means there
        m = np.ones(g.nlat, bool)
        if n not in ('interpolated_u', 'interpolated_v', 'interpolated_theta'):
            m[eq] = False
        if n == 'divergence_eddy_momentum_flux':
            m[[0, -1]] = False
        sh = [1] * want.ndim
        sh[ax] = -1
        mm = m.reshape(sh)
        sc = np.abs(np.compress(m, want, axis=ax)).max()
        R.close('mirror ' + n, B[n], want, 3e-6 if n not in FULL3 else 1e-9, scale=sc, mask=mm)
    n_, s_ = A['ep2'], B['ep3']
    m = np.ones(g.nlat, bool)
    m[eq] = False
    R.close('mirror momentum flux terms', s_, -np.flip(n_, axis=1), 3e-6, mask=m[None, :, None])
    for x in (r, r2):
        R.no_raise('compute_lwa_only', x.obj.compute_lwa_only)
    for n in ('lwa', 'lwa_baro', 'u_baro'):
        want = np.compress(m, np.flip(r.get(n), axis=lat_axis(n)), axis=lat_axis(n))
        R.close('compute_lwa_only: mirror ' + n, np.compress(m, r2.get(n), axis=lat_axis(n)), want, 3e-6, scale=np.abs(want).max())
    if c['cls'] == N22:
        R.close('mirror static stability', r2.obj.static_stability[0], r.obj.static_stability[1], 1e-8)
        R.close('mirror static stability', r2.obj.static_stability[1], r.obj.static_stability[0], 1e-8)


def C13(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=False)
    return out, mirror_case


# ------------------------------------------------------------------------------------- C14: NH only
def nhonly_case(R, c):
    even = c['nlat'] % 2 == 0
    rng = np.random.default_rng(c['seed'] + 5)
    g = Grid(c)
    nc = None
    if not even:
        nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10
    lonly = dict(c, nh_only=True)
    r1, A = run_all(R, lonly, c['cls'], ncforce=nc)
    r2, B = run_all(R, dict(c, nh_only=False), c['cls'], ncforce=nc)
    nh = c['nlat'] // 2 if even else g.nd
    lat = np.asarray(r1.obj.ylat_ref_states)
    R.close('ylat_ref_states', lat, make_input(c)[1][-nh:], 1e-12)
    for n in ALL:
        ax = lat_axis(n)
        x, y = A[n], B[n]
        if n in FULL3:
            R.close('same global field ' + n, x, y, 1e-12)
            continue
        y = np.take(y, np.arange(c['nlat'] - nh, c['nlat']), axis=ax)
        m = np.ones(nh, bool)
        m[0] = False            # the equatorial row (or the row interpolated from it) is shared by both hemispheres
        if n in ('divergence_eddy_momentum_flux', 'convergence_zonal_advective_flux'):
            m[-1] = not even
            if n == 'divergence_eddy_momentum_flux':
                m[-1] = False
        sh = [1] * y.ndim
        sh[ax] = -1
        if R.true('shape ' + n, x.shape == y.shape, '%s vs NH half %s' % (x.shape, y.shape)):
            R.close('NH half ' + n, x, y, 1e-9, mask=m.reshape(sh))


def C14(rng, n):
    out = []
    for m in range(n):
        o = dict(nlat=int(rng.choice([14, 16, 18]))) if m % 3 == 2 else {}
        out += cases(rng, 1, [TH, N22][m % 2], **o)
    return out, nhonly_case


# ------------------------------------------------------------------------------------- C15: vertical averages
def vert_case(R, c):
    g = Grid(c)
    r = Run(R, c, c['cls'], 'fluxes')
    R.close('prefactor', r.obj.prefactor, g.prefac, 1e-10)
    u = r.get('interpolated_u')
    got = r.get('u_baro')
    sl = slice(g.nd - 1, None) if c['nh_only'] else slice(None)
    R.close('u_baro is the density-weighted mean', got, ref.vavg(g, u[:, sl], False), 1e-9)
    # a wind independent of height is its own vertical mean
    lon, lat, plev, _, v, t = make_input(c)
    rng = np.random.default_rng(c['seed'] + 9)
    col = rng.uniform(5, 20, size=(1, g.nlat, g.nlon)) * g.cos[None, :, None]
    data = (lon, lat, plev, np.repeat(col, c['nlev'], 0), v, t)
    r2 = Run(R, c, c['cls'], 'fluxes', data=data)
    R.close('mean of a constant profile', r2.get('u_baro'), col[0][sl], 1e-9)
    o = make_field(c, c['cls'])
    for f in (o.interpolate_fields, o.compute_reference_states, o.compute_lwa_only):
        R.no_raise('lwa_only pipeline', f)
    ub = np.array(o.u_baro)
    rows = np.zeros(g.nlat, bool)
    rows[g.nd - 1 + max(r.jb, 1):-1] = True
    rows |= rows[::-1]
    rows = rows[sl]
    R.close('compute_lwa_only: u_baro', ub, got, 1e-9, mask=rows[:, None])
    R.close('lwa_baro', r.get('lwa_baro'), ref.vavg(g, r.get('lwa'), False), 1e-9)


def C15(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, vert_case


# ------------------------------------------------------------------------------------- C20: order and validation
def order_case(R, c):
    import falwa.oopinterface as oop
    cls = c['cls']
    lon, lat, plev, u, v, t = make_input(c)
    kw = field_kwargs(c)
    k = oop.QGFieldNHN22 if cls == N22 else oop.QGFieldNH18
    if cls == N22:
        kw['eq_boundary_index'] = c['jb']

    def mk(lon=lon, lat=lat, plev=plev, u=u, v=v, t=t, **o):
        return k(lon, lat, plev, u, v, t, **dict(kw, **o))
    R.no_raise('valid input accepted', mk)
    R.raises('ascending plev', TypeError, lambda: mk(plev=plev[::-1]))
    R.raises('descending ylat', TypeError, lambda: mk(lat=lat[::-1]))
    R.raises('two equators / no equator on odd grid', TypeError, lambda: mk(lat=lat + 0.1))
    R.raises('wrong u shape', TypeError, lambda: mk(u=u[:, :, :-1]))
    R.raises('wrong v shape', TypeError, lambda: mk(v=v[:, :-1]))
    R.raises('wrong t shape', (TypeError, ValueError), lambda: mk(t=t[:-1]))
    R.raises('transposed u', TypeError, lambda: mk(u=np.swapaxes(u, 0, 2)) if u.shape[0] != u.shape[2] else mk(u=u[:, :, :-1]))
    hmax = -kw['scale_height'] * np.log(plev[-1] / P0)
    kbad = int(hmax // kw['dz']) + 2
    R.raises('kmax above the data', ValueError, lambda: mk(kmax=kbad))
    R.no_raise('largest valid kmax', lambda: mk(kmax=kbad - 1))
    o = mk()
    R.raises('t of one level', TypeError, lambda: mk(t=t[:1]))
    R.raises('t without levels', TypeError, lambda: mk(t=t[0]))
    later = ['qref', 'uref', 'ptref', 'lwa', 'lwa_baro', 'u_baro', 'ncforce_baro', 'adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
             'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_lambda_baro', 'flux_vector_phi_baro']
    for n in FULL3 + later:
        R.raises('read %s before interpolate_fields' % n, ValueError, lambda: getattr(o, n))
    R.raises('fluxes before interpolation', ValueError, lambda: o.compute_lwa_and_barotropic_fluxes())
    R.raises('reference states before interpolation', ValueError, lambda: o.compute_reference_states())
    R.no_raise('interpolate', o.interpolate_fields)
    R.raises('fluxes before reference states', ValueError, lambda: o.compute_lwa_and_barotropic_fluxes())
    R.raises('layerwise fluxes before reference states', ValueError, lambda: o.compute_layerwise_lwa_fluxes())
    for n in later:
        R.raises('read %s before compute_reference_states' % n, ValueError, lambda: getattr(o, n))
    for n in ('ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'stretch_term'):
        R.raises('read %s before layerwise fluxes' % n, ValueError, lambda: getattr(o, n))
    R.no_raise('reference states', o.compute_reference_states)
    for n in later[3:]:
        R.raises('read %s before the fluxes' % n, ValueError, lambda: getattr(o, n))
    R.no_raise('fluxes', o.compute_lwa_and_barotropic_fluxes)
    for n in ('ua1', 'ep3', 'stretch_term'):
        R.raises('read %s before layerwise fluxes' % n, ValueError, lambda: getattr(o, n))
    R.no_raise('layerwise', o.compute_layerwise_lwa_fluxes)
    for n in ('ua1', 'ep3', 'stretch_term'):
        R.no_raise('readable', lambda: getattr(o, n))
    # southern data do not exist in a northern-hemisphere-only object
    from falwa.data_storage import InvalidCallOfSHemVariables
    st = o.layerwise_flux_terms_storage
    if c['nh_only']:
        R.raises('southern part of a NH-only object', InvalidCallOfSHemVariables, lambda: st.lwa_shem)
        R.raises('writing southern part of a NH-only object', InvalidCallOfSHemVariables,
                 lambda: setattr(st, 'lwa_shem', np.array(st.lwa_nhem)))
    bad = np.zeros((c['kmax'], c['nlat'] + 1, c['nlon']))
    R.raises('ncforce of a wrong shape', (AssertionError, ValueError, TypeError),
             lambda: o.compute_lwa_and_barotropic_fluxes(ncforce=bad))


def C20(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, order_case


# ------------------------------------------------------------------------------------- C21: inputs untouched
def pure_case(R, c):
    from falwa import basis, wrapper, utilities
    from falwa.barotropic_field import BarotropicField
    rng = np.random.default_rng(c['seed'] + 3)
    data = make_input(c)
    g = Grid(c)
    nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10
    keep = [np.array(x, copy=True) for x in data] + [nc.copy()]
    r = Run(R, c, c['cls'], 'layer', data=data, ncforce=nc)
    heat = rng.standard_normal(data[3].shape)
    h0 = heat.copy()
    R.no_raise('heating', lambda: r.obj.compute_ncforce_from_heating_rate(heat))
    R.no_raise('lwa only', r.obj.compute_lwa_only)
    for nm, a, b in zip(('xlon', 'ylat', 'plev', 'u', 'v', 't', 'ncforce', 'heating'), list(data) + [nc, heat], keep + [h0]):
        R.true('input %s unchanged' % nm, np.array_equal(a, b), 'array %s was modified in place' % nm)
    mask = rng.random(data[3].shape) < 0.1
    fill = float(rng.uniform(-9, 9))
    mm = [np.ma.array(x.copy(), mask=mask.copy(), fill_value=fill) for x in data[3:]]
    Run(R, c, c['cls'], 'interp', data=tuple(data[:3]) + tuple(mm))
    for nm, a, b in zip('uvt', mm, data[3:]):
        R.true('masked input %s unchanged' % nm, np.array_equal(a.data, b) and np.array_equal(np.ma.getmaskarray(a), mask) and a.fill_value == fill, 'masked array %s was modified in place' % nm)
    # missing values are nobody's to fill in
    bad = lambda x: np.where(rng.random(x.shape) < 0.05, rng.choice([np.nan, np.inf, -0.0]), x)
    same = lambda a, b: a.tobytes() == b.tobytes()

    def attempt(f):
        try:
            with np.errstate(all='ignore'):
                f()
        except Exception:                      # refusing them is fine
            pass
    nc, heat = bad(nc), bad(heat)
    for nm, x, f in (('ncforce', nc, lambda: r.obj.compute_lwa_and_barotropic_fluxes(ncforce=nc, return_named_tuple=False)),
                     ('ncforce', nc, lambda: r.obj.compute_layerwise_lwa_fluxes(ncforce=nc)),
                     ('heating', heat, lambda: r.obj.compute_ncforce_from_heating_rate(heat))):
        x0 = x.copy()
        attempt(f)
        R.true('input %s with missing values unchanged' % nm, same(x, x0), 'array %s was modified in place' % nm)
    r.obj.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    r.obj.compute_layerwise_lwa_fluxes()
    ff = [bad(x) for x in data[3:]]
    f0 = [x.copy() for x in ff]
    attempt(lambda: make_field(c, c['cls'], tuple(data[:3]) + tuple(ff)))
    for nm, x, y in zip('uvt', ff, f0):
        R.true('input %s with missing values unchanged' % nm, same(x, y), 'array %s was modified in place' % nm)
    # outputs are not views through which one result corrupts another
    a = {n: r.get(n) for n in ALL}
    for n in ALL:
        x = getattr(r.obj, n)
        y = np.array(x, copy=True)
        R.close('reading twice ' + n, y, a[n], 0, 0)
    # barotropic functions
    nlat, nlon = c['nlat'], c['nlon']
    lat = data[1]
    q = 1e-4 * np.sin(np.deg2rad(lat))[:, None] + 1e-5 * rng.standard_normal((nlat, nlon))
    clat = np.abs(np.cos(np.deg2rad(lat)))
    area = 2 * np.pi * g.a ** 2 * (clat * np.pi / (nlat - 1))[:, None] / nlon * np.ones((nlat, nlon))
    dmu = g.a * clat * np.pi / (nlat - 1)
    f = rng.standard_normal((nlat, nlon))
    args = dict(lat=lat, q=q, area=area, dmu=dmu, f=f, clat=clat)
    k2 = {n: x.copy() for n, x in args.items()}
    H = nlat // 2

    def go():
        qr, _ = basis.eqvlat_fawa(lat, q, area, 11, planet_radius=g.a)
        basis.eqvlat_vgrad(lat, q, area, 11, planet_radius=g.a, vgrad=f)
        basis.lwa(nlon, nlat, q, qr, dmu, ncforce=f)
        wrapper.qgpv_eqlat_lwa(lat, q, area, dmu, planet_radius=g.a)
        wrapper.qgpv_eqlat_lwa_ncforce(lat, q, f, area, dmu, planet_radius=g.a)
        wrapper.qgpv_eqlat_lwa_options(lat, q, area, dmu, vgrad=f, ncforce=f, planet_radius=g.a)
        wrapper.eqvlat_hemispheric(lat, q, area, planet_radius=g.a)
        wrapper.theta_lwa(lat, q, area, dmu, planet_radius=g.a)
        utilities.zonal_convergence(f, clat, g.dlam)
        utilities.meridional_divergence(f, clat, g.dphi)
        utilities.curl_2d(f, q, clat + 0.1, g.dlam, g.dphi)
        b = BarotropicField(data[0], lat, q, planet_radius=g.a)
        b.lwa, b.equivalent_latitudes
    R.no_raise('barotropic functions', go)
    for n in args:
        R.true('argument %s unchanged' % n, np.array_equal(args[n], k2[n]), 'array %s was modified in place' % n)


def C21(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2), even_z=bool(m % 3 == 1))
        if out[-1].get('even_z'):
            out[-1]['nlev'] = out[-1]['kmax']
    return out, pure_case


# ------------------------------------------------------------------------------------- C25: shapes, idempotence
TUPLES = dict(interpolate_fields=dict(QGPV='qgpv', U='interpolated_u', V='interpolated_v', Theta='interpolated_theta'),
              compute_reference_states=dict(Qref='qref', Uref='uref', PTref='ptref'),
              compute_lwa_and_barotropic_fluxes={n: n for n in ('adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux',
                                                                'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa')})


def tuple_case(R, o, A):
    """the named tuples hold what the properties publish"""
    for meth, names in TUPLES.items():
        tup = R.no_raise('repeat ' + meth, lambda: getattr(o, meth)(return_named_tuple=True))
        for a, n in names.items():
            x = getattr(tup, a, None)
            R.true('tuple shape of ' + n, x is not None and np.shape(x) == A[n].shape, '%s, expected %s' % (np.shape(x), A[n].shape))
            if x is not None and np.shape(x) == A[n].shape:
                R.close('tuple ' + n, x, A[n], 1e-12)


def shape_case(R, c):
    even = c['nlat'] % 2 == 0
    r, A = run_all(R, c, c['cls'])
    o = r.obj
    K, J, I = c['kmax'], c['nlat'], c['nlon']
    jr = J if not c['nh_only'] else (J // 2 if even else J // 2 + 1)
    lat = make_input(c)[1]
    R.close('ylat', o.ylat, lat, 1e-12)
    R.close('ylat_ref_states', o.ylat_ref_states, lat[-jr:], 1e-12)
    R.true('latitude count', o.get_latitude_dim() == J)
    for n in ALL:
        want = {3: (K, J if n in FULL3 else jr, I), 2: (K, jr)}[3 if n in FULL3 + LAY3 else 2]
        if n in BARO:
            want = (jr, I)
        R.true('shape of ' + n, A[n].shape == want, '%s, expected %s' % (A[n].shape, want))
        fin = A[n][..., :] if n != 'divergence_eddy_momentum_flux' else A[n]
        R.true('finite ' + n, np.all(np.isfinite(fin)), 'not finite')
    # calling the methods again, in any later order, reproduces the results
    for f in (o.compute_lwa_only, o.compute_layerwise_lwa_fluxes, o.compute_reference_states,
              o.compute_lwa_and_barotropic_fluxes, o.compute_layerwise_lwa_fluxes):
        R.no_raise('repeat', f)
    for n in ALL:
        R.close('repeatable ' + n, r.get(n), A[n], 1e-12)
    R.no_raise('repeat interpolation', o.interpolate_fields)
    for n in FULL3:
        R.close('repeatable ' + n, r.get(n), A[n], 1e-12)
    tuple_case(R, o, A)
    o2 = make_field(c, c["cls"])
    for f in (o2.interpolate_fields, o2.compute_reference_states, o2.compute_layerwise_lwa_fluxes, o2.compute_lwa_only, o2.compute_lwa_and_barotropic_fluxes):
        R.no_raise("another order", f)
    for n in ALL:
        R.close("order of the steps: " + n, getattr(o2, n), A[n], 1e-9)
    # two objects do not share state
    d2 = make_input(dict(c, seed=c['seed'] + 17))
    run_all(R, c, c['cls'], data=d2)
    for n in ALL:
        R.close('independent of other objects: ' + n, r.get(n), A[n], 0, 0)


def C25(rng, n):
    out = []
    for m in range(n):
        o = dict(nlat=int(rng.choice([14, 16, 18]))) if m % 3 == 2 else {}
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2), **o)
    return out, shape_case


# ------------------------------------------------------------------------------------- C27: longitude shift
def shift_case(R, c):
    c = dict(c, tol=1e-9)
    rng = np.random.default_rng(c['seed'] + 5)
    lon, lat, plev, u, v, t = make_input(c)
    g = Grid(c)
    s = int(rng.integers(1, g.nlon))
    nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10
    _, A = run_all(R, c, c['cls'], ncforce=nc)
    sh = lambda x: np.roll(x, s, axis=-1)
    # the labels move with the data in every second case
    _, B = run_all(R, c, c['cls'], data=(sh(lon) if c['seed'] % 2 else lon, lat, plev, sh(u), sh(v), sh(t)), ncforce=sh(nc))
    for n in ALL:
        want = A[n] if n in ZY else np.roll(A[n], s, axis=-1)
        x = B[n]
        if n == 'divergence_eddy_momentum_flux':
            x, want = x[1:-1], want[1:-1]
        R.close('shift ' + n, x, want, 1e-6)


def C27(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, shift_case


# ------------------------------------------------------------------------------------- C28: grids without the equator
def even_case(R, c):
    c = dict(c, tol=1e-9)
    lon, lat, plev, u, v, t = make_input(c)
    g = Grid(c)
    r, A = run_all(R, c, c['cls'])
    up = lambda x: ref.lat_interp(x, lat, g.lat, 1)
    c2 = dict(c, nlat=g.nlat)
    if c2['npart'] is None:
        c2['npart'] = g.nlat
    _, B = run_all(R, c2, c['cls'], data=(lon, g.lat, plev, up(u), up(v), up(t)))
    for n in ALL:
        ax = lat_axis(n)
        y = B[n]
        if n in FULL3 or not c['nh_only']:
            want = ref.lat_interp(y, g.lat, lat, ax)
        else:
            want = ref.lat_interp(y, g.lat[g.nd - 1:], lat[c['nlat'] // 2:], ax)
        m = np.ones(want.shape[ax], bool)
        sh = [1] * want.ndim
        sh[ax] = -1
        R.close('regridded ' + n, A[n], want, 1e-6, mask=m.reshape(sh))
    tuple_case(R, r.obj, A)


def C28(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2), nlat=int(rng.choice([12, 14, 16, 18])))
    return out, even_case
