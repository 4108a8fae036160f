"""Contracts of the QG analysis classes, evaluated on concrete runs."""
import numpy as np

from . import ref
from .core import gen_case, make_field, make_input, quiet, field_kwargs, Violation, P0
from .ref import Grid
from .state import Run

TH, N22 = 'NH18', 'NHN22'
EDGE = ref.EDGE


def cases(rng, n, cls, **over):
    out = []
    for m in range(n):
        o = dict(over)
        o.setdefault('nh_only', bool(m % 2))
        c = gen_case(rng, **o)
        c['cls'] = cls
        if m % 5 == 4 and 'field' not in over:
            c['field'] = 'noise' if cls == N22 else 'wave'
        out.append(c)
    return out


# ---------------------------------------------------------------------------------------------- C01 / C02: QGPV
def qgpv_case(R, c):
    r = Run(R, c, c['cls'], 'interp')
    g = r.g
    u, v, th = (r.get(x) for x in ('interpolated_u', 'interpolated_v', 'interpolated_theta'))
    q = r.get('qgpv')
    av = ref.avort(g, u, v)
    ts, tn, ss, sn = r.thermo()
    eq = g.nd - 1
    t0 = np.where((np.arange(g.nlat) <= eq)[None, :], ts[:, None], tn[:, None])
    st = np.where((np.arange(g.nlat) <= eq)[None, :], ss[:, None], sn[:, None])
    G = av.mean(-1) if c['cls'] == TH else np.broadcast_to(g.f[None, :], (g.kmax, g.nlat))
    want = ref.qgpv(g, av, th, t0, st, G)
    R.close('qgpv=definition', q[1:-1], want[1:-1], 1e-8)
    R.close('returned tuple = property', r.tup['interp'].QGPV, q, 0, 0)


def C01(rng, n):
    return cases(rng, n, TH), qgpv_case


def C02(rng, n):
    return cases(rng, n, N22), qgpv_case


# ---------------------------------------------------------------------------------------------- C04: interpolation
def interp_case(R, c):
    lon, lat, plev, u, v, t = make_input(c)
    cls = c['cls']
    obj = R.no_raise('construct', lambda: make_field(c, cls))
    tup = R.no_raise('interpolate_fields', obj.interpolate_fields)
    g = Grid(c)
    z = -g.H * np.log(plev / P0)
    th = t * np.exp(g.kap * z / g.H)[:, None, None]
    got = [np.array(R.no_raise(x, lambda: getattr(obj, x))) for x in ('interpolated_u', 'interpolated_v', 'interpolated_theta')]
    for nm, x, y, w in zip(('u', 'v', 'theta'), got, (u, v, th), (tup.U, tup.V, tup.Theta)):
        want = y if c.get('even_z') else ref.lat_interp(y, z, g.z, 0)
        if c['nlat'] % 2 == 0:
            a = ref.lat_interp(want, lat, g.lat, 1)
            want = ref.lat_interp(a, g.lat, lat, 1)
        R.close('interpolated_%s' % nm, x, want, 1e-9)
        R.close('returned %s = property' % nm, w, x, 0, 0)
    R.close('height', obj.height, g.z, 1e-9)
    R.true('kmax', obj.kmax == c['kmax'], 'kmax %r' % obj.kmax)
    R.close('ylat', obj.ylat, lat, 1e-12)
    # static stability
    if c['nlat'] % 2:
        r = Run(R, c, cls, 'interp')
        ts, tn, ss, sn = r.thermo()
        got = obj.static_stability
        if cls == TH:
            R.close('static stability', got, ss, 1e-8)
        elif c['nh_only']:
            R.close('static stability N', got, sn, 1e-8)
        else:
            R.close('static stability S', got[0], ss, 1e-8)
            R.close('static stability N', got[1], sn, 1e-8)


def C04(rng, n):
    out = []
    for m in range(n):
        o = {}
        if m % 3 == 1:
            o['nlat'] = int(rng.choice([12, 14, 16, 18]))
        if m % 3 == 2:
            o['even_z'] = True
            k = int(rng.choice([7, 8, 9]))
            o['kmax'] = o['nlev'] = k
        if m % 5 >= 3:
            o['stored'] = ('fortran', 'int')[m % 5 - 3]
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool(m % 4 >= 2), **o)
    return out, interp_case


# ---------------------------------------------------------------------------------------------- C08: reference PV
def signed_q(r):
    """qgpv as seen from each hemisphere (that hemisphere's pole last), full sphere"""
    q = r.get('qgpv')
    return {'N': q, 'S': -q[:, ::-1]}


def qref_case(R, c):
    r = Run(R, c, c['cls'], 'ref')
    g = r.g
    npart = (c['npart'] or g.nlat) if c['cls'] == TH else g.nlat
    Q = signed_q(r)
    H = r.hemi('qref', sign_s=-1.0)
    pub = r.get('qref')
    R.close('returned tuple = property', r.tup['ref'].Qref, pub, 0, 0)
    for h, got in H.items():
        for k in range(1, g.kmax - 1):
            q = Q[h][k]
            w = [ref.qref_layer(g, q, npart, s) for s in (0, EDGE, -EDGE)]
            lo, hi = np.min(w, 0), np.max(w, 0)
            sc = np.abs(q).max()
            R.close('qref=equal area', got[k, 1:], w[0][1:], 1e-8, scale=sc, lo=lo[1:], hi=hi[1:])
            R.true('monotone', np.all(np.diff(got[k, 1:]) >= -1e-9 * sc), 'Qref decreases poleward at level %d (%s)' % (k, h))
            R.true('bounded', got[k, 1:].max() <= q.max() + 1e-9 * sc and got[k, 1:].min() >= q.min() - 1e-9 * sc,
                   'Qref outside the range of PV at level %d (%s)' % (k, h))


def C08(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool(m % 3 == 0), field=['wave', 'smooth', 'noise' if m % 2 else 'wave'][m % 3])
    return out, qref_case


# ---------------------------------------------------------------------------------------------- C16: SOR inversion
def norm_q(g, qref_h):
    """Qref/(2 Omega sin) on equator..pole with the extrapolated equator value; (k, nd)"""
    s = 2 * g.om * np.sin(g.dphi * np.arange(g.nd))
    out = np.array(qref_h)
    out[:, 1:] = out[:, 1:] / s[None, 1:]
    out[:, 0] = 2 * out[:, 1] - out[:, 2]
    return out


def elliptic(g, stat, qn, jb, u_eq, top):
    """dense solution of the reference-state boundary value problem for u*cos(phi) on rows jb..nd-1 (0-based):
    u at row jb given, 0 at the pole and at the ground; `top(idx, A, b)` fills the equations of the top level"""
    rows = list(range(jb + 1, g.nd - 1))
    K = g.kmax
    idx = {}
    for k in range(1, K):
        for j in rows:
            idx[(j, k)] = len(idx)
    n = len(idx)
    A = np.zeros((n, n))
    b = np.zeros(n)
    for k in range(1, K - 1):
        zp, zm = 0.5 * (g.z[k] + g.z[k + 1]), 0.5 * (g.z[k] + g.z[k - 1])
        sp, sm = 0.5 * (stat[k] + stat[k + 1]), 0.5 * (stat[k] + stat[k - 1])
        for j in rows:
            e = idx[(j, k)]
            p0, pp, pm = g.dphi * j, g.dphi * (j + 0.5), g.dphi * (j - 0.5)
            fact = 4 * g.om ** 2 * g.H * g.a ** 2 * np.sin(p0) * g.dphi ** 2 / (g.dz ** 2 * g.R * np.cos(p0))
            cc = fact * np.exp(g.z[k] / g.H) * np.exp((g.kap - 1) * zp / g.H) / sp
            dd = fact * np.exp(g.z[k] / g.H) * np.exp((g.kap - 1) * zm / g.H) / sm
            aa = 1 / (np.sin(pp) * np.cos(pp))
            bb = 1 / (np.sin(pm) * np.cos(pm))
            A[e, e] -= aa + bb + cc + dd
            b[e] = -g.om * g.a * g.dphi * (qn[k, j + 1] - qn[k, j - 1])
            if j + 1 < g.nd - 1:
                A[e, idx[(j + 1, k)]] += aa
            if j - 1 > jb:
                A[e, idx[(j - 1, k)]] += bb
            else:
                b[e] -= bb * u_eq[k]
            A[e, idx[(j, k + 1)]] += cc
            if k - 1 >= 1:
                A[e, idx[(j, k - 1)]] += dd
    top(idx, A, b, rows)
    x = np.linalg.solve(A, b)
    u = np.zeros((K, g.nd))
    for (j, k), e in idx.items():
        u[k, j] = x[e]
    return u


def tb_hemi(g, th_h):
    w = np.cos(g.dphi * np.arange(g.nd))
    return (th_h.mean(-1) * w[None]).sum(-1) / w.sum()


def sor_case(R, c):
    c = dict(c, tol=1e-10)
    r = Run(R, c, TH, 'ref')
    g = r.g
    ts, tn, ss, sn = r.thermo()
    Qh = r.hemi('qref', sign_s=-1.0)
    Uh = r.hemi('uref')
    u_full, th_full = r.get('interpolated_u'), r.get('interpolated_theta')
    qs = signed_q(r)
    npart = c['npart'] or g.nlat
    R.true('converged flag', not r.obj.nonconvergent_uref, 'nonconvergent_uref is set although the solver converged')
    for h, got in Uh.items():
        u = u_full if h == 'N' else u_full[:, ::-1]
        th = th_full if h == 'N' else th_full[:, ::-1]
        ub = u[:, g.nd - 1:].mean(-1)
        tbar = th[:, g.nd - 1:].mean(-1)
        qn = norm_q(g, Qh[h])
        u_eq = np.zeros(g.kmax)
        for k in range(1, g.kmax - 1):
            u_eq[k] = ub[k, 0] + (ref.cref_layer(g, qs[h][k], npart)[0] - ref.cbar_layer(g, qs[h][k])[0]) / (2 * np.pi * g.a)

        def top(idx, A, b, rows):
            K = g.kmax
            for j in rows:
                e = idx[(j, K - 1)]
                A[e, e] = 1.0
                A[e, idx[(j, K - 3)]] -= 1.0
                b[e] = -g.dz * g.R * np.cos(g.dphi * j) * np.exp(-g.z[K - 2] * g.kap / g.H) \
                    * (tbar[K - 2, j + 1] - tbar[K - 2, j - 1]) / (2 * g.om * np.sin(g.dphi * j) * g.dphi * g.H * g.a)
        uc = elliptic(g, ss, qn, 0, u_eq, top)
        cos = np.cos(g.dphi * np.arange(g.nd))
        want = np.zeros_like(uc)
        want[:, 1:-1] = uc[:, 1:-1] / cos[None, 1:-1]
        want[:, -1] = 2 * want[:, -2] - want[:, -3]
        want[:, 0] = ub[:, 0]
        mask = np.ones(want.shape, bool)
        if h == 'N' and not c['nh_only']:
            mask[:, 0] = False
        R.close('uref solves the elliptic problem', got, want, 2e-6, mask=mask)
    R.close('returned tuple = property', r.tup['ref'].Uref, r.get('uref'), 0, 0)


def sor_nonconv_case(R, c):
    import falwa.oopinterface as oop
    lon, lat, plev, u, v, t = make_input(c)
    kw = field_kwargs(c)
    kw['maxit'] = c['maxit']
    kw['tol'] = 1e-12

    def go(flag):
        o = oop.QGFieldNH18(lon, lat, plev, u, v, t, raise_error_for_nonconvergence=flag, **kw)
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        return o
    R.raises('nonconvergence raises', ValueError, lambda: go(True))
    o = R.no_raise('nonconvergence tolerated', lambda: go(False))
    R.true('nonconvergent_uref', bool(o.nonconvergent_uref), 'flag not set')
    R.raises('fluxes refused', ValueError, lambda: o.compute_lwa_and_barotropic_fluxes())
    R.raises('layerwise fluxes refused', ValueError, lambda: o.compute_layerwise_lwa_fluxes())
    R.no_raise('lwa only allowed', o.compute_lwa_only)
    g = Grid(c)
    uref = np.array(o.uref)
    mid = uref[:, 1:-1] if c['nh_only'] else np.concatenate([uref[:, 1:g.nd - 1], uref[:, g.nd:-1]], axis=1)
    R.close('no partial solution is published', mid, 0 * mid, 0, 1e-12)
    # another limit on the same object: what counts is the last computation
    for flag in (False, True):
        o = oop.QGFieldNH18(lon, lat, plev, u, v, t, raise_error_for_nonconvergence=flag, **kw)
        o.interpolate_fields(return_named_tuple=False)
        for it in (c['maxit'], 100000, c['maxit']):
            o.maxit, o.tol = it, 1e-12 if it == c['maxit'] else 1e-5
            e = None
            try:
                o.compute_reference_states(return_named_tuple=False)
            except ValueError as x:
                e = x
            lost = it == c['maxit']
            R.true('recomputed with maxit %s: %s' % ('too small' if lost else 'large', 'reported' if lost else 'no failure reported'),
                   bool(o.nonconvergent_uref) == lost and (e is not None) == (lost and flag), 'flag %s, error %r' % (o.nonconvergent_uref, e))
            if lost:
                R.raises('recomputed: fluxes refused', ValueError, lambda: o.compute_lwa_and_barotropic_fluxes())
                R.raises('recomputed: layerwise fluxes refused', ValueError, lambda: o.compute_layerwise_lwa_fluxes())
            else:
                R.no_raise('recomputed: fluxes', lambda: o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False))
                R.no_raise('recomputed: layerwise fluxes', lambda: o.compute_layerwise_lwa_fluxes())


def sor_onesided_case(R, c):
    """one hemisphere converges within maxit, the other does not: the failure must still be reported"""
    import falwa.oopinterface as oop
    lon, lat, plev, u, v, t = make_input(c)
    w = np.where(lat < 0, c['damp'], 1.0)[None, :, None]
    u, v = u * w, v * w
    if c['mirror']:
        u, v, t = u[:, ::-1], -v[:, ::-1], t[:, ::-1]
    kw = field_kwargs(c)

    def go(m, nh, uu, vv, tt):
        k = dict(kw, maxit=m, northern_hemisphere_results_only=nh)
        o = oop.QGFieldNH18(lon, lat, plev, uu, vv, tt, raise_error_for_nonconvergence=False, **k)
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        return o

    def need(uu, vv, tt):
        lo, hi = 1, 4000
        if go(hi, True, uu, vv, tt).nonconvergent_uref:
            return None
        while hi - lo > 1:
            m = (lo + hi) // 2
            if go(m, True, uu, vv, tt).nonconvergent_uref:
                lo = m
            else:
                hi = m
        return hi
    nn, ns = R.no_raise('solve', lambda: (need(u, v, t), need(u[:, ::-1], -v[:, ::-1], t[:, ::-1])))
    if nn is None or ns is None or nn == ns:
        return
    m = (nn + ns) // 2
    o = R.no_raise('nonconvergence tolerated', lambda: go(m, False, u, v, t))
    R.true('nonconvergence of one hemisphere is reported', bool(o.nonconvergent_uref),
           'maxit %d, needed %d (north), %d (south): flag not set' % (m, nn, ns))
    R.raises('fluxes refused when one hemisphere did not converge', ValueError, lambda: o.compute_lwa_and_barotropic_fluxes())
    k = dict(kw, maxit=m, northern_hemisphere_results_only=False)

    def strict():
        o = oop.QGFieldNH18(lon, lat, plev, u, v, t, **k)
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
    R.raises('nonconvergence of one hemisphere raises', ValueError, strict)


def C16(rng, n):
    out = cases(rng, max(3, n // 2), TH)
    for c in out:
        c['kind'] = 'solve'
        c['rjac'] = float(rng.choice([0.9, 0.95, 0.97]))
    for m in range(max(2, n // 4)):
        c = cases(rng, 1, TH, nh_only=bool(m % 2), maxit=int(rng.choice([2, 3, 6])))[0]
        c['kind'] = 'nonconv'
        out.append(c)
    for m in range(max(2, n // 12)):
        c = cases(rng, 1, TH, nh_only=False)[0]
        c.update(kind='onesided', mirror=bool(m % 2), damp=float(rng.choice([0.1, 0.4, 1.0])))
        out.append(c)
    return out, lambda R, c: dict(solve=sor_case, nonconv=sor_nonconv_case, onesided=sor_onesided_case)[c['kind']](R, c)


# ---------------------------------------------------------------------------------------------- C17: direct inversion
def direct_case(R, c):
    r = Run(R, c, N22, 'ref')
    g = r.g
    jb = r.jb
    ts, tn, ss, sn = r.thermo()
    Qh = r.hemi('qref', sign_s=-1.0)
    Uh = r.hemi('uref')
    u_full, v_full, th_full = (r.get(x) for x in ('interpolated_u', 'interpolated_v', 'interpolated_theta'))
    av_full = ref.avort(g, u_full, v_full)
    for h, got in Uh.items():
        av = av_full if h == 'N' else -av_full[:, ::-1]
        th = th_full if h == 'N' else th_full[:, ::-1]
        stat = sn if h == 'N' else ss
        tbar = th[:, g.nd - 1:].mean(-1)
        qn = norm_q(g, Qh[h]) 
        u_eq = np.zeros(g.kmax)
        alts = []
        for k in range(1, g.kmax - 1):
            cr = [ref.cref_layer(g, av[k], g.nlat, s)[jb] for s in (0, EDGE, -EDGE)]
            alts.append(abs(cr[1] - cr[2]))
            u_eq[k] = cr[0] / (2 * np.pi * g.a) - g.om * g.a * np.cos(g.dphi * jb)
        if max(alts) > 1e-6 * g.om * g.a ** 2:
            R.skipped.append('bin-edge tie')
            continue

        def top(idx, A, b, rows):
            K = g.kmax
            for j in rows:
                e = idx[(j, K - 1)]
                A[e, e] = 1.0
                A[e, idx[(j, K - 2)]] -= 1.0
                b[e] = -g.dz * g.R * np.cos(g.dphi * j) * np.exp(-g.z[K - 2] * g.kap / g.H) \
                    * (tbar[K - 1, j + 1] - tbar[K - 1, j - 1]) / (4 * g.om * np.sin(g.dphi * j) * g.dphi * g.H * g.a)
        uc = elliptic(g, stat, qn, jb, u_eq, top)
        cos = np.cos(g.dphi * np.arange(g.nd))
        want = np.zeros_like(uc)
        want[:, jb + 1:-1] = uc[:, jb + 1:-1] / cos[None, jb + 1:-1]
        want[:, -1] = 2 * want[:, -2] - want[:, -3]
        want[1:-1, jb] = u_eq[1:-1] / cos[jb]
        R.close('uref solves the elliptic problem', got[:, jb + 1:], want[:, jb + 1:], 1e-7)
        R.close('boundary wind', got[1:-1, jb], want[1:-1, jb], 1e-7, scale=np.abs(want).max())
    R.close('returned tuple = property', r.tup['ref'].Uref, r.get('uref'), 0, 0)


def C17(rng, n):
    return cases(rng, n, N22), direct_case


# ---------------------------------------------------------------------------------------------- C18: Tref
def tref_case(R, c):
    cls = c['cls']
    r = Run(R, c, cls, 'ref')
    g = r.g
    jb, nd, K = r.jb, g.nd, g.kmax
    ts, tn, ss, sn = r.thermo()
    Uh, Th = r.hemi('uref'), r.hemi('ptref')
    th_full = r.get('interpolated_theta')
    R.close('returned tuple = property', r.tup['ref'].PTref, r.get('ptref'), 0, 0)
    for h in Uh:
        u, t = Uh[h], Th[h]
        th = th_full[:, nd - 1:] if h == 'N' else th_full[:, :nd][:, ::-1]
        shared = h == 'N' and not c['nh_only'] and cls == TH
        phi = g.dphi * np.arange(nd)
        want = np.zeros((K - 2, nd))
        k = np.arange(1, K - 1)
        for j in range(jb + 1, nd - 1):
            if shared and j == 1:
                continue                       # row 0 belongs to the other hemisphere in a global result
            ty = -2 * g.om * np.sin(phi[j]) * (u[2:, j] - u[:-2, j]) / (2 * g.dz) * g.a * g.H \
                * np.exp(g.kap * g.z[1:-1] / g.H) / g.R
            R.close('thermal wind', t[1:-1, j + 1] - t[1:-1, j - 1], 2 * ty * g.dphi, 1e-8, scale=max(np.abs(t).max() * 0.01, 1))
        if not shared:
            w = np.cos(phi[jb:])
            mean = (t[:, jb:] * w).sum(-1) / w.sum()
            tb = tb_hemi(g, th) if cls == TH else (tn if h == 'N' else ts)
            R.close('hemispheric mean preserved', mean, tb, 1e-9)
            R.close('two chains start level', t[1:-1, jb], t[1:-1, jb + 1], 1e-9)
            R.close('ground level offset', t[0, jb:] - t[1, jb:], np.full(nd - jb, tb[0] - tb[1]), 1e-9, scale=np.abs(t).max())
            R.close('top level offset', t[-1, jb:] - t[-2, jb:], np.full(nd - jb, tb[-1] - tb[-2]), 1e-9, scale=np.abs(t).max())


def C18(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, tref_case


# ---------------------------------------------------------------------------------------------- C09: LWA
def lwa_case(R, c):
    cls = c['cls']
    r = Run(R, c, cls, 'fluxes')
    g = r.g
    jb, nd = r.jb, g.nd
    Qh = r.hemi('qref', sign_s=-1.0)
    qh = r.hemi('qgpv', sign_s=-1.0, full=True)
    L, B = r.hemi('lwa'), r.hemi('lwa_baro', axis=0)
    r.obj2 = R.no_raise('construct', lambda: make_field(c, cls))
    o2 = r.obj2
    for f in (o2.interpolate_fields, o2.compute_reference_states, o2.compute_lwa_only):
        R.no_raise('lwa_only pipeline', f)
    R.close('compute_lwa_only: lwa', o2.lwa, r.get('lwa'), 1e-9)
    R.close('compute_lwa_only: lwa_baro', o2.lwa_baro, r.get('lwa_baro'), 1e-9)
    o3 = R.no_raise('construct', lambda: make_field(c, cls))
    for f in (o3.interpolate_fields, o3.compute_reference_states, o3.compute_layerwise_lwa_fluxes):
        R.no_raise('layerwise fluxes first', f)
    R.close('compute_layerwise_lwa_fluxes: lwa', o3.lwa, r.get('lwa'), 1e-9)
    R.true('lwa >= 0', np.min(r.get('lwa')) >= 0)
    R.true('lwa_baro >= 0', np.min(r.get('lwa_baro')) >= 0)
    for h in L:
        anti, cyc = ref.lwa_layers(g, qh[h], Qh[h])
        want = anti + cyc
        want[:, :jb] = 0
        s = 0
        m = np.ones(want.shape, bool)
        if h == 'N' and not c['nh_only'] and jb == 0:
            m[:, 0] = False
        R.close('lwa=definition', L[h], want, 1e-8, mask=m)
        R.close('lwa_baro=vertical mean of lwa', B[h], ref.vavg(g, want, False), 1e-8, mask=m[0])
        R.close('no wave activity at the pole', L[h][:, -1], 0 * L[h][:, -1], 0, 0)
    tup = r.tup['fluxes']
    R.close('tuple lwa', tup.lwa, r.get('lwa'), 0, 0)
    R.close('tuple lwa_baro', tup.lwa_baro, r.get('lwa_baro'), 0, 0)


def C09(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, lwa_case


# ---------------------------------------------------------------------------------------------- C10/C11/C12: fluxes
class FluxRef:
    """reference layerwise fluxes per hemisphere from the public fields; rows equator -> pole"""

    def __init__(self, r, ncforce=None):
        g = self.g = r.g
        c = r.c
        jb, nd, K = r.jb, g.nd, g.kmax
        ts, tn, ss, sn = r.thermo()
        Q = r.hemi('qref', sign_s=-1.0)
        q = r.hemi('qgpv', sign_s=-1.0, full=True)
        U, T = r.hemi('uref'), r.hemi('ptref')
        u = r.hemi('interpolated_u', full=True)
        v = r.hemi('interpolated_v', sign_s=-1.0, full=True)
        th = r.hemi('interpolated_theta', full=True)
        phi = g.dphi * np.arange(nd)
        cos = np.cos(phi)
        self.h = {}
        for h in Q:
            tg = tn if h == 'N' else ts
            anti, cyc = ref.lwa_layers(g, q[h], Q[h])
            lwa = anti + cyc
            d = {}
            d['lwa'] = lwa
            d['ua1'] = U[h][:, :, None] * lwa

            def ueq(j):
                e = q[h] - Q[h][:, j][:, None, None]
                return e * (u[h] * cos[j] - U[h][:, j][:, None, None] * cos[None, :, None])
            d['ua2'] = ref.displacement_integral(g, q[h], Q[h], ueq, np.full(nd, g.a * g.dphi))
            ue = u[h] - U[h][:, :, None]
            te = th[h] - T[h][:, :, None]
            ep1 = np.zeros_like(ue)
            dT = (tg[2:] - tg[:-2])[:, None, None]
            ep1[1:-1] = (0.5 * v[h][1:-1] ** 2 - 0.5 * ue[1:-1] ** 2
                         - 0.5 * te[1:-1] ** 2 * (g.R / g.H) * np.exp(-g.kap * g.z[1:-1] / g.H)[:, None, None] * 2 * g.dz / dT
                         ) * cos[None, :, None]
            d['ep1'] = ep1
            m = ue * v[h] * (cos ** 2)[None, :, None]
            ep2 = np.zeros_like(m)
            ep3 = np.zeros_like(m)
            ep2[1:-1, :-1] = m[1:-1, 1:]
            ep3[1:-1, 1:] = m[1:-1, :-1]
            d['ep2'], d['ep3'] = ep2, ep3
            d['ep4'] = 2 * g.om * np.sin(phi)[:, None] * cos[:, None] * g.dz / g.prefac * (
                np.exp(-g.dz / g.H) * v[h][1] * te[1] / (tg[2] - tg[0]) + 0.5 * v[h][0] * te[0] / (tg[1] - tg[0]))
            if ncforce is not None:
                nc = ncforce[:, nd - 1:] if h == 'N' else -ncforce[:, :nd][:, ::-1]
                d['nc'] = ref.displacement_integral(g, q[h], Q[h], lambda j: nc, g.a * g.dphi * cos)
            for k_ in d:
                x = d[k_]
                if k_ == 'ep4':
                    x[:jb] = 0
                    x[-1] = 0
                else:
                    x[:, :jb] = 0
                    x[:, -1] = 0
            self.h[h] = d


def rows_ok(r, h, lo):
    """mask over rows equator->pole that are unambiguous: from `lo` on, dropping the shared equator row"""
    m = np.zeros(r.g.nd, bool)
    m[max(lo, 1 if (h == 'N' and not r.c['nh_only']) else 0):] = True
    return m


def zonal_flux_case(R, c):
    r = Run(R, c, c['cls'], 'layer')
    g, jb = r.g, r.jb
    F = FluxRef(r)
    pub = {n: r.hemi(n, axis=0) for n in ('adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'flux_vector_lambda_baro',
                                          'convergence_zonal_advective_flux')}
    lay = {n: r.hemi(n, axis=1) for n in ('ua1', 'ua2', 'ep1')}
    for h, d in F.h.items():
        m = rows_ok(r, h, jb)
        tot = 0
        for nm, key in (('adv_flux_f1', 'ua1'), ('adv_flux_f2', 'ua2'), ('adv_flux_f3', 'ep1')):
            R.close('layerwise ' + key, lay[key][h], d[key], 1e-8, mask=m[None, :, None])
            w = ref.vavg(g, d[key], False)
            R.close(nm, pub[nm][h], w, 1e-8, mask=m[:, None])
            tot = tot + pub[nm][h]
        R.close('flux_vector_lambda_baro = F1+F2+F3', pub['flux_vector_lambda_baro'][h], tot, 1e-9)
        cos = np.cos(g.dphi * np.arange(g.nd))
        conv = -(np.roll(tot, -1, 1) - np.roll(tot, 1, 1))
        conv[:-1] /= (2 * g.dlam * g.a * cos[:-1])[:, None]
        R.close('convergence of the zonal flux', pub['convergence_zonal_advective_flux'][h], conv, 1e-8, mask=(np.arange(g.nd) < g.nd - 1)[:, None])
        R.close('convergence sums to zero around each latitude circle', pub['convergence_zonal_advective_flux'][h].sum(-1),
                np.zeros(g.nd), 1e-9, scale=max(np.abs(conv).max(), 1e-30))
    for nm in ('adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux'):
        R.close('tuple ' + nm, getattr(r.tup['fluxes'], nm), r.get(nm), 0, 0)


def C10(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, zonal_flux_case


def merid_flux_case(R, c):
    r = Run(R, c, c['cls'], 'layer')
    g, jb = r.g, r.jb
    F = FluxRef(r)
    D, E = r.hemi('divergence_eddy_momentum_flux', axis=0), r.hemi('meridional_heat_flux', axis=0)
    # southern hemisphere: poleward = southward; 'ep2'/'ep3' are north/south neighbours in global orientation
    cos = np.cos(g.dphi * np.arange(g.nd))
    lay = {n: r.hemi(n, axis=1) for n in ('ep2', 'ep3')}
    pole = np.arange(g.nd) < g.nd - 1
    for h, d in F.h.items():
        m = rows_ok(r, h, jb + 1) & pole
        div = ref.vavg(g, d['ep2'] - d['ep3'], False)
        with np.errstate(all='ignore'):
            div = div / (2 * g.a * g.dphi * cos)[:, None]
        R.close('divergence_eddy_momentum_flux', D[h], div, 1e-8, mask=m[:, None], scale=np.nanmax(np.abs(div[m])))
        R.close('meridional_heat_flux', E[h], d['ep4'], 1e-8, mask=rows_ok(r, h, jb)[:, None])
        R.close('heat flux vanishes at the pole', E[h][-1], 0 * E[h][-1], 0, 0)
        R.close('no momentum flux divergence at the pole', D[h][-1], 0 * D[h][-1], 0, 1e-12)
        n_, s_ = ('ep2', 'ep3') if h == 'N' else ('ep3', 'ep2')
        sg = 1.0 if h == 'N' else -1.0
        R.close('layerwise ' + n_, lay[n_][h], sg * d['ep2'], 1e-8, mask=m[None, :, None])
        R.close('layerwise ' + s_, lay[s_][h], sg * d['ep3'], 1e-8, mask=m[None, :, None])
        # equatorward boundary row: every term comes from the row itself and its poleward neighbour
        if not (h == 'N' and not c['nh_only'] and jb == 0):
            j = jb
            one = ref.vavg(g, d['ep2'][:, j] - _own(d, g, j), False) / (2 * g.a * g.dphi * cos[j])
            R.close('boundary row uses only rows of the domain', D[h][j], one, 1e-8, scale=np.nanmax(np.abs(div[m])))
    # horizontal flux vector
    phi = r.get('flux_vector_phi_baro')
    u, v, U = r.get('interpolated_u'), r.get('interpolated_v'), r.get('uref')
    sl = slice(g.nd - 1, None) if c['nh_only'] else slice(None)
    want = ref.vavg(g, -(u[:, sl] - U[:, :, None]) * v[:, sl] * g.cos[None, sl, None], False)
    R.close('flux_vector_phi_baro', phi, want, 1e-8)
    for nm in ('divergence_eddy_momentum_flux', 'meridional_heat_flux'):
        R.close('tuple ' + nm, getattr(r.tup['fluxes'], nm), r.get(nm), 0, 0)


def _own(d, g, j):
    # momentum flux at row j itself = the equatorward term of row j+1
    x = d['ep3'][:, j + 1]
    return x


def C11(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, lambda R, c: (merid_flux_case(R, c), stretch_case(R, c))


def ncforce_case(R, c):
    rng = np.random.default_rng(c['seed'] + 1)
    g = Grid(c)
    nc = rng.standard_normal((g.kmax, g.nlat, g.nlon)) * 1e-10
    r = Run(R, c, c['cls'], 'layer', ncforce=nc)
    F = FluxRef(r, nc)
    P = r.hemi('ncforce_baro', axis=0)
    for h, d in F.h.items():
        R.close('ncforce_baro', P[h], ref.vavg(g, d['nc'], False), 1e-8, mask=rows_ok(r, h, r.jb)[:, None])
    # linear, and zero by default
    r0 = Run(R, c, c['cls'], 'fluxes')
    R.close('no forcing by default', r0.get('ncforce_baro'), 0 * r0.get('ncforce_baro'), 0, 0)
    for nm in ('lwa', 'adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'divergence_eddy_momentum_flux', 'meridional_heat_flux'):
        R.close('forcing changes no other output: ' + nm, r.get(nm), r0.get(nm), 1e-12)
    # heating rate -> PV forcing
    lon, lat, plev, u, v, t = r.data
    heat = rng.standard_normal(u.shape) * 1e-5
    got = R.no_raise('compute_ncforce_from_heating_rate', lambda: r.obj.compute_ncforce_from_heating_rate(heat))
    zin = -g.H * np.log(plev / P0)
    hz = ref.lat_interp(heat, zin, g.z, 0)
    ts, tn, ss, sn = r.thermo()
    eq = g.nd - 1
    st = np.empty((g.kmax, g.nlat))
    st[:, :eq], st[:, eq], st[:, eq + 1:] = ss[:, None], 0.5 * (ss + sn), sn[:, None]
    R.close('forcing from heating', got, _zder(g, hz, st), 1e-8)


def _zder(g, x, st):
    y = np.exp(-g.z / g.H)[:, None, None] * x / st[:, :, None]
    d = np.empty_like(y)
    d[1:-1] = (y[2:] - y[:-2]) / (2 * g.dz)
    d[0] = (y[1] - y[0]) / g.dz
    d[-1] = (y[-1] - y[-2]) / g.dz
    return d * (g.f[None, :] * np.exp(g.z / g.H)[:, None])[:, :, None]


def C12(rng, n):
    out = []
    for m in range(n):
        out += cases(rng, 1, [TH, N22][m % 2], nh_only=bool((m // 2) % 2))
    return out, ncforce_case


# ---------------------------------------------------------------------------------------------- C27: stretch term
def stretch_case(R, c):
    r = Run(R, c, c['cls'], 'layer')
    g = r.g
    ts, tn, ss, sn = r.thermo()
    eq = g.nd - 1
    st = np.empty((g.kmax, g.nlat))
    st[:, :eq], st[:, eq], st[:, eq + 1:] = ss[:, None], 0.5 * (ss + sn), sn[:, None]
    T = r.get('ptref')
    Tf = np.zeros((g.kmax, g.nlat))
    Tf[:, -T.shape[1]:] = T
    v, th = r.get('interpolated_v'), r.get('interpolated_theta')
    want = -_zder(g, v * (th - Tf[:, :, None]) * g.cos[None, :, None], st)
    if c['nh_only']:
        want = want[:, eq:]
    R.close('stretch_term', r.get('stretch_term'), want, 1e-8)
