"""Contracts of the field objects: construction, interpolation, reference states, wave activity and fluxes, checked against the
contracts of the kernels they call.  Two latitude grids: `odd` (pole to pole with an equator row, the analysis grid itself) and `even`
(no equator row: interpolated to the analysis grid and back)."""
from .pycommon import *
from ..py import kernels
from ..py import shim
from ..terms import map_sels

nd, nlon, nlev, kmax = I('nd'), I('nlon'), I('nlev'), I('kmax')
H, DZ, A_, OM, RR, CPd, TOL, RJ = [var(x) for x in 'H dz a om rr cp tol rjac'.split()]
x_ = lambda name, *ix: sel(name, *[P(q) for q in ix])
PG = P(1000)


class Setup:
    """one configuration: symbolic inputs, preconditions and the meaning of the derived quantities"""

    def __init__(self, cls, grid='odd', nh=False, spaced=False, kw=None, ns='', rot=None):
        self.side = None                                       # hemisphere a definition is being written for
        self.cls, self.grid, self.nh, self.spaced, self.kw = cls, grid, nh, spaced, kw or {}
        self.na = 2 * nd - 1                                   # analysis grid
        self.nu = self.na if grid == 'odd' else self.na - 1    # user grid
        self.ulat = (lambda j: 90 * (P(j) - (nd - 1)) / (nd - 1)) if grid == 'odd' else (lambda j: (2 * P(j) + 1 - self.nu) * exp(x_('ylat', j)))     # any latitudes, southern ones first, none zero
        self.alat = lambda j: 90 * (P(j) - (nd - 1)) / (nd - 1)
        self.jb = I('jb') if cls == 'QGFieldNHN22' else ZERO
        self.K = nlev if spaced else kmax
        self.plev = (lambda k: PG * exp(-P(k) * DZ / H)) if spaced else (lambda k: x_('plev', k))
        self.zlev = (lambda k: P(k) * DZ) if spaced else (lambda k: -H * fn('log', x_('plev', k) / PG))
        self.facts = [cmp_ge(nd, 4), cmp_ge(nlon, 3), cmp_ge(nlev, 4), cmp_gt(H, 0), cmp_gt(DZ, 0), cmp_gt(A_, 0), cmp_gt(OM, 0), cmp_gt(RR, 0), cmp_gt(CPd, 0)]
        if not spaced:
            self.facts += [cmp_ge(kmax, 4), cmp_le(x_('plev', ONE) - x_('plev', ZERO), 0), cmp_ge(self.zlev(nlev - 1), (kmax - 1) * DZ)]
        if cls == 'QGFieldNHN22':
            self.facts += [cmp_ge(self.jb, 0), cmp_ge(nd - self.jb, 5)]
        if grid == 'even':
            self.facts += [cmp_le(self.ulat(ZERO), self.ulat(ONE))]
        self.hints = [nd - 1]
        self.tag = '%s, %s grid%s%s' % (cls.replace('QGField', ''), grid, ', north only' if nh else '', ', evenly spaced levels' if spaced else '')

    def theta(self, t='tt'):
        kap = RR / CPd
        return lambda k, j, i: x_(t, k, j, i) * exp(kap * self.zlev(k) / H)

    def inputs(self):
        n = self.nu
        own = lambda a, nm: (setattr(a.buf, 'owner', nm), a)[1]
        return [arr('xlon', nlon), own(Arr.of((n,), lambda ix: self.ulat(ix[0])), 'ylat'), own(Arr.of((nlev,), lambda ix: self.plev(ix[0])), 'plev'),
                arr('uu', nlev, n, nlon), arr('vv', nlev, n, nlon), arr('tt', nlev, n, nlon)]

    def kwargs(self):
        k = dict(dz=Num(DZ), scale_height=Num(H), cp=Num(CPd), dry_gas_constant=Num(RR), omega=Num(OM), planet_radius=Num(A_), npart=Num(I('npart')), tol=Num(TOL),
                 rjac=Num(RJ), maxit=Num(I('maxit')), northern_hemisphere_results_only=self.nh)
        if self.spaced:
            k['data_on_evenly_spaced_pseudoheight_grid'] = True
        else:
            k['kmax'] = Num(kmax)
        if self.cls == 'QGFieldNHN22':
            k['eq_boundary_index'] = Num(self.jb)
        k.update(self.kw)
        return k

    def build(self, w, inputs=None):
        return w.get('falwa.oopinterface.' + self.cls)(*(inputs or self.inputs()), **self.kwargs())

    def begin(self, J, extra=()):
        return J.begin(self.facts + list(extra), self.hints, externals=kernels.load(REPO))


    # ---- meaning of the data (in terms of the inputs), after begin()
    def lin(self, axis, x, n, f, shape, xnew, m):
        """linear interpolation (scipy's, extrapolating) of f along one axis from abscissae x(0..n-1) to xnew(0..m-1)"""
        sh = list(shape)
        sh[axis] = P(n)
        r = shim.Interp1d(Arr.of((P(n),), lambda ix: x(ix[0])), Arr.of(sh, lambda ix: f(*ix)), axis=axis, fill_value='extrapolate')(Arr.of((P(m),), lambda ix: xnew(ix[0])))
        return lambda *ix: r.elem([P(v) for v in ix])

    def meaning(self):
        """U, V, TH: the fields on the analysis grid (level, row, longitude); t0/st: the mean profile and static stability of a hemisphere"""
        s = self
        raw = dict(u=lambda k, j, i: x_('uu', k, j, i), v=lambda k, j, i: x_('vv', k, j, i), t=s.theta())
        s.at_lat = {n: (f if s.grid == 'odd' else s.lin(1, s.ulat, s.nu, f, (nlev, s.nu, nlon), s.alat, s.na)) for n, f in raw.items()}
        s.z = lambda k: P(k) * DZ
        s.at = {n: s.vertical(f) for n, f in s.at_lat.items()}
        s.U, s.V, s.TH = s.at['u'], s.at['v'], s.at['t']
        s.cl = lambda j: V.absval(cos(s.alat(j) * PI / 180))
        m = nd - s.jb
        prof = {}
        for hem in 'ns':
            row = (lambda j: s.na - m + j) if hem == 'n' else (lambda j: P(j))
            num = lambda k, row=row: s_common(ZERO, m - 1, lambda j: s_common(ZERO, nlon - 1, lambda i: s.at_lat['t'](k, row(j), i) * s.cl(row(j))) / nlon)
            den = s_common(ZERO, m - 1, lambda j: s.cl(j))
            prof[hem] = shim.Spline(Arr.of((nlev,), lambda ix: s.zlev(ix[0])), Arr.of((nlev,), lambda ix, num=num: num(ix[0]) / den))
        hh = Arr.of((s.K,), lambda ix: s.z(ix[0]))
        val = {(h, d): (prof[h] if d == 0 else prof[h].derivative())(hh) for h in 'ns' for d in (0, 1)}
        s.hemi = lambda h, d: (lambda k: val[h, d].elem([P(k)]))
        if s.cls == 'QGFieldNH18':
            both = lambda d: (lambda k: (s.hemi('n', d)(k) + s.hemi('s', d)(k)) / 2)
            s.t0, s.st = {h: both(0) for h in 'ns'}, {h: both(1) for h in 'ns'}
        else:
            s.t0, s.st = {h: s.hemi(h, 0) for h in 'ns'}, {h: s.hemi(h, 1) for h in 'ns'}
        s.pref = s_common(ZERO, s.K - 3, lambda k: exp(-(P(k) + 1) * DZ / H) * DZ)
        s.vav = lambda f: s_common(ZERO, s.K - 3, lambda k: f(P(k) + 1) * exp(-(P(k) + 1) * DZ / H) * DZ) / s.pref
        return s

    def vertical(self, f, rows=None):
        return f if self.spaced else self.lin(0, self.zlev, nlev, f, (nlev, self.na if rows is None else rows, nlon), lambda k: P(k) * DZ, kmax)

    # ---- publication: analysis rows to the rows of the user
    def rows(self):
        """number of published rows"""
        return (nd if self.grid == 'odd' else nd - 1) if self.nh else self.nu

    def first(self):
        """analysis row of the first published row (odd grid)"""
        return nd - 1 if self.nh else ZERO

    def pub(self, f, axis, lead, glob=False):
        """f(.., analysis row, ..) as published; lead: extents before and after the latitude axis"""
        nh = self.nh and not glob
        if self.grid == 'odd':
            o = nd - 1 if nh else ZERO
            return lambda *ix: f(*ix[:axis], P(ix[axis]) + o, *ix[axis + 1:])
        o = nd - 1 if nh else ZERO                             # nu/2 = nd-1 as well
        n = nd if nh else self.na
        sh = list(lead[:axis]) + [n] + list(lead[axis:])
        return self.lin(axis, lambda j: self.alat(P(j) + o), n, lambda *ix: f(*ix[:axis], P(ix[axis]) + o, *ix[axis + 1:]), sh,
                        lambda j: self.ulat(P(j) + o), nd - 1 if nh else self.nu)

    # ---- the calls of the kernels
    def const(self, **names):
        c = dict(a=A_, om=OM, dz=DZ, h=H, rr=RR, cp=CPd)
        return {new: c[old] for new, old in names.items()}

    def flip(self, f, sign=1):
        return lambda i, j, k: sign * f(i, self.na - 1 - P(j), k)

    def swapped(self, f):
        return lambda i, j, k: f(k, j, i)

    def d3(self, f):
        return ((nlon, self.na, self.K), f)

    def d1(self, f):
        return ((self.K,), f)

    def want_qgpv(self):
        s = self
        U_, V_, T_ = [s.swapped(f) for f in (s.U, s.V, s.TH)]
        if s.cls == 'QGFieldNH18':
            return 'compute_qgpv', {'Q': dict(ut=s.d3(U_), vt=s.d3(V_), theta=s.d3(T_), height=s.d1(s.z), t0=s.d1(s.t0['n']), stat=s.d1(s.st['n']), aa=A_, omega=OM, dz=DZ, hh=H, rr=RR, cp=CPd)}
        return 'compute_qgpv_direct_inv', {'Q': dict(jd=nd, uq=s.d3(U_), vq=s.d3(V_), tq=s.d3(T_), height=s.d1(s.z), ts0=s.d1(s.t0['s']), tn0=s.d1(s.t0['n']), stats=s.d1(s.st['s']),
                                                    statn=s.d1(s.st['n']), aa=A_, omega=OM, dz=DZ, hh=H, rr=RR, cp=CPd)}

    pv = staticmethod(lambda i, j, k: x_('Q:pv', i, j, k))
    avort = staticmethod(lambda i, j, k: x_('Q:avort', i, j, k))

    def hems(self):
        return ['n'] if self.nh else ['n', 's']

    def view(self, f, hem, sign=1):
        """a field as the northern hemisphere of the kernel sees it"""
        return f if hem == 'n' else self.flip(f, sign)

    def want_ref(self):
        """reference-state kernels of both hemispheres"""
        s = self
        dphi, dl = PI / (s.na - 1), 2 * PI / nlon
        U_, T_ = s.swapped(s.U), s.swapped(s.TH)
        if s.cls == 'QGFieldNH18':
            return 'compute_reference_states', {'R' + h: dict(pv=s.d3(s.view(s.pv, h, -1)), uu=s.d3(s.view(U_, h)), pt=s.d3(s.view(T_, h)), stat=s.d1(s.st[h]), jd=nd, npart=I('npart'),
                                                              maxits=I('maxit'), a=A_, om=OM, dz=DZ, eps=TOL, h=H, dphi=dphi, dlambda=dl, r=RR, cp=CPd, rjac=RJ) for h in s.hems()}
        return 'compute_qref_and_fawa_first', {'A' + h: dict(pv=s.d3(s.view(s.pv, h, -1)), uu=s.d3(s.view(U_, h)), vort=s.d3(s.view(s.avort, h, -1)), pt=s.d3(s.view(T_, h)), tn0=s.d1(s.t0[h]),
                                                             nd=nd, nnd=s.na, jb=s.jb, jd=nd - s.jb, a=A_, omega=OM, dz=DZ, h=H, dphi=dphi, dlambda=dl, rr=RR, cp=CPd) for h in s.hems()}

    # reference states as stored: rows of the analysis grid (poleward distance r from the equator in the kernel of the hemisphere)
    def stored(self, what):
        """(row, level) -> term; QREF over the planetary vorticity, UREF, PTREF"""
        s = self
        if s.cls == 'QGFieldNH18':
            nm, lo = {'qref': 'R%s:qref', 'uref': 'R%s:u', 'ptref': 'R%s:tref'}[what], ZERO
            f = lambda h, r, k: x_(nm % h, r, k)
        elif what == 'qref':
            lo = ZERO
            f = lambda h, r, k: x_('A%s:qref' % h, r, k) / (2 * OM)
        else:
            lo = s.jb
            nm = {'uref': 'W%s:u', 'ptref': 'W%s:tref'}[what]
            f = lambda h, r, k: x_(nm % h, P(r) - s.jb, k)

        def at(j, k):
            j = P(j)
            north = ite(cmp_ge(j - (nd - 1), lo), f('n', j - (nd - 1), k), ZERO)
            if s.nh:
                return north
            south = ite(cmp_ge(nd - 1 - j, lo), f('s', nd - 1 - j, k), ZERO)
            return ite(cmp_gt(j, nd - 1), north, south)
        return at

    def f0(self, j):
        return 2 * OM * sin(self.alat(j) * PI / 180)

    def want_flux(self, F=None):
        s = self
        U_, V_, T_ = [s.swapped(f) for f in (s.U, s.V, s.TH)]
        q, u, t = [s.stored(x) for x in ('qref', 'uref', 'ptref')]
        out = {}
        for h in s.hems():
            row = (lambda r: nd - 1 + P(r)) if h == 'n' else (lambda r: nd - 1 - P(r))
            sg = 1 if h == 'n' else -1
            out['F' + h] = dict(pv=s.d3(s.view(s.pv, h, -1)), uu=s.d3(s.view(U_, h)), vv=s.d3(s.view(V_, h, -1)), pt=s.d3(s.view(T_, h)),
                                ncforce=s.d3(s.view(F, h) if F else (lambda i, j, k: ZERO)), tn0=s.d1(s.t0[h]),
                                qref=((nd, s.K), lambda r, k, row=row, sg=sg: sg * q(row(r), k) * s.f0(row(r))),
                                uref=((nd - s.jb, s.K), lambda r, k, row=row: u(row(P(r) + s.jb), k)), tref=((nd - s.jb, s.K), lambda r, k, row=row: t(row(P(r) + s.jb), k)),
                                jb=s.jb, is_nhem=True, a=A_, om=OM, dz=DZ, h=H, rr=RR, cp=CPd, prefac=s.pref)
        return 'compute_flux_dirinv_nshem', out

    def want_lwaonly(self):
        n, w = self.want_flux()
        keep = 'pv uu qref jb is_nhem a om dz h rr cp prefac'.split()
        return 'compute_lwa_only_nhn22', {'L' + k[1:]: {x: v[x] for x in keep} for k, v in w.items()}

    def both(self, out, flip_to=None, sign=1, label='F'):
        """a kernel output on the analysis rows: (i, row, level...) ; southern rows take `flip_to` with `sign`"""
        s = self

        def at(i, j, *k):
            j = P(j)
            n = x_('%sn:%s' % (label, out), i, j - (nd - 1), *k)
            if s.nh or s.side == 'n':
                return n
            return ite(FALSE if s.side else cmp_gt(j, nd - 1), n, sign * x_('%ss:%s' % (label, flip_to or out), i, nd - 1 - j, *k))
        return at


FULL = ['qgpv', 'interpolated_u', 'interpolated_v', 'interpolated_theta']
REFS = ['qref', 'uref', 'ptref']
BARO = ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_lambda_baro',
        'flux_vector_phi_baro', 'lwa_baro', 'ncforce_baro', 'u_baro']
LAYER = ['ua1', 'ua2', 'ep1', 'ep2', 'ep3', 'stretch_term']
ALLP = FULL + REFS + BARO + LAYER + ['lwa']


RETURNED = dict(interp=dict(QGPV='qgpv', U='interpolated_u', V='interpolated_v', Theta='interpolated_theta', Static_stability='static_stability'), ref=dict(Qref='qref', Uref='uref', PTref='ptref'),
                flux={n: n for n in ('adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa')})


def scenario(s, w, steps, ncforce=None, read=True):
    """runs the steps and reads what they publish: (step, name) -> value"""
    def run():
        f = s.build(w)
        out = {'obj': f}
        kw = {} if ncforce is None else {'ncforce': ncforce()}
        for st in steps:
            base = st.split(' ')[0]
            ret = None
            tup = base in ('interp', 'ref', 'flux') and 'returned' in st
            if base == 'other':
                # another object of the same class on other data, computed completely; its kernel calls are its own
                keep, PS.calls = PS.calls, []
                g = s.build(w, [s.inputs()[0]] + s.inputs()[1:3] + [arr('other:' + n, nlev, s.nu, nlon) for n in 'uvt'])
                g.interpolate_fields(return_named_tuple=False)
                g.compute_reference_states(return_named_tuple=False)
                g.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
                g.compute_layerwise_lwa_fluxes()
                PS.calls = keep
                names = []
            elif base == 'reread':
                names = FULL + REFS + BARO + LAYER + ['lwa']
            elif base == 'interp':
                ret = f.interpolate_fields(return_named_tuple=tup)
                names = FULL + ['static_stability']
            elif base == 'ref':
                ret = f.compute_reference_states(return_named_tuple=tup)
                names = REFS
            elif base == 'flux':
                ret = f.compute_lwa_and_barotropic_fluxes(return_named_tuple=tup, **kw)
                names = BARO + ['lwa']
            elif base == 'layer':
                f.compute_layerwise_lwa_fluxes(**kw)
                names = LAYER + ['lwa']
            elif base == 'lwaonly':
                f.compute_lwa_only()
                names = ['lwa', 'lwa_baro', 'u_baro']
            if tup:
                for a, n in RETURNED[base].items():
                    out[st, n] = getattr(ret, a)
                continue
            for n in names if read else []:
                v = getattr(f, n)
                # the value at this time: a published array can be a view that the next step writes to
                out[st, n] = v.snapshot() if isinstance(v, Arr) and 'lwaonly' in steps and len(steps) > 3 else v
        return out
    return run


# ------------------------------------------------------------------------------------------------ kernel calls
def normaliser(ren):
    """renames the results of identified calls"""
    def f(n_, idx):
        if '#' in n_:
            k, o = n_.split(':', 1) if ':' in n_ else (n_, None)
            if k in ren and o is not None:
                return sel('%s:%s' % (ren[k], o), *idx)
        return None
    return lambda t: map_sels(P(t), f)


def differs(c, want, ctx, norm):
    """None when the call takes exactly these arguments, else (status, argument)"""
    for n, w in want.items():
        if n not in c['args']:
            raise Unsupported('interface of %s changed: no dummy %s' % (c['name'], n))
    res = None
    for n, w in want.items():
        g = c['args'][n]
        if isinstance(w, bool):
            if g is not w:
                return 'refuted', n
            continue
        if isinstance(w, tuple):
            sh, f = w
            if not isinstance(g, Arr) or g.ndim != len(sh):
                return 'refuted', n
            st = [ctx.decide(cmp_eq(x, y)) for x, y in zip(g._shape, sh)]
            if False in st:
                return 'refuted', n
            if None in st:
                res = res or ('unknown', n)
            idx = [ivar(v) for v in ['x', 'y', 'zz'][:len(sh)]]
            cx = ctx.child(*[q for v, m in zip(idx, sh) for q in (cmp_ge(v, 0), cmp_lt(v, m))])
            r = norm(g.elem(idx)) - P(f(*idx))
        else:
            if not isnum(g):
                return 'refuted', n
            cx, r = ctx, norm(term(g)) - P(w)
        st, fail = prove_zero(r, cx, 12.0)
        if st != 'proved':
            if fail is not None and refute(fail) is not None:
                return 'refuted', n, show(norm(r))[:500]
            res = res or ('unknown', n, show(norm(r))[:500])
    return res


def identify(J, tag, o, spec, ren, quiet=False):
    """every call of the kernel is the one the specification names (for one of the hemispheres); extends the renaming"""
    name, wants = spec
    seen = {}
    for c in o.calls:
        if c['name'] != name:
            continue
        t = time.time()
        why = []
        for lab, want in wants.items():
            d = differs(c, want, o.ctx, normaliser(ren))
            if d is None:
                ren[c['sym']] = lab
                seen[lab] = c
                break
            why.append((lab,) + d)
        else:
            worst = 'unknown' if any(x[1] == 'unknown' for x in why) else 'refuted'
            # what depends on the result is judged as if the arguments were right
            rest = [x for x in wants if x not in seen]
            if rest:
                ren[c['sym']] = rest[0]
                seen[rest[0]] = c
            J.add('%s: arguments of %s' % (tag, name), worst, time.time() - t, dict(differs=why))
            continue
        if not quiet:
            J.add('%s: arguments of %s (%s)' % (tag, name, lab), 'proved', time.time() - t)
    for lab in wants:
        if lab not in seen:
            J.add('%s: %s is called for %s' % (tag, name, lab), 'unsupported')
    return seen


def published(J, tag, o, key, want, shape, norm, names, facts=()):
    """obligation: the value read under `key` is want(indices)"""
    a = toarr(o.value[key])
    t = '%s: %s' % (tag, key[1]) + (' after %s' % key[0])
    if a.ndim != len(shape):
        J.add(t + ': dimensions', 'refuted')
        return
    J.holds(t + ': shape', c_and(*[cmp_eq(x, P(y)) for x, y in zip(a._shape, shape)]), o.ctx)
    idx = [ivar(n) for n in names]
    R = [f for x, nn in zip(idx, a._shape) for f in (cmp_ge(x, 0), cmp_lt(x, nn))]
    regions = want(*idx)
    if not isinstance(regions, list):
        regions = [('', [], regions)]
    for lab, cs, w in regions:
        J.eq(t + (' (%s)' % lab if lab else ''), norm(a.elem(idx)), norm(w), o.ctx.child(*R, *cs, *facts))


NO_LOSS = [cmp_lt(ivar('compute_reference_states#%d:num_of_iter' % n), I('maxit')) for n in range(4)]



# ------------------------------------------------------------------------------------------------ what is published
class Published:
    """every published quantity as a function on the analysis grid, in terms of the inputs and of the results of the kernels"""

    def __init__(self, s, label='F'):
        self.s = s
        b = lambda out, flip=None, sign=1: s.both(out, flip, sign, label)
        self.ua1, self.ua2, self.ep1 = b('ua1'), b('ua2'), b('ep1')
        self.ep2, self.ep3 = b('ep2', 'ep3', -1), b('ep3', 'ep2', -1)
        self.a1, self.a2 = b('astar1'), b('astar2')
        self.nc, self.ep4 = b('ncforce3d', None, -1), b('ep4')
        self.u, self.t, self.q = s.stored('uref'), s.stored('ptref'), s.stored('qref')

    def lev(self, f):
        """(level, row, longitude) of a kernel output"""
        return lambda k, j, i: f(i, j, k)

    def lwa(self, k, j, i):
        return self.a1(i, j, k) + self.a2(i, j, k)

    def mean(self, f):
        """vertical average of a (level, row, longitude) function"""
        s = self.s

        def at(j, i):
            r = {}
            for s.side in ([None] if s.nh else ['n', 's']):
                r[s.side] = s.vav(lambda k: f(k, j, i))
            s.side = None
            return r[None] if s.nh else ite(cmp_gt(P(j), nd - 1), r['n'], r['s'])
        return at

    def stat(self, k, j):
        s = self.s
        if s.st['n'] is s.st['s'] or s.cls == 'QGFieldNH18':
            return s.st['n'](k)
        return ite(cmp_gt(j, nd - 1), s.st['n'](k), ite(cmp_lt(j, nd - 1), s.st['s'](k), (s.st['n'](k) + s.st['s'](k)) / 2))

    def stretch(self, k, j, i):
        s = self.s
        X = lambda kk: exp(-P(kk) * DZ / H) * s.V(kk, j, i) * (s.TH(kk, j, i) - self.t(j, kk)) * s.cl(j) / self.stat(kk, j)
        m = -s.f0(j) * exp(P(k) * DZ / H)
        return ite(cmp_eq(k, 0), m * (X(ONE) - X(ZERO)) / DZ, ite(cmp_eq(k, s.K - 1), m * (X(s.K - 1) - X(s.K - 2)) / DZ, m * (X(k + 1) - X(k - 1)) / (2 * DZ)))

    def all(self):
        """name -> (axis of latitude, function on the analysis grid, published on the full globe whatever the hemisphere option)"""
        s = self.s
        F1, F2, F3 = [self.mean(self.lev(x)) for x in (self.ua1, self.ua2, self.ep1)]
        tot = lambda j, i: F1(j, i) + F2(j, i) + F3(j, i)
        dl, dphi = 2 * PI / nlon, PI / (s.na - 1)

        def conv(j, i):
            e = ite(cmp_eq(i, nlon - 1), tot(j, ZERO), tot(j, i + 1))
            w = ite(cmp_eq(i, 0), tot(j, nlon - 1), tot(j, i - 1))
            # (at a pole, where the cosine is below the tolerance, the difference is left as it is)
            return ite(cmp_gt(s.cl(j), P(Fraction(1, 100000))), -(e - w) / (2 * dl * A_ * s.cl(j)), e - w)
        return dict(
            qgpv=(1, lambda k, j, i: s.pv(i, j, k), True), interpolated_u=(1, s.U, True), interpolated_v=(1, s.V, True), interpolated_theta=(1, s.TH, True),
            qref=(1, lambda k, j: self.q(j, k) * s.f0(j), False), uref=(1, lambda k, j: self.u(j, k), False), ptref=(1, lambda k, j: self.t(j, k), False),
            adv_flux_f1=(0, F1, False), adv_flux_f2=(0, F2, False), adv_flux_f3=(0, F3, False), flux_vector_lambda_baro=(0, tot, False),
            convergence_zonal_advective_flux=(0, conv, False),
            divergence_eddy_momentum_flux=(0, lambda j, i: (self.mean(self.lev(self.ep2))(j, i) - self.mean(self.lev(self.ep3))(j, i)) / (2 * A_ * dphi * s.cl(j)), False),
            meridional_heat_flux=(0, lambda j, i: self.ep4(i, j), False),
            flux_vector_phi_baro=(0, self.mean(lambda k, j, i: -(s.U(k, j, i) - self.u(j, k)) * s.V(k, j, i) * s.cl(j)), False),
            lwa_baro=(0, self.mean(self.lwa), False), ncforce_baro=(0, self.mean(self.lev(self.nc)), False), u_baro=(0, self.mean(s.U), False),
            ua1=(1, self.lev(self.ua1), False), ua2=(1, self.lev(self.ua2), False), ep1=(1, self.lev(self.ep1), False), ep2=(1, self.lev(self.ep2), False), ep3=(1, self.lev(self.ep3), False),
            stretch_term=(1, self.stretch, False), lwa=(1, self.lwa, False))


ONE_VALUE = FULL + ['u_baro', 'qref']          # a single value at the equator; the others differ between the hemispheric computations


def check_published(J, s, o, keys, norm, table, facts=()):
    for key in keys:
        ax, f, glob = table[key[1]]
        nh = s.nh and not glob
        n = s.rows() if not glob else s.nu
        vec = key[1] in REFS
        shape = (s.K, n) if vec else (s.K, n, nlon) if ax == 1 else (n, nlon)
        g = s.pub(f, ax, (s.K,) if vec else (s.K, nlon) if ax == 1 else (nlon,), glob)
        names = 'kj' if vec else 'kji' if ax == 1 else 'ji'
        j = ivar('j')

        def want(*ix):
            v = g(*ix)
            if s.grid == 'even':
                return v
            if nh:
                return [('north', [cmp_gt(j, 0)], v), ('equator', [cmp_eq(j, 0)], v)]
            r = [('north', [cmp_gt(j, nd - 1)], v), ('south', [cmp_lt(j, nd - 1)], v)]
            if key[1] in ONE_VALUE:
                r.append(('equator', [cmp_eq(j, nd - 1)], v))
            return r
        published(J, s.tag, o, key, want, shape, norm, names, facts)


def sweep_calls(J, s, o, ren):
    """NHN22: the block elimination between the two kernels of each hemisphere; names the final sweep W<hem>"""
    norm = normaliser(ren)
    ups = [c for c in o.calls if c['name'] == 'upward_sweep']
    for c in ups:
        src = norm(c['args']['ckref'].elem([ivar('x'), ivar('y')])) if 'ckref' in c['args'] else None
        hem = next((h for h in s.hems() if src is not None and 'A%s:ckref' % h in sel_names(src)), None)
        t = time.time()
        if hem is None:
            J.add('%s: upward_sweep belongs to a hemisphere' % s.tag, 'unknown', 0, dict(ckref=show(src) if src is not None else None))
            continue
        tg = '%s, hemisphere %s' % (s.tag, hem)
        ren[c['sym']] = 'W' + hem
        m = nd - s.jb - 2
        A = lambda n_: (lambda *ix: x_('A%s:%s' % (hem, n_), *ix))
        # the loop whose result is passed on
        b4 = [x for x in o.calls if x['name'] == 'matrix_b4_inversion' and x['ids'].get('sjk') == c['ids'].get('sjk')]
        af = [x for x in o.calls if x['name'] == 'matrix_after_inversion' and x['ids'].get('sjk') == c['ids'].get('sjk') and x['ids'].get('tjk') == c['ids'].get('tjk')]
        lp = [x for x in o.calls if x['name'] == 'loop' and c['ids'].get('sjk') in x['init'] and c['ids'].get('tjk') in x['init']]
        if len(b4) != 1 or len(af) != 1 or len(lp) != 1:
            J.add(tg + ': one elimination loop', 'unsupported', 0, dict(b4=len(b4), after=len(af), loops=len(lp)))
            continue
        b4, af, lp = b4[0], af[0], lp[0]
        ren[b4['sym']], ren[af['sym']] = 'B' + hem, 'E' + hem
        norm = normaliser(ren)
        it = lp['iv']
        J.holds(tg + ': elimination from the top level but one down to the second', c_and(cmp_eq(lp['lo'], s.K - 1), cmp_eq(lp['hi'], P(2))) if lp['step'] == -1 else FALSE, o.ctx)
        state = {n_: sel_name(b4['args']['sjk'] if n_ == 'sjk' else af['args']['tjk']) for n_ in ('sjk', 'tjk')}

        def need(label, call, want, cx):
            t = time.time()
            d = differs(call, want, cx, norm)
            J.add('%s: %s' % (tg, label), 'proved' if d is None else d[0], time.time() - t, d)
        ph = lambda n_: (lambda *ix: sel(state[n_], *ix))
        inner = o.ctx.child(cmp_ge(it, 2), cmp_le(it, s.K - 1))
        need('arguments of the elimination step before inversion', b4, dict(k=it, jmax=s.na, jb=s.jb, z=s.d1(s.z), statn=s.d1(s.st[hem]), qref=((nd, s.K), A('qref')), ckref=((nd, s.K), A('ckref')),
                                                                            sjk=((m, m, s.K - 1), ph('sjk')), a=A_, om=OM, dz=DZ, h=H, rr=RR, cp=CPd), inner)
        inv = [x for x in o.calls if x['name'] == 'inverse' and 'B%s:qjj' % hem in sel_names(norm(x['arg'].elem([ivar('x'), ivar('y')])))]
        used = sel_names(af['args']['qjj'].elem([ivar('x'), ivar('y')])) if 'qjj' in af['args'] else ()
        inv = [x for x in inv if x['sym'] in used]
        if len(inv) != 1:
            J.add(tg + ': one inversion per level', 'unsupported')
            continue
        B_ = lambda n_: (lambda *ix: x_('B%s:%s' % (hem, n_), *ix, it))
        need('the matrix inverted is the one of the level', dict(args=dict(a=inv[0]['arg'])), dict(a=((m, m), B_('qjj'))), inner)
        need('arguments of the elimination step after inversion', af, dict(k=it, qjj=((m, m), lambda x, y: sel(inv[0]['sym'], x, y, it)), djj=((m, m), B_('djj')), cjj=((m, m), B_('cjj')),
                                                                           rj=((m,), B_('rj')), sjk=((m, m, s.K - 1), ph('sjk')), tjk=((m, s.K - 1), ph('tjk'))), inner)
        ix = [ivar(v) for v in ('x', 'y', 'zz')]
        for n_, dims in (('sjk', (m, m, s.K - 1)), ('tjk', (m, s.K - 1))):
            cell = lp['init'][c['ids'][n_]]
            v = ix[:len(dims)]
            R = [q for y, d in zip(v, dims) for q in (cmp_ge(y, 0), cmp_lt(y, d))]
            J.eq('%s: elimination starts from the top condition (%s)' % (tg, n_), norm(cell.at(v)), A(n_)(*v), o.ctx.child(*R))
        end = lambda n_: (lambda *ix: x_('E%s:%s' % (hem, n_), *ix, 2))
        need('arguments of the upward sweep', c, dict(jmax=s.na, jb=s.jb, sjk=((m, m, s.K - 1), end('sjk')), tjk=((m, s.K - 1), end('tjk')), ckref=((nd, s.K), A('ckref')), tb=s.d1(s.t0[hem]),
                                                      qref_over_cor=((nd, s.K), A('qref')), a=A_, om=OM, dz=DZ, h=H, rr=RR, cp=CPd), o.ctx)
    for h in s.hems():
        if 'W' + h not in ren.values():
            J.add('%s: upward_sweep is called for %s' % (s.tag, h), 'unsupported')


def sel_name(a):
    """name of the placeholder an array is"""
    t = a.elem([ivar('x'), ivar('y'), ivar('zz')][:a.ndim])
    n = sorted(x for x in sel_names(t) if x.startswith('ph:'))
    return n[0] if len(n) == 1 else 'none'


def identify_all(J, s, o, F=None, steps=('interp', 'ref', 'flux', 'layer')):
    ren = {}
    identify(J, s.tag, o, s.want_qgpv(), ren)
    steps = [x.split(' ')[0] for x in steps]
    if 'ref' in steps:
        identify(J, s.tag, o, s.want_ref(), ren)
        if s.cls == 'QGFieldNHN22':
            sweep_calls(J, s, o, ren)
    if 'flux' in steps or 'layer' in steps:
        identify(J, s.tag, o, s.want_flux(F), ren)
    if 'lwaonly' in steps:
        identify(J, s.tag, o, s.want_lwaonly(), ren)
    return ren


def whole(cls, grid, nh, spaced=False, forced=False, steps=('interp', 'ref', 'flux', 'layer'), note=''):
    def job():
        s = Setup(cls, grid, nh, spaced)
        J = PyJob('field.' + s.tag + (', forced' if forced else '') + note)

        def go():
            w = s.begin(J, NO_LOSS)
            s.meaning()
            F = (lambda i, j, k: x_('FF', k, j, i)) if forced else None
            nc = (lambda: arr('FF', s.K, s.nu, nlon)) if forced else None
            outs = J.normal(J.explore(scenario(s, w, list(steps), nc)), s.tag + ': no exception')
            J.frame(outs, s.tag + ': arguments unchanged')
            for o in outs:
                for c in o.calls:
                    if c['name'] == 'pre':
                        J.holds('%s: %s' % (s.tag, c['of']), c['cond'], c['ctx'], 'bounds')
                ren = identify_all(J, s, o, F, steps)
                norm = normaliser(ren)
                only = dict(Published(s, 'L').all())
                only['lwa_baro'] = (0, lambda j, i: s.both('astarbaro', None, 1, 'L')(i, j), False)
                only['u_baro'] = (0, lambda j, i: s.both('ubaro', None, 1, 'L')(i, j), False)
                full = Published(s, 'F').all()
                prover.NONNEG.update('%s%s:%s' % (l, h, x) for l in 'FL' for h in 'ns' for x in ('astar1', 'astar2'))     # proved: k_flux, 'wave activity is not negative'
                keys = [k for k in o.value if isinstance(k, tuple) and k[1] != 'static_stability']
                check_published(J, s, o, [k for k in keys if k[0].split(' ')[0] != 'lwaonly'], norm, full)
                check_published(J, s, o, [k for k in keys if k[0].split(' ')[0] == 'lwaonly'], norm, only)
        return guarded(J, go)
    return job


for _c in ('QGFieldNH18', 'QGFieldNHN22'):
    for _g in ('odd', 'even'):
        for _n in (False, True):
            globals()['whole_%s_%s_%s' % (_c[7:].lower(), _g, 'nh' if _n else 'gl')] = whole(_c, _g, _n)
    for _g in ('odd', 'even'):
        globals()['given_%s_%s' % (_c[7:].lower(), _g)] = whole(_c, _g, False, spaced=True)
    for _g in ('odd', 'even'):
        for _n in (False, True):
            _t = '%s_%s_%s' % (_c[7:].lower(), _g, 'nh' if _n else 'gl')
            globals()['returned_' + _t] = whole(_c, _g, _n, steps=('interp returned', 'ref returned', 'flux returned'), note=', named tuples')
            globals()['layerfirst_' + _t] = whole(_c, _g, _n, steps=('interp', 'ref', 'layer', 'flux'), note=', layerwise fluxes first')
            globals()['mixed_' + _t] = whole(_c, _g, _n, steps=('interp', 'ref', 'lwaonly', 'flux', 'layer', 'lwaonly again', 'flux again'), note=', wave activity before and after the fluxes')
            globals()['again_' + _t] = whole(_c, _g, _n, steps=('interp', 'ref', 'flux', 'layer', 'other object', 'reread', 'interp again', 'other object', 'ref again', 'flux again', 'layer again', 'reread again'),
                                             note=', other objects and recomputation')
    for _n in (False, True):
        globals()['forced_%s_%s' % (_c[7:].lower(), 'nh' if _n else 'gl')] = whole(_c, 'odd', _n, forced=True)
for _g in ('odd', 'even'):
    for _n in (False, True):
        globals()['lwaonly_%s_%s' % (_g, 'nh' if _n else 'gl')] = whole('QGFieldNHN22', _g, _n, steps=('interp', 'ref', 'lwaonly'), note=', wave activity only')
        globals()['lwaonly18_%s_%s' % (_g, 'nh' if _n else 'gl')] = whole('QGFieldNH18', _g, _n, steps=('interp', 'ref', 'lwaonly'), note=', wave activity only')
