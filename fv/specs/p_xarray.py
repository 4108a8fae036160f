"""The dataset interface (C23, C24): every slice goes to its own field object, and what the field objects return comes back labelled.

The loop over slices is executed for an arbitrary slice of an arbitrary number of them, the field class is the one the user passes (`qgfield`): here an
arbitrary one, whose results are unknowns indexed by the slice.  xarray itself is assumed (fv/py/xr.py)."""
from .pycommon import *
from ..py import xr, kernels
import os
import re
from ..py.values import Slices

FIELDS = open(os.path.join(REPO, 'src/falwa/oopinterface.py')).read()
NXL, NYL, NPL, NK, NR = [I(x) for x in 'nxl nyl npl nk nref'.split()]
SZ = dict(height=NK, ylat=NYL, ylat_ref_states=NR, xlon=NXL)
H3 = ('height', 'ylat', 'xlon')
VARS = {}
for _n in 'qgpv interpolated_u interpolated_v interpolated_theta ncforce'.split():
    VARS[_n] = H3
for _n in 'qref uref ptref'.split():
    VARS[_n] = ('height', 'ylat_ref_states')
for _n in ('u_baro lwa_baro ncforce_baro adv_flux_f1 adv_flux_f2 adv_flux_f3 convergence_zonal_advective_flux divergence_eddy_momentum_flux meridional_heat_flux '
           'flux_vector_lambda_baro flux_vector_phi_baro').split():
    VARS[_n] = ('ylat_ref_states', 'xlon')
for _n in 'lwa ua1 ua2 ep1 ep2 ep3 stretch_term'.split():
    VARS[_n] = ('height', 'ylat_ref_states', 'xlon')
ATTRS = 'kmax dz maxit tol npart rjac scale_height cp dry_gas_constant omega planet_radius prefactor'.split()
OTHER = [('time', I('ntime')), ('member', I('nmember')), ('run', I('nrun'))]
STEPS = dict(
    interpolate_fields='qgpv interpolated_u interpolated_v interpolated_theta'.split(),
    compute_reference_states='qref uref ptref'.split(),
    compute_lwa_and_barotropic_fluxes=('adv_flux_f1 adv_flux_f2 adv_flux_f3 convergence_zonal_advective_flux divergence_eddy_momentum_flux meridional_heat_flux lwa_baro u_baro '
                                       'ncforce_baro flux_vector_lambda_baro flux_vector_phi_baro lwa').split(),
    compute_lwa_only='lwa_baro u_baro lwa'.split(),
    compute_layerwise_lwa_fluxes='lwa ua1 ua2 ep1 ep2 ep3 stretch_term'.split())


def unknown_field(made, hemispheric):
    """a class standing for any field class: what it publishes is unknown, depends on the slice and on the methods called so far"""
    class AnyField:
        def __init__(self, xlon, ylat, plev, u, v, t, *args, **kw):
            self.__dict__['log'] = []
            self.given = dict(xlon=toarr(xlon).snapshot(), ylat=toarr(ylat).snapshot(), plev=toarr(plev).snapshot(), u=toarr(u).snapshot(), v=toarr(v).snapshot(), t=toarr(t).snapshot(),
                              args=args, kw=kw)
            made.append(self)

        def __getattr__(self, n):
            s = PS.slices.s if PS.slices is not None else ZERO
            h = ';'.join(x[0] for x in self.log)
            if n in SZ:
                return self.given[n] if n in ('xlon', 'ylat') else Arr.symbol('field ' + n, (SZ[n],))
            if n in VARS:
                return Arr.of([SZ[x] for x in VARS[n]], lambda ix: sel('%s after %s' % (n, h), s, *ix))
            if n == 'static_stability':
                f = lambda q: Arr.of((NK,), lambda ix: sel('static_stability%s after %s' % (q, h), s, *ix))
                return (f('_s'), f('_n')) if hemispheric else f('')
            if n in ATTRS:
                return Num(var('field ' + n))
            if n.startswith('__'):
                raise AttributeError(n)
            if n in STEPS:
                return lambda *a, **k: self.log.append((n, a, {x: y.data.snapshot() if isinstance(y, xr.DataArray) else y for x, y in k.items()}))
            if n == 'compute_ncforce_from_heating_rate':
                def f(heating_rate):
                    self.log.append((n, (), dict(heating_rate=toarr(heating_rate).snapshot())))
                    return Arr.of([SZ[x] for x in H3], lambda ix: sel('heating forcing', s, *ix))
                return f
            if not re.search(r'\b(def |self\.)%s\b' % re.escape(n), FIELDS):
                raise AttributeError("'AnyField' object has no attribute '%s'" % n)
            raise Unsupported('field attribute ' + n)
    return AnyField


class Layout:
    """an input: other dimensions, orientation of latitude and pressure, names"""

    def __init__(self, nother, north, down, names=None, plain=False):
        self.other = OTHER[:nother]
        self.names = dict(dict(plev='plev', ylat='ylat', xlon='xlon', u='u', v='v', t='t'), **(names or {}))
        self.north, self.down = north, down
        self.sl = Slices([n for _, n in self.other]) if self.other else None
        self.at = [P(a) for a in self.sl.at] if self.sl else []

    def back(self):
        """position of the slice in an array whose other coordinates are stored backward"""
        return [n - 1 - a for (_, n), a in zip(self.other, self.at)]

    def facts(self):
        return [cmp_ge(x, 2) for x in (NXL, NYL, NPL, NK, NR)] + (self.sl.facts() if self.sl else [])

    def lat(self, j):
        """labels in the order of the data: strictly monotone, otherwise arbitrary"""
        v = ivar('ly')
        return x0('lat0') + (1 if self.north else -1) * s_common(ZERO, P(j) - 1, lambda m: exp(sel('dlat', m)))

    def lev(self, k):
        return x0('plev0') + (-1 if self.down else 1) * s_common(ZERO, P(k) - 1, lambda m: exp(sel('dplev', m)))

    def arrays(self):
        dims = tuple(d for d, _ in self.other) + tuple(self.names[x] for x in ('plev', 'ylat', 'xlon'))
        shape = [n for _, n in self.other] + [NPL, NYL, NXL]
        co = {d: ((d,), arr('label ' + d, n)) for d, n in self.other}
        co[self.names['plev']] = ((self.names['plev'],), Arr.of((NPL,), lambda ix: self.lev(ix[0]), owner='plev'))
        co[self.names['ylat']] = ((self.names['ylat'],), Arr.of((NYL,), lambda ix: self.lat(ix[0]), owner='ylat'))
        co[self.names['xlon']] = ((self.names['xlon'],), arr('xlon', NXL))
        return {x: xr.DataArray(arr(x, *shape), co, dims, self.names[x]) for x in 'uvt'}

    def kj(self, k, j):
        """position in the data of level k from the ground, row j from the south"""
        return (k if self.down else NPL - 1 - k), (j if self.north else NYL - 1 - j)


def backward(d, n):
    """the labels of a dimension in backward order: an array with these is matched to the winds by label, not by position"""
    return Arr.of((n,), lambda ix: sel('label ' + d, n - 1 - P(ix[0])), owner='label ' + d)


def x0(n):
    return var(n)


def instance(L, name, ix, *rest):
    """an unknown result of the field object of the slice with these indices"""
    if not L.other:
        return sel(name, ZERO, *rest)
    return sel(name, L.sl.number(ix), *rest)


def labelled(J, tag, o, da, var_, L, field, res=None, src=None):
    """the labelled array holds the results of the field objects, with the dimensions and coordinates of the input and of the field"""
    if not isinstance(da, xr.DataArray):
        return J.add(tag + ': a labelled array', 'refuted', 0, dict(got=type(da).__name__))
    core = VARS.get(var_, ('height',))
    dims = tuple(d for d, _ in L.other) + tuple('ylat' if d == 'ylat_ref_states' else d for d in core)
    J.add(tag + ': dimensions', 'proved' if da.dims == dims else 'refuted', 0, None if da.dims == dims else dict(got=da.dims, want=dims))
    J.add(tag + ': name', 'proved' if da.name == (src or var_) else 'refuted', 0, dict(name=str(da.name)))
    if da.dims != dims:
        return
    shape = [n for _, n in L.other] + [SZ[d] for d in core]
    J.holds(tag + ': shape', c_and(*[cmp_eq(a, b) for a, b in zip(da.data._shape, shape)]), o.ctx)
    ix = [ivar('x%d' % q) for q in range(len(dims))]
    R = [f for v, n in zip(ix, shape) for f in (cmp_ge(v, 0), cmp_lt(v, n))]
    no = len(L.other)
    J.eq(tag + ': values of the slices', da.data.elem(ix), instance(L, res, ix[:no], *ix[no:]), o.ctx.child(*R))
    for d, c, n in list(zip(dims, [None] * no + list(core), shape)):
        if d not in da.coords:
            J.add('%s: coordinate %s' % (tag, d), 'refuted', 0, dict(missing=d))
            continue
        v = ivar('x')
        want = sel('label ' + d, v) if c is None else toarr(getattr(field, c)).elem([v])
        J.eq('%s: coordinate %s' % (tag, d), da.coords[d].data.elem([v]), want, o.ctx.child(cmp_ge(v, 0), cmp_lt(v, n)))


def interface(nother, north, down, hemispheric=False, style='dataset', names=None, var_names=None, tag=''):
    def job():
        J = PyJob('QGDataset.%d other dimensions, latitude %s, pressure %s%s%s' % (nother, 'ascending' if north else 'descending', 'descending' if down else 'ascending',
                                                                                ', hemispheric stability' if hemispheric else '', ('' if style == 'dataset' else ', ' + style) + (', ' + tag if tag else '')))

        def go():
            L = Layout(nother, north, down, names)
            w = J.begin(L.facts(), hints=[], externals=kernels.load(REPO))
            Q = w.get('falwa.xarrayinterface.QGDataset')

            def run():
                PS.slices = L.sl
                made = []
                a = L.arrays()
                cls = unknown_field(made, hemispheric)
                kw = dict(qgfield=cls, qgfield_args=[Num(var('arg'))], qgfield_kwargs=dict(dz=Num(var('dz'))))
                if var_names:
                    kw['var_names'] = dict(var_names)
                nm = L.names
                if style == 'dataset':
                    ds = xr.Dataset({nm[x]: a[x] for x in 'uvt'})
                    ds.owner = 'dataset'
                    q = Q(ds, **kw)
                elif style == 'three arrays':
                    q = Q(a['u'], a['v'], a['t'], **kw)
                elif style == 'dataset and array':
                    q = Q(xr.Dataset({nm[x]: a[x] for x in 'uv'}), None, a['t'], **kw)
                else:
                    q = Q(xr.Dataset({nm['u']: a['u']}), xr.Dataset({nm['v']: a['v']}), xr.Dataset({nm['t']: a['t']}), **kw)
                r = dict(made=list(made), q=q, attrs=q.attrs, fields=q.fields)
                forcing = xr.DataArray(arr('ncforce', *([n for _, n in L.other] + [NK, NYL, NXL])), {d: ((d,), backward(d, n)) for d, n in L.other},
                                       tuple(d for d, _ in L.other) + ('height', 'ylat', 'xlon'))
                heating = xr.DataArray(arr('heating', *([n for _, n in L.other] + [NPL, NYL, NXL])), {d: ((d,), backward(d, n)) for d, n in L.other},
                                       tuple(d for d, _ in L.other) + tuple(nm[x] for x in ('plev', 'ylat', 'xlon')))
                for st, k in (('interpolate_fields', {}), ('compute_reference_states', {}), ('compute_lwa_and_barotropic_fluxes', {}), ('compute_lwa_and_barotropic_fluxes', dict(ncforce=forcing)),
                              ('compute_layerwise_lwa_fluxes', {}), ('compute_layerwise_lwa_fluxes', dict(ncforce=forcing)), ('compute_lwa_only', {})):
                    res = getattr(q, st)(**k)
                    nmr = st + (' with forcing' if k else '')
                    r[nmr] = (res, list(made[0].log), {n: getattr(q, n) for n in STEPS[st]}, res.attrs if isinstance(res, xr.Dataset) else None)
                    if st == 'interpolate_fields':
                        r['static_stability'] = q.static_stability
                r['quiet'] = [getattr(q, st)(return_dataset=False) for st in STEPS]
                r['heating'] = (q.compute_ncforce_from_heating_rate(heating), list(made[0].log)[-1])
                return r
            outs = J.normal(J.explore(run))
            J.frame(outs)
            for o in outs:
                r = o.value
                made = r['made']
                J.add('one field object per slice', 'proved' if len(made) == 1 and (r['fields'].elem is made[0] if L.sl else list(r['fields']) == made) else 'refuted')
                if not made:
                    continue
                f = made[0]
                g = f.given
                i, j, k = ivar('i'), ivar('j'), ivar('k')
                R = rng0(i, NXL) + rng0(j, NYL) + rng0(k, NPL)
                cx = o.ctx.child(*R)
                kk, jj = L.kj(k, j)
                J.holds('shapes handed to the field object', c_and(*[c_and(*[cmp_eq(p, q) for p, q in zip(g[x]._shape, s)]) if len(g[x]._shape) == len(s) else FALSE
                                                                    for x, s in list(dict(xlon=(NXL,), ylat=(NYL,), plev=(NPL,)).items()) + [(x, (NPL, NYL, NXL)) for x in 'uvt']]), o.ctx)
                J.eq('longitudes handed to the field object', g['xlon'].elem([i]), sel('xlon', i), cx)
                J.eq('latitudes handed to the field object ascend', g['ylat'].elem([j]), L.lat(jj), cx)
                J.eq('pressures handed to the field object descend', g['plev'].elem([k]), L.lev(kk), cx)
                for x in 'uvt':
                    J.eq('%s of the slice handed to its field object' % x, g[x].elem([k, j, i]), sel(x, *L.at, kk, jj, i), cx)
                same = len(g['args']) == 1 and isnum(g['args'][0]) and set(g['kw']) == {'dz'}
                J.add('options handed on', 'proved' if same and P(term(g['args'][0])) == var('arg') and P(term(g['kw']['dz'])) == var('dz') else 'refuted')
                at = r['attrs']
                for n in ATTRS:
                    J.eq('attribute ' + n, term(at[n]) if n in at and isnum(at[n]) else ivar('no attribute'), var('field ' + n), o.ctx)
                J.add('attribute protocol', 'proved' if at.get('protocol') == 'AnyField' else 'refuted')
                for st in list(STEPS) + [x + ' with forcing' for x in ('compute_lwa_and_barotropic_fluxes', 'compute_layerwise_lwa_fluxes')]:
                    ds, log, props, dattrs = r[st]
                    base = st.split(' with')[0]
                    h = ';'.join(x[0] for x in log)
                    J.add(st + ': asks every field object', 'proved' if log[-1][0] == base and not log[-1][1] else 'refuted')
                    if not isinstance(ds, xr.Dataset):
                        J.add(st + ': returns a dataset', 'refuted')
                        continue
                    J.add(st + ': attributes', 'proved' if dattrs and set(dattrs) == set(at) else 'refuted')
                    want = set(STEPS[base]) | ({'static_stability_n', 'static_stability_s'} if hemispheric else {'static_stability'} if base == 'interpolate_fields' else set())
                    if base != 'interpolate_fields':
                        want = set(STEPS[base])
                    J.add(st + ': variables', 'proved' if set(ds.keys()) == want else 'refuted', 0, dict(got=sorted(ds.keys()), want=sorted(want)))
                    for n in STEPS[base]:
                        if n in ds:
                            labelled(J, '%s: %s' % (st, n), o, ds[n], n, L, f, '%s after %s' % (n, h))
                        J.eq('%s: property %s' % (st, n), *[d.data.elem([ivar('x%d' % q) for q in range(d.data.ndim)]) for d in (props[n], ds[n])],
                             o.ctx.child(*[c for q, m in enumerate(props[n].data._shape) for c in rng0(ivar('x%d' % q), m)])) if n in ds else None
                    fo = log[-1][2].get('ncforce')
                    if st.endswith('with forcing'):
                        if not isinstance(fo, Arr) or fo.ndim != 3:
                            J.add(st + ': forcing of the slice', 'refuted', 0, dict(got=str(type(fo))))
                        else:
                            J.eq(st + ': forcing of the slice', fo.elem([k, j, i]), sel('ncforce', *L.back(), k, j, i), o.ctx.child(*(rng0(i, NXL) + rng0(j, NYL) + rng0(k, NK))))
                    else:
                        J.add(st + ': no forcing', 'proved' if fo is None else 'refuted')
                h = 'interpolate_fields'
                st = r['static_stability']
                parts = (st,) if isinstance(st, xr.DataArray) else st
                lab = ['static_stability_n', 'static_stability_s'] if hemispheric else ['static_stability']
                J.add('static stability: parts', 'proved' if len(parts) == len(lab) else 'refuted')
                for d, n in zip(parts, lab):
                    labelled(J, 'static stability: ' + n, o, d, n, L, f, '%s after %s' % (n, h))
                    if n in r['interpolate_fields'][0]:
                        labelled(J, 'interpolate_fields: ' + n, o, r['interpolate_fields'][0][n], n, L, f, '%s after %s' % (n, h))
                J.add('nothing returned on request', 'proved' if all(x is None for x in r['quiet']) else 'refuted')
                da, call = r['heating']
                labelled(J, 'forcing from heating', o, da, 'ncforce', L, f, 'heating forcing')
                he = call[2]['heating_rate']
                J.eq('heating of the slice in the orientation of the field object', he.elem([k, j, i]) if he.ndim == 3 else ZERO, sel('heating', *L.back(), kk, jj, i), cx)
        return guarded(J, go)
    return job


def rng0(v, n):
    return [cmp_ge(v, 0), cmp_lt(v, n)]


for _n in (0, 1, 2):
    for _a in (True, False):
        for _d in (True, False):
            globals()['iface_%d_%s%s' % (_n, 'ns'[not _a], 'du'[not _d])] = interface(_n, _a, _d, hemispheric=(_a != _d))
iface_3 = interface(3, False, True)
for _i, _s in enumerate(('three arrays', 'dataset and array', 'three datasets')):
    globals()['style_%d' % _i] = interface(1, True, True, style=_s)

_std = dict(plev=["lev", "level", "isobaricInhPa", "pressure_level"], ylat=["lat", "latitude"], xlon=["lon", "longitude"], u=["U"], v=["V"], t=["T"])
for _i in range(4):
    globals()['names_%d' % _i] = interface(1, False, True, names={x: c[_i % len(c)] for x, c in _std.items()}, style=('dataset', 'three datasets')[_i % 2], tag='names %d' % (_i + 1))
_mine = dict(plev='p', ylat='phi', xlon='lam', u='ua', v='va', t='temp')
names_user = interface(1, True, False, names=_mine, var_names=_mine, tag='names of the user')
names_some = interface(0, True, False, names=dict(plev='p', v='va'), var_names=dict(plev='p', v='va'), tag='some names of the user')


def rejected():
    """unusable datasets are reported, not computed with"""
    J = PyJob('QGDataset.unusable input')

    def case(tag, names=None, var_names=None, perm=None, drop=None, perm_v=None, labels=None):
        L = Layout(1, True, True, names)
        w = J.begin(L.facts(), externals=kernels.load(REPO))
        Q = w.get('falwa.xarrayinterface.QGDataset')

        def run():
            PS.slices = L.sl
            a = L.arrays()
            if perm:
                a = {x: d.transpose(*[d.dims[q] for q in perm]) for x, d in a.items()}
            if perm_v:
                a['v'] = a['v'].transpose(*[a['v'].dims[q] for q in perm_v])
            if labels:
                c = dict(a['v']._c)
                c[labels] = (c[labels][0], arr('other labels', c[labels][1]._shape[0]))
                a['v'] = xr.DataArray(a['v'].data, c, a['v'].dims, 'v')
                return Q(a['u'], a['v'], a['t'], qgfield=unknown_field([], False))
            ds = xr.Dataset({L.names[x]: d for x, d in a.items() if x != drop})
            return Q(ds, qgfield=unknown_field([], False), **(dict(var_names=var_names) if var_names else {}))
        outs = J.explore(run)
        if labels:              # the path on which the labels are equal is the usual one
            outs = [o for o in outs if o.exc is not None or not o.pc]
        ok = bool(outs) and all(isinstance(o.exc, (AssertionError, KeyError, ValueError)) for o in outs)
        J.add(tag, 'proved' if ok else 'refuted', 0, None if ok else dict(outcomes=['%s: %s' % (type(o.exc).__name__, str(o.exc)[:100]) if o.exc else 'accepted' for o in outs]), 'exec')

    def go():
        for x in 'uvt':
            case('no variable ' + x, drop=x)
            case('the named variable for %s does not exist' % x, var_names={x: 'elsewhere'})
        for x in ('plev', 'ylat', 'xlon'):
            case('unknown name of the coordinate ' + x, names={x: 'unheard of'})
            case('the named coordinate %s does not exist' % x, var_names={x: 'elsewhere'})
        import itertools
        for q in itertools.permutations(range(4)):
            if q != (0, 1, 2, 3):
                case('order of dimensions %s' % (q,), perm=q)
        for x in ('time', 'plev', 'ylat', 'xlon'):
            case('other labels of %s in v' % x, labels=x)
        case('other order of dimensions in v', perm_v=(1, 0, 2, 3))
    return guarded(J, go)


def accepted():
    """the methods of the field classes accept the calls the interface makes"""
    J = PyJob('QGDataset.calls fit the field classes')

    def go():
        L = Layout(1, True, True)
        w = J.begin(L.facts(), externals=kernels.load(REPO))
        Q = w.get('falwa.xarrayinterface.QGDataset')

        def run():
            PS.slices = L.sl
            made = []
            q = Q(xr.Dataset(L.arrays()), qgfield=unknown_field(made, False))
            a4 = xr.DataArray(arr('ncforce', L.other[0][1], NK, NYL, NXL), {L.other[0][0]: ((L.other[0][0],), arr('label ' + L.other[0][0], L.other[0][1]))}, (L.other[0][0], 'height', 'ylat', 'xlon'))
            for st in STEPS:
                getattr(q, st)(return_dataset=False)
                if 'fluxes' in st:
                    getattr(q, st)(ncforce=a4, return_dataset=False)
            return made[0].log
        for o in J.normal(J.explore(run)):
            for c in ('QGFieldNH18', 'QGFieldNHN22'):
                cls = w.get('falwa.oopinterface.' + c)
                for st, p, k in o.value:
                    f = next((vars(b)[st] for b in cls.__mro__ if st in vars(b)), None)
                    tag = '%s.%s(%s)' % (c, st, ', '.join(['_'] * len(p) + ['%s=' % x for x in sorted(k)]))
                    if f is None or not hasattr(f, 'bind'):
                        J.add(tag, 'refuted' if f is None else 'unknown', 0, None, 'exec')
                        continue
                    try:
                        f.bind(None, *p, **k)
                        J.add(tag, 'proved', 0, None, 'exec')
                    except TypeError as e:
                        J.add(tag, 'refuted', 0, dict(error=str(e)), 'exec')
    return guarded(J, go)


# ------------------------------------------------------------------------------------------------ C24
NLA, NTI = I('nlat'), I('ntime')


def mirror(eqfirst, sign, v='v', latname='latitude', user=False, order=0):
    """hemisphere_to_globe: the given half kept, the other one its mirror image, one equator"""
    def job():
        J = PyJob('hemisphere_to_globe.equator %s, latitudes %s%s%s' % ('first' if eqfirst else 'last', 'ascending' if sign > 0 else 'descending', '' if v else ', no meridional wind',
                                                                       ', %s, %s%s, order %d' % (latname, v, ', by user names' if user else '', order) if user or order else ''))

        def go():
            # labels: 0 (to 1e-4) at the equator, strictly monotone
            eq = num('eq').t
            j0 = ZERO if eqfirst else NLA - 1
            lat = lambda j: eq + sign * (s_common(ZERO, P(j) - 1, lambda m: 1 + exp(sel('dlat', m))) - s_common(ZERO, j0 - 1, lambda m: 1 + exp(sel('dlat', m))))
            w = J.begin([cmp_ge(x, 2) for x in (NLA, NTI, NXL)] + [cmp_lt(eq, Fraction(1, 10000)), cmp_gt(eq, Fraction(-1, 10000)),
                                                                                        cmp_ge(s_common(ZERO, NLA - 2, lambda m: exp(sel('dlat', m))), 0)], externals=kernels.load(REPO))
            f = w.get('falwa.xarrayinterface.hemisphere_to_globe')
            dims = [('time', latname, 'lon'), (latname, 'time', 'lon'), ('lon', 'time', latname), (latname,)][order]
            size = {'time': NTI, latname: NLA, 'lon': NXL}
            vs = ['u', 'temp', 'lwa'] + ([v] if v else [])

            def run():
                co = {d: ((d,), arr('label ' + d, size[d])) for d in ('time', 'lon')}
                co[latname] = ((latname,), Arr.of((NLA,), lambda ix: lat(ix[0]), owner='lat'))
                ds = xr.Dataset({n: xr.DataArray(arr(n, *[size[d] for d in dims]), {d: co[d] for d in dims}, dims, n) for n in vs})
                ds.owner = 'dataset'
                names = {}
                if user:
                    names = dict(ylat=latname, v=v)
                return f(ds, **(dict(var_names=names) if user else {}))
            outs = J.normal(J.explore(run))
            J.frame(outs)
            for o in outs:
                g = o.value
                if not isinstance(g, xr.Dataset):
                    J.add('a dataset', 'refuted')
                    continue
                J.add('variables', 'proved' if set(g.keys()) == set(vs) else 'refuted', 0, dict(got=sorted(g.keys())))
                m = NLA - 1
                ix = {d: ivar('x ' + d) for d in dims}
                j = ix[latname]
                # row j of the result lies at row jj of the given hemisphere
                kept = (cmp_ge(j, m), j - m) if eqfirst else (cmp_lt(j, NLA), j)
                flip = (cmp_lt(j, m), m - j) if eqfirst else (cmp_ge(j, NLA), 2 * NLA - 2 - j)
                R = [c for d in dims for c in rng0(ix[d], 2 * NLA - 1 if d == latname else size[d])]
                for n in vs:
                    if n not in g:
                        continue
                    a = g[n]
                    J.add(n + ': dimensions', 'proved' if a.dims == dims else 'refuted', 0, dict(got=a.dims))
                    if a.dims != dims:
                        continue
                    J.holds(n + ': one row per latitude, one equator', c_and(*[cmp_eq(s, 2 * NLA - 1 if d == latname else size[d]) for d, s in zip(dims, a.data._shape)]), o.ctx)
                    got = a.data.elem([ix[d] for d in dims])
                    at = lambda jj: sel(n, *[jj if d == latname else ix[d] for d in dims])
                    J.eq(n + ': given hemisphere kept', got, at(kept[1]), o.ctx.child(*R, kept[0]))
                    J.eq(n + ': other hemisphere mirrored' + (', opposite sign' if n == v else ''), got, at(flip[1]) * (-1 if n == v else 1), o.ctx.child(*R, flip[0]))
                if latname in g:
                    a = g[latname].data
                    J.holds('latitudes: shape', cmp_eq(a._shape[0], 2 * NLA - 1), o.ctx)
                    J.eq('latitudes: given ones kept', a.elem([j]), lat(kept[1]), o.ctx.child(*rng0(j, 2 * NLA - 1), kept[0]))
                    J.eq('latitudes: mirrored', a.elem([j]), -lat(flip[1]), o.ctx.child(*rng0(j, 2 * NLA - 1), flip[0]))
                for d in dims:
                    if d != latname:
                        J.eq('coordinate ' + d, g[d].data.elem([ix[d]]) if d in g else ZERO, sel('label ' + d, ix[d]), o.ctx.child(*rng0(ix[d], size[d])))
        return guarded(J, go)
    return job


def no_equator():
    J = PyJob('hemisphere_to_globe.no equator')

    def go():
        lat = lambda j: var('south') + s_common(ZERO, P(j) - 1, lambda m: exp(sel('dlat', m)))
        e = Fraction(1, 10000)
        out = lambda x: c_or(cmp_ge(x, e), cmp_le(x, -e))
        w = J.begin([cmp_ge(x, 2) for x in (NLA, NTI)] + [out(lat(ZERO)), out(lat(NLA - 1))], externals=kernels.load(REPO))
        f = w.get('falwa.xarrayinterface.hemisphere_to_globe')

        def run():
            co = {'lat': (('lat',), Arr.of((NLA,), lambda ix: lat(ix[0]), owner='lat'))}
            return f(xr.Dataset({'u': xr.DataArray(arr('u', NTI, NLA), co, ('time', 'lat'), 'u')}))
        outs = J.explore(run)
        ok = bool(outs) and all(o.exc is not None and isinstance(o.exc, (AssertionError, ValueError)) for o in outs)
        J.add('reported', 'proved' if ok else 'refuted', 0, None if ok else dict(outcomes=[str(o.exc or 'returned')[:100] for o in outs]), 'exec')
    return guarded(J, go)


BUD = dict(lwa_baro='delta_lwa', convergence_zonal_advective_flux='integrated_convergence_zonal_advective_flux', divergence_eddy_momentum_flux='integrated_divergence_eddy_momentum_flux',
           meridional_heat_flux='integrated_meridional_heat_flux')


def budget(order=0, user=False, timename='time'):
    def job():
        J = PyJob('integrate_budget.order %d, %s%s' % (order, timename, ', by user names' if user else ''))

        def go():
            w = J.begin([cmp_ge(x, 2) for x in (NLA, NTI, NXL)], externals=kernels.load(REPO))
            f = w.get('falwa.xarrayinterface.integrate_budget')
            dims = [(timename, 'ylat', 'xlon'), ('ylat', timename, 'xlon'), ('ylat', 'xlon', timename), (timename,)][order]
            size = {timename: NTI, 'ylat': NLA, 'xlon': NXL}
            name = {n: n + ('_mine' if user else '') for n in BUD}
            tick = var(V.TICK)
            t = lambda m: sel('label ' + timename, m)

            def run():
                co = {d: ((d,), arr('label ' + d, size[d])) for d in dims}
                ds = xr.Dataset({n: xr.DataArray(arr(n, *[size[d] for d in dims]), co, dims, n) for n in list(name.values()) + ['other']}, attrs=dict(mine=Num(var('mine'))))
                ds.owner = 'dataset'
                r = f(ds, **(dict(var_names=dict(name, time=timename)) if user else {}))
                return r, dict(ds.attrs)
            outs = J.normal(J.explore(run))
            J.frame(outs)
            for o in outs:
                r, at0 = o.value
                rest = tuple(d for d in dims if d != timename)
                ix = {d: ivar('x ' + d) for d in rest}
                R = [c for d in rest for c in rng0(ix[d], size[d])]
                at = lambda n, m: sel(name[n], *[m if d == timename else ix[d] for d in dims])
                sec = lambda a: a * tick / 10 ** 9
                trap = lambda n: s_common(ZERO, NTI - 2, lambda m: (at(n, m) + at(n, m + 1)) / 2 * sec(t(m + 1) - t(m)))
                want = {BUD[n]: trap(n) for n in BUD if n != 'lwa_baro'}
                want['delta_lwa'] = at('lwa_baro', NTI - 1) - at('lwa_baro', ZERO)
                want['residual'] = want['delta_lwa'] - sum((trap(n) for n in BUD if n != 'lwa_baro'), ZERO)
                J.add('variables', 'proved' if isinstance(r, xr.Dataset) and set(r.keys()) == set(want) else 'refuted', 0, dict(got=sorted(r.keys())))
                for n, x in want.items():
                    if n not in r:
                        continue
                    a = r[n]
                    J.add(n + ': dimensions', 'proved' if a.dims == rest else 'refuted', 0, dict(got=a.dims))
                    if a.dims == rest:
                        J.holds(n + ': shape', c_and(*[cmp_eq(s, size[d]) for d, s in zip(rest, a.data._shape)]), o.ctx)
                        J.eq(n, a.data.elem([ix[d] for d in rest]), x, o.ctx.child(*R))
                for d in rest:
                    J.eq('coordinate ' + d, r[d].data.elem([ix[d]]) if d in r else ZERO, sel('label ' + d, ix[d]), o.ctx.child(*rng0(ix[d], size[d])))
                at1 = r.attrs
                J.eq('length of the interval in seconds', term(at1['integration_seconds']) * 10 ** 9 if isnum(at1.get('integration_seconds')) else ivar('missing'), sec(t(NTI - 1) - t(ZERO)) * 10 ** 9, o.ctx)
                for q, m in (('start', ZERO), ('stop', NTI - 1)):
                    J.add('%s of the interval' % q, 'proved' if str(at1.get('integration_' + q)) == str(V.mknum(t(m))) else 'refuted', 0, dict(got=str(at1.get('integration_' + q))[:200]))
                J.add('attributes of the input kept', 'proved' if isnum(at1.get('mine')) and term(at1['mine']) == var('mine') and list(at0) == ['mine'] else 'refuted')
        return guarded(J, go)
    return job


for _e in (True, False):
    for _s in (1, -1):
        globals()['mirror_%s%s' % ('fl'[not _e], 'ad'[_s < 0])] = mirror(_e, _s)
mirror_nov = mirror(True, 1, v=None)
mirror_V = mirror(False, 1, v='V', latname='lat', order=1)
mirror_user = mirror(True, -1, v='northward', latname='phi', user=True, order=2)
mirror_row = mirror(False, -1, latname='ylat', order=3)
budget_0, budget_1, budget_2 = budget(), budget(1), budget(2, timename='valid_time')
budget_user = budget(0, True, 'when')
budget_point = budget(3, timename='date')
