"""Contracts of the object protocol of the field classes: what construction accepts, refuses and publishes, the order of the steps,
recomputation, independence of objects, reported non-convergence, and the heating-rate conversion."""
from .p_field import *

MSG = (TypeError, ValueError)


def refused(J, oid, outs, types, also=None):
    """obligation: every path ends in one of these exceptions"""
    t = time.time()
    if not outs:
        return J.add(oid, 'vacuous')
    for o in outs:
        if o.exc is not None and isinstance(o.exc, types):
            continue
        st, m = o.ctx.check(want_model=True)
        d = dict(ended='normally' if o.exc is None else '%s: %s' % (type(o.exc).__name__, str(o.exc)[:150]), path=[show_cond(c)[:200] for c in o.pc], model=str(m)[:300])
        clean = all(not has_fn(c) for c in o.pc)
        return J.add(oid, 'refuted' if st == 'sat' and clean else 'unknown', time.time() - t, d)
    J.add(oid, 'proved', time.time() - t)


def has_fn(c):
    t = show_cond(c)
    return 'log(' in t or 'exp(' in t


def construct(cls, grid, nh, spaced=False):
    """what a new object publishes"""
    def job():
        s = Setup(cls, grid, nh, spaced)
        J = PyJob('object.' + s.tag)

        def go():
            w = s.begin(J)
            s.meaning()

            def run():
                f = s.build(w)
                r = {n: getattr(f, n) for n in ('height', 'ylat', 'prefactor', 'jd', 'eq_boundary_index', 'ylat_ref_states', 'ylat_ref_states_analysis', 'northern_hemisphere_results_only',
                                                'nonconvergent_uref', 'kmax', 'dz', 'xlon', 'plev')}
                r['nlat'] = f.get_latitude_dim()
                f.interpolate_fields(return_named_tuple=False)
                r['static_stability'] = f.static_stability
                return r
            outs = J.normal(J.explore(run), s.tag + ': construction accepts valid input')
            J.frame(outs, s.tag + ': arguments unchanged')
            t = s.tag + ': '
            n_ref = s.rows()
            J.elem(t + 'heights are k dz', outs, lambda v: v['height'], lambda k: s.z(k), (s.K,), 'k')
            J.elem(t + 'latitudes are those given', outs, lambda v: v['ylat'], lambda j: s.ulat(j), (s.nu,), 'j')
            J.elem(t + 'prefactor is the sum of the weights', outs, lambda v: v['prefactor'], lambda: s.pref)
            J.elem(t + 'latitudes of the reference states', outs, lambda v: v['ylat_ref_states'], lambda j: s.ulat(j + (s.nu - n_ref)), (n_ref,), 'j')
            na = nd if nh else s.na
            J.elem(t + 'latitudes of the reference states on the analysis grid', outs, lambda v: v['ylat_ref_states_analysis'], lambda j: s.alat(j + (s.na - na)), (na,), 'j')
            for nm, x in (('kmax', s.K), ('dz', DZ), ('nlat', s.nu), ('jd', nd - s.jb), ('eq_boundary_index', s.jb)):
                J.elem(t + nm, outs, lambda v: v[nm], lambda: x)
            for o in outs:
                J.add(t + 'option northern_hemisphere_results_only', 'proved' if o.value['northern_hemisphere_results_only'] is nh else 'refuted')
                J.add(t + 'no non-convergence reported yet', 'proved' if o.value['nonconvergent_uref'] is False else 'refuted')
            pair = cls == 'QGFieldNHN22' and not nh
            for n, h in enumerate(('s', 'n') if pair else ('n',)):
                J.elem(t + 'static stability' + (' of hemisphere ' + h if pair else ''), outs, lambda v: v['static_stability'][n] if pair else v['static_stability'], lambda k: s.st[h](k), (s.K,), 'k')
            # the mean of a vertically uniform quantity is that quantity
            J.zero(t + 'weights are normalised', s.vav(lambda k: var('c')) - var('c'), Ctx(s.facts))
        return guarded(J, go)
    return job


def masked(cls):
    """winds and temperature given as masked arrays: neither their data nor their masks are written"""
    def job():
        s = Setup(cls, 'odd', False)
        J = PyJob('object.masked.' + s.tag)

        def go():
            w = s.begin(J)
            s.meaning()

            def run():
                x = s.inputs()
                f = s.build(w, x[:3] + [shim.MaskedArr(a, n) for a, n in zip(x[3:], ('u', 'v', 't'))])
                f.interpolate_fields(return_named_tuple=False)
                return {n: getattr(f, n) for n in ('interpolated_u', 'interpolated_v', 'interpolated_theta')}
            outs = J.normal(J.explore(run), s.tag + ': construction accepts masked arrays')
            J.frame(outs, s.tag + ': masked arrays unchanged')
        return guarded(J, go)
    return job


def nonzero(name):
    """an array of arbitrary values none of which is zero"""
    return lambda ix: ite(cmp_gt(x_(name + ':sign', *ix), 0), ONE, -ONE) * exp(x_(name, *ix))


def refuse(cls):
    """what construction refuses"""
    def job():
        J = PyJob('refuse.' + cls)

        def go():
            tag = cls.replace('QGField', '')
            cases = []
            for grid in ('odd', 'even'):
                for nh in (False, True):
                    tg = '%s, %s grid%s: ' % (tag, grid, ', north only' if nh else '')
                    cases += [(tg + x, grid, nh, x) for x in ('pressure that does not descend', 'latitudes that do not ascend', 'top above the data', 'shape of u', 'shape of v', 'shape of t', 'dimensions of u',
                                                              'dimensions of v', 'dimensions of t')]
                cases.append(('%s: odd number of latitudes without the equator' % tag, 'odd', False, 'no equator'))
            for oid, grid, nh, what in cases:
                s = Setup(cls, grid, nh)
                drop = {'pressure that does not descend': 1, 'top above the data': 2}.get(what)
                if drop:
                    s.facts = [f for n, f in enumerate(s.facts) if n != 9 + drop]
                ins, types, ex = s.inputs(), TypeError, []
                if what == 'pressure that does not descend':
                    ex = [cmp_gt(x_('plev', ONE), x_('plev', ZERO))]
                elif what == 'top above the data':
                    ex, types = [cmp_lt(s.zlev(nlev - 1), (kmax - 1) * DZ)], ValueError
                elif what == 'latitudes that do not ascend':
                    ins[1] = arr('yy', s.nu)
                    ex = [cmp_lt(x_('yy', ONE), x_('yy', ZERO))]
                elif what == 'no equator':
                    ins[1] = Arr.of((s.nu,), nonzero('yy'))
                elif what.startswith('shape'):
                    b = [I('b%d' % d) for d in range(3)]
                    m = 'uvt'.index(what[-1])
                    ins[3 + m] = arr('bad', *b)
                    ex = [cmp_ge(x, 1) for x in b] + [c_or(cmp_ne(b[0], nlev), cmp_ne(b[1], s.nu), cmp_ne(b[2], nlon))]
                    types = MSG
                else:
                    m = 'uvt'.index(what[-1])
                    ins[3 + m] = arr('bad', s.nu, nlon)
                    types = MSG
                w = s.begin(J, ex)
                try:
                    refused(J, oid, J.explore(lambda: s.build(w, ins)), types)
                except Unsupported as e:
                    J.add(oid, 'unsupported', 0, str(e))
        return guarded(J, go)
    return job


PROPS = FULL + REFS + LAYER + ['lwa'] + BARO


def order(cls, grid, nh):
    """steps out of order are refused, in order accepted"""
    def job():
        s = Setup(cls, grid, nh)
        J = PyJob('order.' + s.tag)

        def go():
            w = s.begin(J, NO_LOSS)

            def attempt(f):
                try:
                    f()
                    return None
                except Unsupported:
                    raise
                except Exception as e:
                    return e

            def run():
                f = s.build(w)
                r = {}
                look = lambda when, names: r.update({'%s %s' % (n, when): attempt(lambda: getattr(f, n)) for n in names})
                look('read before interpolate_fields', PROPS)
                r['compute_reference_states before interpolate_fields'] = attempt(lambda: f.compute_reference_states())
                r['compute_lwa_and_barotropic_fluxes before interpolate_fields'] = attempt(lambda: f.compute_lwa_and_barotropic_fluxes())
                f.interpolate_fields()
                r['compute_layerwise_lwa_fluxes before compute_reference_states'] = attempt(lambda: f.compute_layerwise_lwa_fluxes())
                r['compute_lwa_and_barotropic_fluxes before compute_reference_states'] = attempt(lambda: f.compute_lwa_and_barotropic_fluxes())
                look('read before compute_reference_states', [n for n in PROPS if n not in FULL])
                f.compute_reference_states()
                look('read before compute_lwa_and_barotropic_fluxes', [n for n in PROPS if n not in FULL + REFS])
                f.compute_lwa_and_barotropic_fluxes()
                look('read before compute_layerwise_lwa_fluxes', LAYER)
                f.compute_layerwise_lwa_fluxes()
                for n in PROPS:
                    getattr(f, n)
                if nh:
                    st = f.layerwise_flux_terms_storage
                    r['southern part of a northern object: read'] = attempt(lambda: st.lwa_shem)
                    r['southern part of a northern object: write'] = attempt(lambda: setattr(st, 'lwa_shem', st.lwa_nhem))
                return r
            outs = J.normal(J.explore(run), s.tag + ': steps in order are accepted')
            inv = w.get('falwa.data_storage.InvalidCallOfSHemVariables')
            for o in outs:
                for k, e in o.value.items():
                    ok = isinstance(e, inv) if k.startswith('southern') else isinstance(e, ValueError)
                    J.add('%s: refused: %s' % (s.tag, k), 'proved' if ok else 'refuted', 0, None if ok else repr(e))
        return guarded(J, go)
    return job


def nonconvergence(grid, nh, raising):
    """NH18: an iteration that reaches its limit is reported and no flux is computed from it"""
    def job():
        s = Setup('QGFieldNH18', grid, nh, kw=dict(raise_error_for_nonconvergence=raising))
        J = PyJob('nonconvergence.' + s.tag)

        def go():
            lost = lambda n: cmp_ge(ivar('compute_reference_states#%d:num_of_iter' % n), I('maxit'))
            for case, facts in (('northern iteration fails', [lost(0)]),) + (() if nh else (('southern iteration fails', [c_not(lost(0)), lost(1)]), ('both fail', [lost(0), lost(1)]))):
                w = s.begin(J, facts)
                t = '%s, %s: %s' % (s.tag, 'error' if raising else 'flag', case)

                def run():
                    f = s.build(w)
                    f.interpolate_fields(return_named_tuple=False)
                    e = None
                    try:
                        f.compute_reference_states(return_named_tuple=False)
                    except Unsupported:
                        raise
                    except Exception as x:
                        e = x
                    r = dict(raised=e, flag=f.nonconvergent_uref)
                    for n, g in (('flux', lambda: f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)), ('layer', lambda: f.compute_layerwise_lwa_fluxes())):
                        try:
                            g()
                            r[n] = None
                        except Unsupported:
                            raise
                        except Exception as x:
                            r[n] = x
                    return r
                outs = J.normal(J.explore(run), t + ': explored')
                for o in outs:
                    v = o.value
                    tst = lambda l, ok: J.add('%s: %s' % (t, l), 'proved' if ok else 'refuted', 0, None if ok else dict(got=repr(v)[:200], path=[show_cond(c)[:100] for c in o.pc]))
                    tst('an error is raised' if raising else 'no error is raised', isinstance(v['raised'], ValueError) == raising)
                    tst('the flag is set', v['flag'] is True)
                    tst('fluxes are refused', isinstance(v['flux'], ValueError))
                    tst('layerwise fluxes are refused', isinstance(v['layer'], ValueError))
            # converged runs do not set the flag
            w = s.begin(J, NO_LOSS)

            def run2():
                f = s.build(w)
                f.interpolate_fields(return_named_tuple=False)
                f.compute_reference_states(return_named_tuple=False)
                return f.nonconvergent_uref
            for o in J.normal(J.explore(run2), s.tag + ': converged: no error'):
                J.add(s.tag + ': converged: the flag is not set', 'proved' if o.value is False else 'refuted')
            # the same object again, with another limit: what counts is the last computation
            limit = ivar('maxit2')
            per = 1 if nh else 2
            ok = lambda n, m: cmp_lt(ivar('compute_reference_states#%d:num_of_iter' % n), m)
            first = [ok(n, I('maxit')) for n in range(per)]
            cases = [('north', [c_not(ok(per, limit))])] + ([] if nh else [('south', [ok(per, limit), c_not(ok(per + 1, limit))])])
            for hemi, facts in cases:
                w = s.begin(J, first + facts)

                def run3():
                    f = s.build(w)
                    f.interpolate_fields(return_named_tuple=False)
                    f.compute_reference_states(return_named_tuple=False)
                    f.maxit = Num(limit)
                    r = {}
                    for n, g in (('ref', lambda: f.compute_reference_states(return_named_tuple=False)), ('flux', lambda: f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)),
                                 ('layer', lambda: f.compute_layerwise_lwa_fluxes())):
                        try:
                            g()
                            r[n] = None
                        except Unsupported:
                            raise
                        except Exception as x:
                            r[n] = x
                    r['flag'] = f.nonconvergent_uref
                    return r
                t = '%s, %s: converged, then not (%s)' % (s.tag, 'error' if raising else 'flag', hemi)
                for o in J.normal(J.explore(run3), t + ': explored'):
                    v = o.value
                    tst = lambda l, good: J.add('%s: %s' % (t, l), 'proved' if good else 'refuted', 0, None if good else dict(got=repr(v)[:200]))
                    tst('an error is raised' if raising else 'no error is raised', isinstance(v['ref'], ValueError) == raising)
                    tst('the flag is set', v['flag'] is True)
                    tst('fluxes are refused', isinstance(v['flux'], ValueError))
                    tst('layerwise fluxes are refused', isinstance(v['layer'], ValueError))
            # not converged (either hemisphere), then converged
            for hemi, facts, n0 in [('north', [c_not(ok(0, I('maxit')))], 1 if raising else per)] + ([] if nh else [('south', [ok(0, I('maxit')), c_not(ok(1, I('maxit')))], 2)]):
                if not raising and not nh and hemi == 'north':
                    facts = facts + [ok(1, I('maxit'))]
                w = s.begin(J, facts + [ok(n0 + q, limit) for q in range(per)])

                def run4():
                    f = s.build(w)
                    f.interpolate_fields(return_named_tuple=False)
                    try:
                        f.compute_reference_states(return_named_tuple=False)
                    except ValueError:
                        pass
                    before = f.nonconvergent_uref
                    f.maxit = Num(limit)
                    f.compute_reference_states(return_named_tuple=False)
                    f.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
                    f.compute_layerwise_lwa_fluxes()
                    return before, f.nonconvergent_uref
                t = '%s, %s: not converged (%s), then converged' % (s.tag, 'error' if raising else 'flag', hemi)
                for o in J.normal(J.explore(run4), t + ': no error'):
                    J.add(t + ': the flag is set, then cleared', 'proved' if o.value == (True, False) else 'refuted', 0, None if o.value == (True, False) else dict(got=repr(o.value)))
        return guarded(J, go)
    return job


for _c in ('QGFieldNH18', 'QGFieldNHN22'):
    _s = _c[7:].lower()
    globals()['refuse_' + _s] = refuse(_c)
    for _g in ('odd', 'even'):
        for _n in (False, True):
            _t = '%s_%s' % (_g, 'nh' if _n else 'gl')
            globals()['construct_%s_%s' % (_s, _t)] = construct(_c, _g, _n)
            globals()['construct_given_%s_%s' % (_s, _t)] = construct(_c, _g, _n, True)
            globals()['order_%s_%s' % (_s, _t)] = order(_c, _g, _n)
            for _r in (False, True):
                if _c == 'QGFieldNH18':
                    globals()['nonconv_%s_%s' % (_t, 'error' if _r else 'flag')] = nonconvergence(_g, _n, _r)


def heating(cls, nh):
    """compute_ncforce_from_heating_rate (grids with an equator row): f e^(z/H) d/dz( e^(-z/H) heating / stability )"""
    def job():
        s = Setup(cls, 'odd', nh)
        J = PyJob('heating.' + s.tag)

        def go():
            w = s.begin(J, NO_LOSS)
            s.meaning()

            def run():
                f = s.build(w)
                f.interpolate_fields(return_named_tuple=False)
                return f.compute_ncforce_from_heating_rate(arr('heat', nlev, s.nu, nlon))
            outs = J.normal(J.explore(run), s.tag + ': no exception')
            J.frame(outs, s.tag + ': arguments unchanged')
            hr = s.vertical(lambda k, j, i: x_('heat', k, j, i))

            def want(k, j, i):
                sy = 2 * OM * fn('sin', PI * s.ulat(j) / 180) * exp(P(k) * DZ / H)
                r = []
                for lab, cs, st in (('south', [cmp_lt(j, nd - 1)], s.st['s']), ('equator', [cmp_eq(j, nd - 1)], lambda q: (s.st['s'](q) + s.st['n'](q)) / 2), ('north', [cmp_gt(j, nd - 1)], s.st['n'])):
                    t = lambda q: exp(-P(q) * DZ / H) * hr(q, j, i) / st(q)
                    r += [(lab, cs + [cmp_ge(k, 1), cmp_le(k, s.K - 2)], sy * (t(k + 1) - t(k - 1)) / (2 * DZ)),
                          (lab + ', bottom', cs + [cmp_eq(k, 0)], sy * (t(ONE) - t(ZERO)) / DZ),
                          (lab + ', top', cs + [cmp_eq(k, s.K - 1)], sy * (t(s.K - 1) - t(s.K - 2)) / DZ)]
                return r
            J.elem(s.tag + ': forcing from heating', outs, lambda v: v, want, (s.K, s.nu, nlon), 'kji')
        return guarded(J, go)
    return job


for _c in ('QGFieldNH18', 'QGFieldNHN22'):
    for _n in (False, True):
        globals()['heating_%s_%s' % (_c[7:].lower(), 'nh' if _n else 'gl')] = heating(_c, _n)
    globals()['masked_' + _c[7:].lower()] = masked(_c)
