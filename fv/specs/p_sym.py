"""Relations between two computations: northern-only and global objects (C14), mirrored input (C13), rotated input (C27)."""
from .p_field import *
from . import p_field


class Pair:
    """two scenarios explored under the same preconditions; the kernels of both are named by the specification of their arguments"""

    def __init__(self, J, s1, s2, steps, facts=(), data2=None):
        self.J, self.s1, self.s2, self.steps = J, s1, s2, list(steps)
        self.facts = list(facts)

    def side(self, s, w, steps=None):
        outs = self.J.normal(self.J.explore(scenario(s, w, steps or self.steps)), s.tag + ': no exception')
        if len(outs) != 1:
            raise Unsupported('%d paths' % len(outs))
        o = outs[0]
        return o, normaliser(identify_all(self.J, s, o, steps=steps or self.steps))


def agree(J, tag, c1, n1, c2, n2, skip, repl, ctx):
    """the two calls of a kernel have the same arguments, apart from the elements `skip` names: {argument: index -> conditions}"""
    for n in sorted(c1['args']):
        a, b = c1['args'][n], c2['args'].get(n)
        t = '%s: same %s' % (tag, n)
        if isinstance(a, bool) or isinstance(b, bool):
            J.add(t, 'proved' if a is b else 'refuted')
        elif isinstance(a, Arr):
            if not isinstance(b, Arr) or a.ndim != b.ndim:
                J.add(t, 'refuted')
                continue
            idx = [ivar(v) for v in ['x', 'y', 'zz'][:a.ndim]]
            R = [q for v, m in zip(idx, a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, m))]
            J.holds(t + ' (extents)', c_and(*[cmp_eq(p, q) for p, q in zip(a._shape, b._shape)]), ctx)
            J.eq(t, repl(n1(a.elem(idx))), repl(n2(b.elem(idx))), ctx.child(*R, *(skip[n](*idx) if n in skip else [])))
        elif isnum(a):
            J.eq(t, n1(term(a)), n2(term(b)), ctx)


def restrict(p, nodes, memo=None):
    """sums over the nodes of an interpolation start at the first node with a weight: nodes = {weights: (first, renaming of the weights)}"""
    acc = ZERO
    for mono, c in P(p).t:
        t = P(c)
        for a, e in mono:
            q = P(a)
            if a.kind == 'sum':
                b, lo, hi, body = a.args
                v = prover._bvvar(b, body)
                body = subst(body, {b: v})
                hit = [n for n in nodes if n in sel_names(body)]
                own = [n for n in hit if any(x.kind == 'sel' and x.args[0] == n and P(x.args[2]) == P(v) for m, _ in body.t for x, _ in m)]
                if own:
                    first, ren = nodes[own[0]]
                    if P(lo) != ZERO:
                        raise Unsupported('interpolation sum')
                    body = map_sels(body, lambda n_, ix: ren(n_, ix) if n_ == own[0] else None)
                    q = subst(body, {atom_of(P(v)): P(first)}) + mk_sum(v, P(first) + 1, hi, body)
                elif hit:
                    q = mk_sum(v, lo, hi, restrict(body, nodes))
            t = mul(t, q ** e if e > 0 else inv(q) ** (-e))
        acc = add(acc, t)
    return acc


def half(cls, grid, jb0=False, steps=('interp', 'ref', 'flux', 'layer')):
    def job():
        lonly = 'lwaonly' in steps
        lab = 'L' if lonly else 'F'
        sG, sN = Setup(cls, grid, False), Setup(cls, grid, True)
        J = PyJob('half.%s%s%s' % (sG.tag, ', boundary at the equator' if jb0 else '', ', wave activity only' if lonly else ''))

        def go():
            w = sG.begin(J, NO_LOSS + ([] if cls == 'QGFieldNH18' else [cmp_eq(sG.jb, 0) if jb0 else cmp_ge(sG.jb, 1)]))
            sG.meaning()
            sN.meaning()
            pr = Pair(J, sG, sN, steps)
            oG, nG = pr.side(sG, w)
            oN, nN = pr.side(sN, w)
            prover.NONNEG.update('%s%s:%s' % (l, h, x) for l in 'FL' for h in 'ns' for x in ('astar1', 'astar2'))
            # the northern call of the flux kernel of the global object is that of the northern-only object, except for the equator row of the
            # reference state, which the outputs poleward of it do not depend on (k_flux: 'depends on ... of its own row')
            kn = 'compute_lwa_only_nhn22' if lonly else 'compute_flux_dirinv_nshem'
            fl = lambda o, nrm: [c for c in o.calls if c['name'] == kn and any(x.startswith(lab + 'n:') for x in sel_names(nrm(sel(c['sym'] + ':astar1', ZERO, ZERO, ZERO))))]
            cG, cN = fl(oG, nG), fl(oN, nN)
            if not cG or not cN:
                raise Unsupported('northern flux call not found')
            row1 = lambda x, *r: [cmp_ge(x, 1)]
            skip = dict(tref=row1) if cls == 'QGFieldNH18' else dict(tref=row1, uref=row1) if jb0 else {}

            def equator(n_, idx):
                # k_qref: 'equator row is the zonal mean' of the wind, the same in both hemispheres (the flipped equator row is the equator row)
                if n_ in ('Rn:u', 'Rs:u') and P(idx[0]) == ZERO:
                    return s_common(ZERO, nlon - 1, lambda i: sG.U(idx[1], nd - 1, i)) / nlon
                return None

            def repl(t):
                x, y = ivar('x'), ivar('zz')
                t = map_sels(P(t), equator)
                return map_sels(t, lambda n_, ix: ite(cmp_eq(ix[0], 0), equator(n_, [ZERO, ix[1]]), sel(n_, *ix)) if n_ in ('Rn:u', 'Rs:u') and P(ix[0]) != ZERO else None)
            for c1 in cG:
                for c2 in cN:
                    agree(J, 'northern call of %s' % kn, c1, nG, c2, nN, skip, repl, oG.ctx)
            # the interpolations back to the latitudes of the user
            ids = {}
            if grid == 'even':
                mk = lambda o, n: shim.Interp1d(Arr.of((P(n),), lambda ix: sG.alat(ix[0] + o)), Arr.of((P(n),), lambda ix: ZERO), fill_value='extrapolate').id
                ids = dict(g='W:interp%d' % mk(ZERO, sG.na), n='W:interp%d' % mk(nd - 1, nd))
            # contract of linear interpolation: an abscissa beyond the m-th node has no weight on the nodes before it, and the weights on the
            # others are those of the interpolation between these others

            local = (lambda m: (lambda t: restrict(t, {ids['g']: (m, lambda n_, ix: None), ids['n']: (m - (nd - 1), lambda n_, ix: sel(ids['g'], ix[0], P(ix[1]) + nd - 1))}))) \
                if ids else (lambda m: (lambda t: t))
            names = [k for k in oN.value if isinstance(k, tuple) and k[1] != 'static_stability']
            rows = sN.rows()
            for key in names:
                a, b = toarr(oN.value[key]), toarr(oG.value[key])
                vec, nm = key[1] in REFS, key[1]
                lead = 'kj' if vec else 'kji' if a.ndim == 3 else 'ji'
                idx = [ivar(n) for n in lead]
                jx = ivar('j')
                full = nm in FULL
                off = ZERO if full else (nd - 1)
                idg = [P(x) + off if n == 'j' else x for x, n in zip(idx, lead)]
                J.holds('%s: %s: shape' % (sN.tag, nm) + ' after ' + key[0], c_and(*[cmp_eq(p, q if n != 'j' or full else P(rows)) for p, q, n in zip(a._shape, b._shape, lead)]), oN.ctx)
                R = [f for x, nn in zip(idx, a._shape) for f in (cmp_ge(x, 0), cmp_lt(x, nn))]
                # rows poleward of the equator (even: of the first analysis row poleward of it, for what has two values at the equator)
                one = nm in ('qref', 'u_baro') and not lonly or nm == 'uref' and cls == 'QGFieldNH18'
                m = nd - 1 if one else nd
                if jb0 and nm in ('ep3', 'divergence_eddy_momentum_flux'):
                    m = nd + 1          # the row next to the equator refers to the equator row
                if full:
                    m = ZERO
                elif grid == 'odd':
                    R.append(cmp_ge(P(jx) + nd - 1, m))
                loc = local(m) if not full else (lambda t: t)
                x, y = nN(a.elem(idx)), nG(b.elem(idg))
                J.eq('%s: %s: the northern half of the global result after %s' % (sN.tag, nm, key[0]), repl(loc(x)), repl(loc(y)), oG.ctx.child(*R))
        return guarded(J, go)
    return job


for _g in ('odd', 'even'):
    globals()['half_nh18_' + _g] = half('QGFieldNH18', _g)
    globals()['half_nhn22_' + _g] = half('QGFieldNHN22', _g)
    globals()['half0_nhn22_' + _g] = half('QGFieldNHN22', _g, True)
    globals()['halflwa_' + _g] = half('QGFieldNHN22', _g, steps=('interp', 'ref', 'lwaonly'))


LONDATA = set('pv uu vv vort pt ut vt theta uq vq tq ncforce'.split())
OUTS3 = 'astar1 astar2 ncforce3d ua1 ua2 ep1 ep2 ep3'.split()


def data_calls(o, norm):
    """the kernel calls of a computation with their names in the specification"""
    for c in o.calls:
        if 'args' in c and 'sym' in c and c['name'] not in ('loop', 'inverse', 'interp1d', 'spline'):
            n = [x.split(':')[0] for x in sel_names(norm(sel(c['sym'] + ':x', ZERO))) if x.endswith(':x')]
            yield c, (n[0] if n else c['sym'])


def rotated(cls, grid, nh, steps=('interp', 'ref', 'flux', 'layer')):
    """C27: with the input rotated by one longitude every result is rotated by one longitude and the reference states are unchanged (any other
    rotation is a repetition of this one).  One computation is executed; the rotated one is it with the input arrays replaced"""
    from . import k_sym

    def job():
        s = Setup(cls, grid, nh)
        J = PyJob('rotated.%s%s' % (s.tag, ', wave activity only' if 'lwaonly' in steps else ''))

        def go():
            w = s.begin(J, NO_LOSS)
            s.meaning()
            o, norm = Pair(J, s, s, steps).side(s, w)
            prover.NONNEG.update('%s%s:%s' % (l, h, x) for l in 'FL' for h in 'ns' for x in ('astar1', 'astar2'))
            axis = dict(uu=2, vv=2, tt=2)
            axis.update({'Q:' + x: 0 for x in ('pv', 'avort')})                                              # k_sym.rotate_nh18/nhn22
            axis.update({'%s%s:%s' % (l, h, x): 0 for l in 'FL' for h in 'ns' for x in OUTS3 + ['ep4', 'astarbaro', 'ubaro']})   # k_sym.rotate_fluxes/rotate_lwa
            T = k_sym.rotation(set(axis), axis, nlon, 0, s.facts)
            mv = lambda t: map_sels(P(t), T)
            split = lambda x: [('', [cmp_lt(x, nlon - 1)], P(x) + 1), (' (last longitude)', [cmp_eq(x, nlon - 1)], ZERO)]
            for c, lab in data_calls(o, norm):
                for n in sorted(c['args']):
                    a = c['args'][n]
                    if isinstance(a, Arr) and a.ndim:
                        idx = [ivar(v) for v in ['x', 'y', 'zz'][:a.ndim]]
                        R = [q for v, m in zip(idx, a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, m))]
                        x = norm(a.elem(idx))
                        if n in LONDATA and a.ndim == 3:
                            for lb, cs, r in split(idx[0]):
                                J.eq('%s: %s of the call %s is rotated%s' % (s.tag, n, lab, lb), mv(x), norm(a.elem([r] + idx[1:])), o.ctx.child(*R, *cs))
                        else:
                            J.eq('%s: %s of the call %s is unchanged' % (s.tag, n, lab), mv(x), x, o.ctx.child(*R))
                    elif isnum(a):
                        J.eq('%s: %s of the call %s is unchanged' % (s.tag, n, lab), mv(norm(term(a))), norm(term(a)), o.ctx)
            seen = set()
            for c in o.calls:
                if c['name'] == 'spline' and c['id'] not in seen:
                    seen.add(c['id'])
                    for nm in 'xy':
                        v = ivar('k')
                        t = norm(c[nm].elem([v]))
                        J.eq('%s: data %s of spline %d unchanged' % (s.tag, nm, c['id']), mv(t), t, o.ctx.child(cmp_ge(v, 0), cmp_lt(v, c[nm]._shape[0])))
            for key in [k for k in o.value if isinstance(k, tuple)]:
                nm = key[1]
                vals = [(nm, o.value[key])] if nm != 'static_stability' else [('static_stability %d' % q, v) for q, v in enumerate(o.value[key] if isinstance(o.value[key], (tuple, list)) else [o.value[key]])]
                for nm, val in vals:
                    a = toarr(val)
                    idx = [ivar(n) for n in 'abc'[:a.ndim]]
                    R = [q for v, m in zip(idx, a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, m))]
                    if a.ndim and o.ctx.decide(cmp_eq(a._shape[-1], nlon)) is True and nm not in REFS:
                        for lb, cs, r in split(idx[-1]):
                            J.eq('%s: %s is rotated%s after %s' % (s.tag, nm, lb, key[0]), mv(norm(a.elem(idx))), norm(a.elem(idx[:-1] + [r])), o.ctx.child(*R, *cs))
                    else:
                        J.eq('%s: %s is unchanged after %s' % (s.tag, nm, key[0]), mv(norm(a.elem(idx))), norm(a.elem(idx)), o.ctx.child(*R))
        return guarded(J, go)
    return job


for _c in ('nh18', 'nhn22'):
    for _g in ('odd', 'even'):
        for _n in (False, True):
            globals()['rotated_%s_%s_%s' % (_c, _g, 'nh' if _n else 'gl')] = rotated('QGField' + _c.upper(), _g, _n)
for _g in ('odd', 'even'):
    for _n in (False, True):
        globals()['rotatedlwa_%s_%s' % (_g, 'nh' if _n else 'gl')] = rotated('QGFieldNHN22', _g, _n, ('interp', 'ref', 'lwaonly'))


def reverse(p, hi0, memo=None):
    """sums of data from 0 to hi0 run in the opposite order (outermost ones)"""
    acc = ZERO
    for mono, c in P(p).t:
        t = P(c)
        for a, e in mono:
            q = P(a)
            if a.kind == 'sum' and sel_names(a.args[3]) and P(a.args[1]) == ZERO and P(a.args[2]) == P(hi0):
                v = fresh('rv')
                q = mk_sum(v, ZERO, hi0, subst(a.args[3], {a.args[0]: P(hi0) - v}))
            t = mul(t, q ** e if e > 0 else inv(q) ** (-e))
        acc = add(acc, t)
    return acc


SIGN = dict(interpolated_v=-1, qgpv=-1, qref=-1, flux_vector_phi_baro=-1, ep2=-1, ep3=-1)


def mirrored(cls, grid='odd', jb0=False, steps=('interp', 'ref', 'flux', 'layer')):
    """C13: reflecting the input across the equator swaps the hemispheres.  One computation is executed; the reflected one is it with the input
    arrays replaced by their reflections"""
    def job():
        s = Setup(cls, grid, False)
        lonly = 'lwaonly' in steps
        J = PyJob('mirrored.%s%s%s' % (s.tag, ', boundary at the equator' if jb0 else '', ', wave activity only' if lonly else ''))

        def go():
            w = s.begin(J, NO_LOSS + ([] if cls == 'QGFieldNH18' else [cmp_eq(s.jb, 0) if jb0 else cmp_ge(s.jb, 1)]))
            s.meaning()
            o, norm = Pair(J, s, s, steps).side(s, w)
            prover.NONNEG.update('%s%s:%s' % (l, h, x) for l in 'FL' for h in 'ns' for x in ('astar1', 'astar2'))
            ids = {}
            for h in 'ns':
                ids[h] = [x for x in sel_names(s.hemi(h, 0)(ZERO)) if x.startswith('spline')][0].split(':')[0]
            swap = {ids['n']: ids['s'], ids['s']: ids['n']}
            other = dict(n='s', s='n')

            def T(n_, ix):
                if n_ in ('uu', 'tt'):
                    return sel(n_, ix[0], s.nu - 1 - ix[1], ix[2])
                if n_ == 'vv':
                    return -sel(n_, ix[0], s.nu - 1 - ix[1], ix[2])
                if n_ in ('Q:pv', 'Q:avort'):
                    return -sel(n_, ix[0], s.na - 1 - ix[1], ix[2])              # k_sym.mirror_*
                head = n_.split(':')[0]
                if head in swap:
                    return sel(swap[head] + n_[len(head):], *ix)
                if n_.endswith(':ncforce3d') and head[0] in 'FL' and len(head) == 2:
                    return -sel(head[0] + other[head[1]] + n_[2:], *ix)         # linear in the forcing, which changes sign
                if len(head) == 2 and head[0] in 'RAWBEFL' and head[1] in 'ns':
                    return sel(head[0] + other[head[1]] + n_[2:], *ix)
                return None
            mv = lambda t: map_sels(P(t), T)
            calls = {}
            for c, lab in data_calls(o, norm):
                calls.setdefault(lab, c)
            row1 = lambda x, *r: [cmp_ge(x, 1)]
            fl = dict(tref=row1, uref=row1) if jb0 else dict(tref=row1) if cls == 'QGFieldNH18' else {}

            def equator(t):
                # k_qref: 'equator row is the zonal mean' of the wind
                def f(n_, ix):
                    if n_ in ('Rn:u', 'Rs:u'):
                        z = s_common(ZERO, nlon - 1, lambda i: s.U(ix[1], nd - 1, i)) / nlon
                        return z if P(ix[0]) == ZERO else ite(cmp_eq(ix[0], 0), z, sel(n_, *ix))
                    return None
                return map_sels(P(t), f)
            # the hemispheric mean profiles change places
            sp = {}
            for c in o.calls:
                if c['name'] == 'spline':
                    sp.setdefault('spline%d' % c['id'], c)
            m = nd - s.jb
            for h in 'ns':
                a, b = sp.get(ids[h]), sp.get(ids[other[h]])
                if a is None or b is None:
                    raise Unsupported('mean profile of a hemisphere not found')
                v = ivar('k')
                cx = o.ctx.child(cmp_ge(v, 0), cmp_lt(v, a['x']._shape[0]))
                J.eq('%s: heights of the mean profile (%s)' % (s.tag, h), mv(norm(a['x'].elem([v]))), norm(b['x'].elem([v])), cx)
                J.eq('%s: mean profile of one hemisphere becomes that of the other (%s)' % (s.tag, h), reverse(mv(norm(a['y'].elem([v]))), m - 1), norm(b['y'].elem([v])), cx)
            for lab, c in sorted(calls.items()):
                if len(lab) != 2 or lab[1] not in 'ns' or lab[0] not in 'RAWFL':
                    continue
                c2 = calls.get(lab[0] + other[lab[1]])
                if c2 is None:
                    raise Unsupported('no call ' + lab[0] + other[lab[1]])
                agree(J, '%s: the reflected call %s is the call %s' % (s.tag, lab, lab[0] + other[lab[1]]), c, lambda t: mv(norm(t)), c2, norm, fl if lab[0] in 'FL' else {}, equator, o.ctx)
            # the PV kernel: its arguments are reflected
            if 'Q' in calls:
                for n, a in sorted(calls['Q']['args'].items()):
                    if isinstance(a, Arr) and a.ndim == 3:
                        x, y, z = [ivar(v) for v in ('x', 'y', 'zz')]
                        R = [q for v, m_ in zip((x, y, z), a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, m_))]
                        J.eq('%s: %s of the PV kernel is reflected' % (s.tag, n), mv(norm(a.elem([x, y, z]))), (-1 if n in ('vt', 'vq') else 1) * norm(a.elem([x, s.na - 1 - y, z])), o.ctx.child(*R))
                    elif isinstance(a, Arr):
                        tw = dict(ts0='tn0', tn0='ts0', stats='statn', statn='stats').get(n, n)
                        x = ivar('x')
                        J.eq('%s: %s of the PV kernel' % (s.tag, n), mv(norm(a.elem([x]))), norm(calls['Q']['args'][tw].elem([x])), o.ctx.child(cmp_ge(x, 0), cmp_lt(x, a._shape[0])))
            for key in [k for k in o.value if isinstance(k, tuple) and k[1] != 'static_stability']:
                nm = key[1]
                a = toarr(o.value[key])
                nms = 'kj' if nm in REFS else 'kji' if a.ndim == 3 else 'ji'
                idx = [ivar(n) for n in nms]
                jx = ivar('j')
                R = [q for v, m_ in zip(idx, a._shape) for q in (cmp_ge(v, 0), cmp_lt(v, m_))]
                idm = [s.nu - 1 - x if n == 'j' else x for x, n in zip(idx, nms)]
                twin = dict(ep2='ep3', ep3='ep2').get(nm, nm)
                b = toarr(o.value[key[0], twin])
                sg = SIGN.get(nm, 1)
                lhs, rhs = equator(mv(norm(a.elem(idx)))), sg * equator(norm(b.elem(idm)))
                reg = [('north', [cmp_gt(jx, nd - 1)]), ('south', [cmp_lt(jx, nd - 1)])]
                if nm in FULL + ['qref', 'u_baro'] and not (lonly and nm == 'u_baro'):
                    reg.append(('equator', [cmp_eq(jx, nd - 1)]))
                for lb, cs in reg:
                    if jb0 and nm in ('ep3', 'ep2', 'divergence_eddy_momentum_flux'):
                        cs = cs + [cmp_ne(jx, nd), cmp_ne(jx, nd - 2)]
                    J.eq('%s: %s of the reflected input (%s) after %s' % (s.tag, nm, lb, key[0]), lhs, rhs, o.ctx.child(*R, *cs))
        return guarded(J, go)
    return job


mirrored_nh18, mirrored_nhn22, mirrored0_nhn22 = mirrored('QGFieldNH18'), mirrored('QGFieldNHN22'), mirrored('QGFieldNHN22', jb0=True)
mirroredlwa = mirrored('QGFieldNHN22', steps=('interp', 'ref', 'lwaonly'))
