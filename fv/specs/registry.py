"""which verifier jobs decide which property: pid -> [(module, function, filter or None)]; the filter is a regular
expression over 'kind:obligation-id' ('exec' entries always count)"""
import importlib

KERNELS = [('k_qgpv', 'nh18'), ('k_qgpv', 'nhn22'), ('k_flux', 'flux'), ('k_flux', 'lwa_nhn22'), ('k_nhn22', 'before'), ('k_nhn22', 'after'),
           ('k_nhn22', 'sweep'), ('k_qref', 'qref_nhn22'), ('k_qref', 'ref_nh18')]
UTIL = [('p_util', f) for f in ('static_stability', 'qgpv_givenvort', 'gradients', 'z_derivative', 'covariance')]
BASIS = [('p_basis', f) for f in ('lwa', 'eqvlat_fawa', 'eqvlat_vgrad')]
WRAP = [('p_wrapper', f) for f in ('eqvlat_hemispheric', 'bracket_plain', 'bracket_vgrad', 'eqlat_lwa', 'eqlat_lwa_nc', 'options', 'options_nc', 'options_vg',
                                   'options_all', 'input_qref', 'theta_lwa', 'barotropic', 'barotropic_field')]
NOFRAME = r'^(?!(bounds|frame):)'
LWA = r'^post:.*(wave activity|astar)'
F3 = r'^post:.*(advective flux|radiation flux|ua1|ua2|ep1)'
EP = r'^post:.*(momentum flux|heat flux|ep2|ep3)'
QREF = r'^post:.*(reference PV|PV over|PV at the pole|lemma: )'
# the field objects: (configurations, filter) per property
GRIDS = ['odd_gl', 'odd_nh', 'even_gl', 'even_nh']
WHOLE18, WHOLE22 = [['whole_%s_%s' % (c, g) for g in GRIDS] for c in ('nh18', 'nhn22')]
GIVEN18, GIVEN22 = [['given_%s_%s' % (c, g) for g in ('odd', 'even')] for c in ('nh18', 'nhn22')]
FORCED = ['forced_%s_%s' % (c, h) for c in ('nh18', 'nhn22') for h in ('gl', 'nh')]
LWAONLY = ['lwaonly_' + g for g in GRIDS] + ['lwaonly18_' + g for g in GRIDS]
FIRST, MIXED = [['%s_%s_%s' % (x, c, g) for c in ('nh18', 'nhn22') for g in GRIDS] for x in ('layerfirst', 'mixed')]
WHOLE, GIVEN = WHOLE18 + WHOLE22, GIVEN18 + GIVEN22
FLUXARGS = r'arguments of compute_flux_dirinv_nshem'


def field(jobs, *flt):
    return [('p_field', j, '^post:.*(%s)' % '|'.join(flt)) for j in jobs]


def pub(*names):
    return r': (%s) after ' % '|'.join(names)


BARO = ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux', 'divergence_eddy_momentum_flux', 'meridional_heat_flux',
        'flux_vector_lambda_baro', 'flux_vector_phi_baro', 'lwa_baro', 'ncforce_baro', 'u_baro']
SWEEP = r'elimination|matrix inverted|upward sweep'
JOBS = {
    'C01': [('k_qgpv', 'nh18', '^post:')],
    'C02': [('k_qgpv', 'nhn22', '^post:')],
    'C03': [('p_util', 'static_stability', NOFRAME), ('p_util', 'qgpv_givenvort', NOFRAME)],
    'C05': [('p_basis', 'lwa', NOFRAME), ('p_wrapper', 'barotropic', NOFRAME), ('p_wrapper', 'barotropic_field', NOFRAME)],
    'C06': [('p_basis', 'eqvlat_fawa', NOFRAME), ('p_basis', 'eqvlat_vgrad', NOFRAME)],
    'C07': [('p_basis', 'eqvlat_vgrad', NOFRAME)] + [(m, f, NOFRAME) for m, f in WRAP[:11]],
    'C08': [('k_qref', 'qref_nhn22', QREF), ('k_qref', 'ref_nh18', QREF), ('k_nhn22', 'sweep', '^post:.*reference PV')],
    'C09': [('k_flux', 'flux', LWA), ('k_flux', 'lwa_nhn22', LWA + '|^post:.*barotropic LWA')],
    'C10': [('k_flux', 'flux', F3), ('p_util', 'gradients', r'^post:.*(zonal convergence|zero round)')],
    'C11': [('k_flux', 'flux', EP)],
    'C12': [('k_flux', 'flux', r'^post:.*(non-conservative|ncforce)')],
    'C15': [('k_flux', 'lwa_nhn22', r'^post:.*barotropic')],
    'C16': [('k_qref', 'ref_nh18', r'^post:(?!.*(lemma: |reference PV|hermal-wind balance|mean of the reference|differs from|first two rows))')],
    'C17': [('k_nhn22', 'compose', '^post:'), ('k_nhn22', 'before', '^post:'), ('k_nhn22', 'after', '^post:'), ('k_nhn22', 'sweep', r'^post:.*(wind at the ground|recursion|boundary wind|polar row)'),
            ('k_qref', 'qref_nhn22', r'^post:.*(circulation|ubar|tbar|top condition)')],
    'C18': [('k_nhn22', 'sweep', r'^post:.*(hermal-wind balance|mean of the reference|differs from|first two rows)'),
            ('k_qref', 'ref_nh18', r'^post:.*(hermal-wind balance|mean of the reference|differs from|first two rows|tbar|hemispheric mean)'),
            ('k_qref', 'qref_nhn22', r'^post:.*tbar')],
    'C21': [(m, f, '^frame:') for m, f in UTIL + BASIS + WRAP],
    'C22': [('p_util', 'gradients', NOFRAME)],
    'C26': [('p_util', 'covariance', NOFRAME)],
    'C19': [(m, f, '^bounds:') for m, f in KERNELS],
}
FIELD = {
    'C01': field(WHOLE18 + GIVEN18, r'arguments of compute_qgpv', pub('qgpv')),
    'C02': field(WHOLE22 + GIVEN22, r'arguments of compute_qgpv', pub('qgpv')),
    'C04': field(WHOLE + GIVEN, pub('interpolated_u', 'interpolated_v', 'interpolated_theta')),
    'C08': field(WHOLE, r'arguments of compute_(reference|qref)', r'upward sweep', pub('qref')),
    'C09': field(WHOLE, FLUXARGS, pub('lwa', 'lwa_baro')) + field(LWAONLY + MIXED, r'arguments of compute_lwa_only', pub('lwa', 'lwa_baro')) + field(FIRST, pub('lwa')),
    'C10': field(WHOLE + FIRST, FLUXARGS, pub('ua1', 'ua2', 'ep1', 'adv_flux_f.', 'flux_vector_lambda_baro', 'convergence_zonal_advective_flux')),
    'C11': field(WHOLE + FIRST, FLUXARGS, pub('ep2', 'ep3', 'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_phi_baro', 'stretch_term')),
    'C12': field(FORCED, FLUXARGS, pub('ncforce_baro')) + field(WHOLE, pub('ncforce_baro')),
    'C15': field(WHOLE, FLUXARGS, pub(*BARO)) + field(LWAONLY + MIXED, r'arguments of compute_lwa_only', pub('lwa_baro', 'u_baro')),
    'C16': field(WHOLE18, r'arguments of compute_reference', pub('uref')),
    'C17': field(WHOLE22, r'arguments of compute_qref', SWEEP, pub('uref')),
    'C18': field(WHOLE, r'arguments of compute_(reference|qref)', r'upward sweep', pub('ptref')),
    'C19': [('p_field', j, '^bounds:') for j in WHOLE + LWAONLY],
    'C21': [('p_field', j, '^frame:') for j in WHOLE + GIVEN + FORCED + LWAONLY],
    'C25': field(WHOLE, r': shape$'),
}
CLS = ['nh18', 'nhn22']
CONSTRUCT = ['construct_%s_%s' % (c, g) for c in CLS for g in GRIDS] + ['construct_given_%s_%s' % (c, g) for c in CLS for g in GRIDS]
ORDER = ['order_%s_%s' % (c, g) for c in CLS for g in GRIDS]
AGAIN = ['again_%s_%s' % (c, g) for c in CLS for g in GRIDS]
RETURNED = ['returned_%s_%s' % (c, g) for c in CLS for g in GRIDS]
HEATING = ['heating_%s_%s' % (c, h) for c in CLS for h in ('gl', 'nh')]
NONCONV = ['nonconv_%s_%s' % (g, r) for g in GRIDS for r in ('flag', 'error')]


def obj(jobs, flt='^(post|exec):'):
    return [('p_object', j, flt) for j in jobs]


for _p, _j in {
    'C03': obj(CONSTRUCT, '^post:.*static stability'),
    'C04': obj(CONSTRUCT, '^post:.*heights'),
    'C12': field(FORCED, ' after ') + obj(HEATING),
    'C28': field([x for x in WHOLE + GIVEN if '_even' in x] + [x for x in RETURNED if '_even' in x], ' after '),
    'C15': obj(CONSTRUCT, '^post:.*(weights|prefactor)'),
    'C16': obj(NONCONV),
    'C20': obj(CONSTRUCT, '^exec:') + obj(ORDER + ['refuse_nh18', 'refuse_nhn22']),
    'C25': obj(CONSTRUCT, '^post:.*(latitudes|kmax|nlat|option)') + field(AGAIN + RETURNED + MIXED + FIRST, ' after '),
    'C21': obj(CONSTRUCT + ['masked_' + c for c in CLS], '^frame:') + [('p_field', j, '^frame:') for j in AGAIN],
}.items():
    FIELD[_p] = FIELD.get(_p, []) + _j
for _p, _j in FIELD.items():
    JOBS[_p] = JOBS.get(_p, []) + _j
SYM = {
    'C13': ['mirrored_nh18', 'mirrored_nhn22', 'mirrored0_nhn22', 'mirroredlwa'],
    'C14': ['%s_%s' % (h, g) for h in ('half_nh18', 'half_nhn22', 'half0_nhn22', 'halflwa') for g in ('odd', 'even')],
    'C27': ['rotated_%s_%s' % (c, g) for c in CLS for g in GRIDS] + ['rotatedlwa_' + g for g in GRIDS],
}
for _p, _j in SYM.items():
    JOBS[_p] = [('p_sym', j, '^(post|exec):') for j in _j]
JOBS['C13'] += [('k_sym', 'mirror_nh18', '^post:'), ('k_sym', 'mirror_nhn22', '^post:'), ('k_qref', 'ref_nh18', 'equator row'), ('k_flux', 'flux', '^post:.*own row')]
JOBS['C14'] += [('k_flux', 'flux', '^post:.*own row'), ('k_qref', 'ref_nh18', 'equator row')]
JOBS['C27'] += [('k_sym', 'rotate_' + f, '^post:') for f in ('nh18', 'nhn22', 'fluxes', 'lwa', 'qref', 'ref')]
XI = ['iface_%d_%s%s' % (n, a, d) for n in range(3) for a in 'ns' for d in 'du'] + ['iface_3'] + ['style_%d' % n for n in range(3)] + ['names_%d' % n for n in range(4)] + ['names_user', 'names_some']
XM = ['mirror_' + x for x in ('fa', 'fd', 'la', 'ld', 'nov', 'V', 'user', 'row')] + ['no_equator']
XB = ['budget_' + x for x in ('0', '1', '2', 'user', 'point')]
JOBS['C23'] = [('p_xarray', j, '^(post|exec):') for j in XI + ['rejected', 'accepted']]
JOBS['C24'] = [('p_xarray', j, '^(post|exec):') for j in XM + XB]
JOBS['C21'] += [('p_xarray', j, '^frame:') for j in XI + XM + XB if j != 'no_equator']


for _p in ('C03', 'C05', 'C06', 'C07', 'C10', 'C22', 'C26'):       # the same contracts for integer-valued arrays
    JOBS[_p] += [(m, f + '_int', c) for m, f, c in JOBS[_p] if m in ('p_util', 'p_basis', 'p_wrapper')]
INT = {'p_field': ('whole_nh18_odd_gl', 'whole_nhn22_odd_gl', 'whole_nh18_even_nh', 'whole_nhn22_even_nh'),
       'p_xarray': ['iface_1_' + x for x in ('nu', 'sd')] + ['mirror_' + x for x in ('fa', 'ld')] + ['budget_0', 'budget_2']}
for _p in ('C01', 'C02', 'C04', 'C23', 'C24'):
    JOBS[_p] += [(m, f + '_int', c) for m, f, c in JOBS[_p] if f in INT.get(m, ())]


def call(mod, fn):
    m = importlib.import_module('fv.specs.' + mod)
    if fn.endswith('_int') and not hasattr(m, fn):
        return importlib.import_module('fv.specs.pycommon').integers(getattr(m, fn[:-4]))
    return getattr(m, fn)()


def jobs(pid):
    return JOBS.get(pid, [])
