"""the property list; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json"""
import json
import os

F = 'src/falwa/'
K = F + 'f90_modules/'
OOP = F + 'oopinterface.py'
UT = F + 'utilities.py'
DS = F + 'data_storage.py'

ALLIN = ('for every grid size, vertical resolution, physical constant, option setting and admissible wind and temperature field')
TESTS = ('the tests compare one or two stored ERA5 snapshots (27 of 38 tests cannot even read their data offline) or a few analytic inputs on one grid; '
         'they say nothing about other sizes, constants, data or options')

P = []


def prop(id, title, statement, text, files, mech, over=('inputs', 'configurations'), tests=TESTS, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'NH18: QGPV equals its definition on the analysis grid',
     'For QGFieldNH18, at every interior level the quasigeostrophic PV reported after interpolation equals the absolute vorticity (planetary vorticity plus the '
     'spherical centred-difference curl of the interpolated winds over the longitude and latitude spacing of the grid, polar rows from the neighbouring zonal mean) plus the zonal-mean absolute vorticity times the vertical '
     'stretching of the potential-temperature anomaly from the area-weighted global mean profile, weighted by density and divided by the global-mean static stability.',
     ALLIN, [OOP, K + 'compute_qgpv.f90'], [('QGPV kernel', K + 'compute_qgpv.f90'), ('grid set-up and call', OOP)], observe=['qgpv'])
prop('C02', 'NHN22: QGPV equals its definition on the analysis grid',
     'For QGFieldNHN22, at every interior level the quasigeostrophic PV reported after interpolation equals the absolute vorticity plus the Coriolis parameter times '
     'the density-weighted vertical stretching of the potential-temperature anomaly, where anomaly and static stability use the mean profile of the hemisphere the row '
     'belongs to (the equator uses the southern one). The curl differentiates by the longitude and latitude spacing of the grid.',
     ALLIN, [OOP, K + 'compute_qgpv_direct_inv.f90'], [('QGPV kernel', K + 'compute_qgpv_direct_inv.f90'), ('grid set-up and call', OOP)], observe=['qgpv'])
prop('C03', 'Static stability and user-profile QGPV utilities equal their formulas',
     'The static-stability utility returns, per hemisphere or for the globe as requested, the cosine-weighted mean potential-temperature profile and its vertical '
     'derivative (central differences inside, one-sided at both ends) for any scale height and grid. The utility computing QGPV from given absolute vorticity returns '
     'the stretching term defined by the given reference profiles and stabilities, and a PV equal to absolute vorticity plus the Coriolis parameter times that term, at every level '
     'it reports, for each hemisphere.',
     'every grid, field, profile and constant', [UT], [('static_stability', UT), ('compute_qgpv_givenvort', UT)])
prop('C04', 'Vertical interpolation and potential temperature',
     'After interpolation the gridded u, v and potential temperature equal, at each requested pseudoheight, the chosen interpolation (or the untouched '
     'input levels when the data are declared evenly spaced) of the input columns, with potential temperature the input temperature times exp(R z/(cp H)); '
     'the reported heights are k*dz and the stored mean profiles and static stabilities are the area-weighted means of that potential temperature and of its vertical derivative.',
     ALLIN, [OOP, UT], [('field interpolation', OOP), ('static_stability', UT)], observe=['interpolated_u', 'interpolated_v', 'interpolated_theta', 'static_stability'])
prop('C05', 'Barotropic local wave activity equals its contour-displacement definition',
     'The local wave activity of a 2-D field at each reference latitude and longitude is the area element weighted sum of |q-Q| over exactly the points where the Q contour is '
     'displaced across that latitude; the partitioned form returns the anticyclonic and cyclonic parts that sum to it, a supplied forcing is summed '
     'over the same points with matching sign, and a field equal to its reference has none.',
     'every grid size, field, reference profile, latitude element and forcing; the object interface as well as the function',
     [F + 'basis.py', F + 'barotropic_field.py'], [('lwa', F + 'basis.py'), ('BarotropicField', F + 'barotropic_field.py')])
prop('C06', 'Equivalent-latitude profile encloses equal areas',
     'The equivalent-latitude relation of a 2-D field assigns to each latitude the contour value whose superlevel area equals the area poleward of that latitude, up to '
     'the histogram resolution; it is nondecreasing, within the range of the field, invariant under rearrangement of the field over equal-area cells, and equivariant under '
     'increasing affine maps of the field. The finite-amplitude wave activity returned with it is the difference of the two area integrals divided by the length of the latitude circle.',
     'every field, area weights, number of contours and radius', [F + 'basis.py'], [('eqvlat_fawa / eqvlat_vgrad', F + 'basis.py')])
prop('C07', 'Hemispheric wrapper functions agree with the global definitions',
     'Each wrapper that computes equivalent latitude, wave activity, vertical-gradient brackets or budget terms for one hemisphere or for both returns in each hemisphere exactly what the '
     'underlying definition gives for that hemisphere (the southern one by reflection), with the documented sign convention, keys and shapes.',
     'every field, grid, option and hemisphere choice', [F + 'wrapper.py', F + 'basis.py'], [('hemispheric wrappers', F + 'wrapper.py')])
prop('C08', 'Reference PV is the area-preserving zonalisation of QGPV',
     'In each hemisphere and at each interior level the reference PV at a latitude equals the PV value whose contour encloses the area poleward of that latitude, up to the resolution '
     'of the area histogram; it never decreases poleward (in the sense of the hemisphere) and stays within the range of the PV field. (Rows other than the equator, where the analysed PV over sin(latitude) is extrapolated.)',
     ALLIN, [OOP, K + 'compute_qref_and_fawa_first.f90', K + 'compute_reference_states.f90'],
     [('area analysis', K + 'compute_qref_and_fawa_first.f90'), ('area analysis', K + 'compute_reference_states.f90')], observe=['qref'])
prop('C09', '3-D and vertically averaged LWA equal their definitions',
     'Local wave activity at each level, latitude and longitude equals the cosine-weighted sum of PV deviation from the reference over the displaced points, nonnegative, zero at the poles; '
     'its vertical average is the density-weighted mean of it. Both flux pipelines and the wave-activity-only pipeline publish the same values.',
     ALLIN, [OOP, K + 'compute_flux_dirinv.f90', K + 'compute_lwa_only_nhn22.f90'],
     [('LWA and fluxes', K + 'compute_flux_dirinv.f90'), ('LWA only', K + 'compute_lwa_only_nhn22.f90')], observe=['lwa', 'lwa_baro'])
prop('C10', 'Zonal advective LWA fluxes and their convergence',
     'The three zonal flux components equal their definitions (reference-wind advection of wave activity, eddy-wind advection of displaced PV, and the momentum-heat term) at each level and after '
     'density-weighted vertical averaging; the published zonal flux vector is their sum and its convergence is the centred zonal difference, summing to zero round each latitude circle.',
     ALLIN, [OOP, K + 'compute_flux_dirinv.f90', UT], [('flux kernel', K + 'compute_flux_dirinv.f90'), ('zonal_convergence', UT)],
     observe=['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux'])
prop('C11', 'Eddy momentum flux divergence, heat flux, flux vector and stretching',
     'The divergence of the eddy momentum flux, the low-level meridional heat flux, the meridional flux vector and the stretching term published by a field object equal '
     'their finite-difference definitions from the interpolated winds, potential temperature and reference states in both hemispheres, vanish at the poles, and use only rows inside the analysed domain.',
     ALLIN, [OOP, K + 'compute_flux_dirinv.f90'], [('flux kernel', K + 'compute_flux_dirinv.f90'), ('publication', OOP)],
     observe=['divergence_eddy_momentum_flux', 'meridional_heat_flux', 'flux_vector_phi_baro', 'stretch_term'])
prop('C12', 'Nonconservative forcing: conversion and wave-activity source',
     'A supplied PV forcing contributes to the wave-activity budget exactly its cosine-weighted sum over the displaced points (density-averaged for the vertical mean), nothing when absent, and changes no other '
     'output. Converting a heating rate to a PV forcing gives the Coriolis parameter times the density-weighted vertical derivative of heating over static stability.',
     ALLIN + ', and forcing', [OOP, UT, K + 'compute_flux_dirinv.f90'], [('flux kernel', K + 'compute_flux_dirinv.f90'), ('heating conversion', OOP)], observe=['ncforce_baro'])
prop('C13', 'Hemispheric mirror symmetry',
     'Reflecting the input across the equator (reversing latitude and the sign of the meridional wind) swaps the northern and southern results, with the sign dictated by each quantity '
     '(PV and reference PV change sign, the others are mirrored). The equator row itself, which both hemispheric computations share and the one run last fills, is exempt, with the differences taken across it when the NHN22 domain starts at the equator.',
     ALLIN, [OOP, K + 'compute_flux_dirinv.f90'], [('southern-hemisphere handling', OOP), ('is_nhem branches', K + 'compute_flux_dirinv.f90')])
prop('C14', 'Northern-only results are the northern half of the global results',
     'A field object asked for the Northern Hemisphere only publishes, for every quantity, exactly the northern part of what the global object publishes for the same input; the interpolated fields and PV stay global and are identical. The equator row, which in a global object belongs to both computations, is exempt, with the rows interpolated from it on grids without an equator and the differences taken across it when the NHN22 domain starts at the equator.',
     ALLIN, [OOP, DS], [('storage and properties', DS), ('properties', OOP)])
prop('C15', 'Vertical averages are the density-weighted means',
     'Every published vertically averaged quantity is the sum over interior levels of the level value weighted by exp(-z/H) dz, divided by the sum of those same weights, so that the mean of a vertically uniform quantity '
     'is that quantity; this holds in every pipeline (in the wave-activity-only pipeline the wind average on the rows of the analysed domain).',
     ALLIN, [OOP, K + 'compute_flux_dirinv.f90', K + 'compute_lwa_only_nhn22.f90'],
     [('prefactor', OOP), ('vertical sums', K + 'compute_flux_dirinv.f90')], observe=['u_baro', 'lwa_baro'])
prop('C16', 'NH18 reference wind solves the elliptic problem or reports failure',
     'The NH18 reference wind satisfies the discretised elliptic inversion problem of the reference PV with its stated boundary conditions, to the solver tolerance. If the iteration does not converge the failure is reported '
     '(error or flag as configured), flux computation is refused, and no unconverged solution is published.',
     ALLIN, [OOP, K + 'compute_reference_states.f90'], [('SOR solver', K + 'compute_reference_states.f90'), ('nonconvergence handling', OOP)], observe=['uref', 'nonconvergent_uref'])
prop('C17', 'NHN22 reference wind solves the elliptic problem with its boundary',
     'The NHN22 reference wind satisfies the discretised inversion problem of the reference PV poleward of the chosen boundary latitude, with the circulation-derived wind at that boundary, no wind at the ground and the pole, '
     'and the thermal-wind condition at the top.',
     ALLIN + ' and boundary index', [OOP, K + 'matrix_b4_inversion.f90', K + 'matrix_after_inversion.f90', K + 'upward_sweep.f90', K + 'compute_qref_and_fawa_first.f90'],
     [('direct inversion', OOP), ('matrix assembly', K + 'matrix_b4_inversion.f90'), ('recursion', K + 'matrix_after_inversion.f90'), ('sweep', K + 'upward_sweep.f90')], observe=['uref'])
prop('C18', 'Reference temperature is in thermal-wind balance and conserves the mean',
     'The reference potential temperature is in thermal-wind balance with the reference wind at interior levels and its cosine-weighted hemispheric mean equals that of the analysed hemisphere, '
     'for either inversion method; bottom and top levels differ from their neighbours by the mean profile.',
     ALLIN, [OOP, K + 'compute_reference_states.f90', K + 'upward_sweep.f90'], [('thermal wind integration', K + 'compute_reference_states.f90'), ('sweep', K + 'upward_sweep.f90')], observe=['ptref'])
prop('C19', 'No kernel call reads or writes outside its arrays',
     'For every admissible configuration every array access made by the compiled kernels is inside the array, no published value depends on an element that was never written, and all published results are finite.',
     ALLIN, [K + 'compute_flux_dirinv.f90', K + 'compute_reference_states.f90', K + 'compute_qgpv.f90', K + 'compute_qgpv_direct_inv.f90', K + 'compute_lwa_only_nhn22.f90',
             K + 'compute_qref_and_fawa_first.f90', K + 'matrix_b4_inversion.f90', K + 'matrix_after_inversion.f90', K + 'upward_sweep.f90'],
     [('loop bounds', K), ('call arguments', OOP)])
prop('C20', 'Invalid inputs and out-of-order calls are refused',
     'Construction refuses ascending pressure, descending latitude, mismatching array shapes, a latitude grid of odd size without equator, and a top above the data, and accepts every valid input. Reading a quantity before the step that computes it, computing fluxes before '
     'interpolation or reference states, and accessing southern results of a northern-only object raise an error instead of returning data.',
     'every admissible and inadmissible configuration and every order of calls', [OOP, DS], [('validation', OOP), ('storage guards', DS)], over=('inputs', 'configurations', 'histories'))
prop('C21', 'Caller-owned inputs are never modified',
     'No public computation changes any array or dataset passed to it, and reading a result does not change it.',
     'every input and every sequence of public operations', [OOP, F + 'basis.py', F + 'wrapper.py', UT, F + 'barotropic_field.py', F + 'xarrayinterface.py'],
     [('copies', OOP), ('copies', F + 'barotropic_field.py')], over=('inputs', 'histories'))
prop('C22', 'Spherical difference operators equal their definitions',
     'Zonal convergence, meridional divergence, 2-D curl and the vertical derivative of a density-weighted product return the centred-difference formulas on the sphere (periodic in longitude) '
     'at interior points for any radius and grid, with zonal convergence summing to zero around each latitude circle.',
     'every field, grid and radius', [UT], [('zonal_convergence, meridional_divergence, curl_2d, z_derivative_of_prod', UT)])
prop('C23', 'The xarray interface returns exactly what field objects compute',
     'For any ordering, naming or orientation of the coordinates and any additional dimensions, the dataset interface returns for each slice the same values as a field object built from that slice, '
     'labelled with the right dimensions and coordinates, and the forcing converted from heating rates is that of the slices.',
     'every dataset layout, dimension order, orientation and option', [F + 'xarrayinterface.py'], [('QGDataset', F + 'xarrayinterface.py')])
prop('C24', 'Budget integration closes and hemisphere mirroring is exact',
     'Extending a hemisphere to the globe keeps the given half unchanged and mirrors the other exactly, with the requested sign changes and one equator. Integrating a wave-activity budget returns the change of '
     'wave activity between the end times, the trapezoidal time integrals of the terms between them, and a residual that closes the budget.',
     'every dataset, naming and interval', [F + 'xarrayinterface.py'], [('hemisphere_to_globe, integrate_budget', F + 'xarrayinterface.py')])
prop('C25', 'Published results: shapes, finiteness, repeatability, independence',
     'Every published quantity has the documented shape for the grid and hemisphere option and is finite; recomputing on the same object gives the same values; and results of one object do not depend on other objects '
     'alive or computed at the same time.',
     ALLIN + ', and every sequence of repeated calls', [OOP, DS], [('storage', DS), ('properties', OOP)], over=('inputs', 'configurations', 'histories'))
prop('C26', 'Covariance is the sample covariance over time at each point',
     'The covariance utility returns at every grid point the sample covariance over the time axis: symmetric, bilinear, unaffected by constants, equal to the sample variance for equal arguments.',
     'every pair of fields and number of samples', [F + 'stat_utils.py'], [('calculate_covariance', F + 'stat_utils.py')], over=('inputs',))
prop('C27', 'Rotating the input in longitude rotates the results',
     'Cyclically shifting the input in longitude shifts every longitude-dependent result by the same amount and leaves the reference states unchanged, for both inversion methods.',
     ALLIN + ' and shift', [OOP, K + 'compute_flux_dirinv.f90'], [('periodic differences', K)])
prop('C28', 'Grids without an equator row give the interpolated analysis-grid results',
     'On an even latitude grid the published results equal the results of the analysis on the grid with an equator row, linearly interpolated back to the input latitudes.',
     ALLIN, [OOP], [('regridding', OOP)])

# ------------------------------------------------------------------------------------------------------- manifest
TECH = 'contracts on the real code, verification conditions from its current source discharged by a deductive verifier (fv + z3); failing obligations replayed on the real code'
BASE = ('every obligation generated from the current source is discharged for all sizes and values; real arithmetic stands for floating point, and the verifier (fv), z3, '
        'the compilers and the library contracts of DESIGN.md section 5 are trusted')
NOTE = {
    'C04': 'scipy interp1d: only its linearity with local weights is assumed (which values they take for each kind is checked bounded)',
    'C06': 'invariance under rearrangement and affine maps is checked bounded; profile, monotonicity and wave activity are proved',
    'C08': 'enclosed area within the resolution of the histogram: the histogram, its cumulation and the interpolation are proved, the resolution bound itself is checked bounded',
    'C16': 'proved: the discrete problem, the stopping rule and the report of failure; that the relaxation reaches its tolerance on a given input is not a contract (nonconvergence must be reported, which is proved)',
    'C17': 'LAPACK factorisation and inverse are assumed to return the inverse',
    'C19': 'bounds and no dependence on unwritten elements are proved; finiteness of the results in floating point is checked bounded',
    'C22': 'UnivariateSpline variants are opaque',
    'C23': 'xarray contracts (fv/py/xr.py) assumed; the field class is arbitrary, its results are the business of the other properties',
    'C24': 'xarray contracts (fv/py/xr.py) assumed; variables without a latitude dimension are checked bounded',
    'C25': 'shapes, repeatability and grid bookkeeping are proved; finiteness in floating point and independence of objects alive at the same time are checked bounded',
    'C27': 'rotation by one longitude is proved; any other is a repetition of it',
}


def manifest():
    checks = []
    for p in P:
        checks.append(dict(
            property=p['id'], quick_cmd='python3-vt -B fv/check.py %s' % p['id'], thorough_cmd='env VERIF_TIER=thorough python3-vt -B fv/check.py %s' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='proof', level_note=BASE + ('; ' + NOTE[p['id']] if p['id'] in NOTE else '')))
    return dict(version=1, setup_cmd='python3-vt -B -c "import z3, numpy" && mkdir -p evidence', checks=checks, not_applicable=[],
                notes='See DESIGN.md. No hooks in /repo. known_findings.json lists repaired defects and known findings.')


if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest(), f, indent=1)
        f.write('\n')
