"""Concrete side of the contracts: runs the real falwa package (a private double-precision build of /repo) on small
grids and evaluates, on its public results, the same postconditions that the verifier discharges symbolically.

Used to (a) replay / confirm a failed obligation with a concrete input, and (b) as the labelled bounded stand-in for
functions outside the verifier's reach.  Runs under /opt/venv/bin/python; knows nothing about falwa's internals beyond
its documented API."""
import contextlib
import io
import json
import os
import sys
import traceback
import warnings

import numpy as np


class Violation(Exception):
    pass


class Recorder:
    """collects the evaluations of one property; `fail` entries are violations with the concrete case"""

    def __init__(self, pid):
        self.pid = pid
        self.evals = 0
        self.fails = []
        self.cases = 0
        self.samples = []
        self.worst = {}
        self.case = None
        self.distinct = set()
        self.skipped = []
        self.harness_cases = []

    def begin(self, case):
        self.case = case
        self.cases += 1
        self.distinct.add(json.dumps(case, sort_keys=True, default=str))
        if len(self.samples) < 3:
            self.samples.append(case)

    def fail(self, name, msg, **kw):
        self.fails.append(dict(clause=name, case=self.case, message=msg, **kw))

    def true(self, name, cond, msg='', **kw):
        self.evals += 1
        if not bool(cond):
            self.fail(name, msg or 'condition is false', **kw)
            return False
        return True

    def close(self, name, got, want, rtol=1e-7, atol=None, scale=None, mask=None, lo=None, hi=None):
        """got == want up to rtol*scale, scale = max|want| by default (so it is insensitive to reassociation)"""
        self.evals += 1
        try:
            got = np.asarray(got, dtype=float)
        except Exception as e:
            self.fail(name, 'result is not a numeric array: %r' % (e,))
            return False
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(name, 'shape %s, expected %s' % (got.shape, want.shape))
            return False
        if mask is not None:
            mask = np.broadcast_to(mask, want.shape)
        if want.size == 0:
            return True
        s = scale if scale is not None else float(np.nanmax(np.abs(want), initial=0.0))
        tol = rtol * s + (atol if atol is not None else 1e-300)
        if lo is not None:       # envelope
            err = np.maximum(np.maximum(np.asarray(lo) - got, got - np.asarray(hi)), 0.0)
        else:
            err = np.abs(got - want)
        bad = ~(err <= tol)
        both_nan = np.isnan(got) & np.isnan(want)
        bad &= ~both_nan
        if mask is not None:
            bad &= mask
            err = np.where(mask, err, 0.0)
        with np.errstate(all='ignore'):
            rel = float(np.nanmax(err) / s) if s > 0 and err.size else 0.0
        self.worst[name] = max(self.worst.get(name, 0.0), rel)
        if bad.any():
            e2 = np.where(bad, np.where(np.isnan(err), np.inf, err), -1)
            ix = np.unravel_index(int(np.argmax(e2)), err.shape)
            self.fail(name, '%d of %d entries differ; at index %s observed %r, required %r (scale %.3g, tolerance %.3g)'
                      % (int(bad.sum()), want.size, tuple(int(x) for x in ix), float(got[ix]), float(want[ix]), s, tol),
                      index=[int(x) for x in ix], observed=float(got[ix]), required=float(want[ix]))
            return False
        return True

    def raises(self, name, exc, fn):
        self.evals += 1
        try:
            with quiet():
                fn()
        except exc:
            return True
        except Exception as e:
            self.fail(name, 'raised %s (%s), expected %s' % (type(e).__name__, str(e)[:120], exc))
            return False
        self.fail(name, 'no error raised, expected %s' % (exc,))
        return False

    def no_raise(self, name, fn):
        """an exception on a valid input is a violation"""
        self.evals += 1
        try:
            with quiet():
                return fn()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
            self.fail(name, 'raised %s: %s (%s)' % (type(e).__name__, str(e)[:200], where))
            raise Violation(name)


@contextlib.contextmanager
def quiet():
    """silences Python prints and the kernels' Fortran writes"""
    sys.stdout.flush()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                yield


# ------------------------------------------------------------------------------------------------------ cases

P0 = 1000.0


def mk_plev(n, ptop):
    # uneven, descending, first level below or at the ground
    x = np.linspace(0, 1, n)
    return P0 * np.exp(np.log(ptop / P0) * (0.85 * x + 0.15 * x ** 2))


def gen_case(rng, **over):
    """A small valid input: everything the constructor accepts is varied"""
    c = dict(
        nlon=int(rng.choice([6, 7, 8, 9, 12])),
        nlat=int(rng.choice([13, 15, 17, 19, 21])),
        nlev=int(rng.choice([9, 11, 14])),
        kmax=int(rng.choice([6, 7, 9, 11])),
        dz=float(rng.choice([700.0, 1000.0, 1300.0, 2000.0, 1000 / 3, 1234.1])),
        npart=[None, 9, 23, 31][int(rng.integers(4))],
        scale_height=float(rng.choice([7000.0, 6500.0, 8000.0])),
        cp=float(rng.choice([1004.0, 950.0])),
        dry_gas_constant=float(rng.choice([287.0, 300.0])),
        omega=float(rng.choice([7.29e-5, 9.1e-5])),
        planet_radius=float(rng.choice([6.378e6, 5.1e6])),
        nh_only=bool(rng.integers(2)),
        field='wave',
        seed=int(rng.integers(1 << 30)),
        jb=int(rng.choice([1, 2, 3])),
        ground=float(rng.choice([1.0, 1.0, 0.96, 1.015])),       # lowest pressure level over the reference pressure
        lats=['half', 'gauss', 'half'][int(rng.integers(3))],    # latitudes of a grid without equator
    )
    c.update(over)
    return c


def make_input(c):
    """u, v, t on (nlev, nlat, nlon), dtype float64"""
    rng = np.random.default_rng(c['seed'])
    nlon, nlat = c['nlon'], c['nlat']
    H = c['scale_height']
    need = (c['kmax'] - 1) * c['dz'] * 1.04
    plev = mk_plev(c['nlev'], P0 * np.exp(-need / H))
    p1 = P0 * c.get('ground', 1.0)
    plev = p1 * (plev / plev[0]) ** (np.log(plev[-1] / p1) / np.log(plev[-1] / plev[0]))
    if c.get('even_z'):
        plev = P0 * np.exp(-np.arange(c['kmax']) * c['dz'] / H)
    z = -H * np.log(plev / P0)
    if nlat % 2 == 1:
        lat = np.linspace(-90, 90, nlat)
    else:
        d = 180.0 / nlat
        lat = np.linspace(-90 + d / 2, 90 - d / 2, nlat)
        if c.get('lats') == 'gauss':
            lat = np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(nlat)[0]))
    lon = np.linspace(0, 360, nlon, endpoint=False)
    zz, yy, xx = np.meshgrid(z, np.deg2rad(lat), np.deg2rad(lon), indexing='ij')
    kap = c['dry_gas_constant'] / c['cp']
    h = zz / max(z[-1], 1.0)
    asym = rng.uniform(-0.3, 0.3, size=6)
    u = 18 * np.sin(2 * yy) ** 2 * (0.4 + h) * (1 + asym[0] * np.sin(yy)) + 4 * np.cos(yy)
    v = 0 * u
    th = 295 + 45 * h + 30 * h ** 2 - 28 * np.sin(yy) ** 2 * (1 - 0.6 * h) + 3 * asym[1] * np.sin(yy) + 20 * asym[2] * h * np.sin(yy)
    for m in range(1, 4):
        ph = rng.uniform(0, 2 * np.pi, size=3)
        am = rng.uniform(0.5, 1.0, size=3)
        env = np.cos(yy) ** 2
        u = u + 5 * am[0] * env * np.sin(m * xx + ph[0] + 2 * yy) * (0.5 + h)
        v = v + 6 * am[1] * env * np.cos(m * xx + ph[1] - 1.3 * h) * (0.6 + h)
        th = th + 3 * am[2] * env * np.cos(m * xx + ph[2] + h)
    if c['field'] != 'smooth':
        amp = dict(wave=0.4, noise=3.0)[c['field']]
        u = u + amp * rng.standard_normal(u.shape) * np.cos(yy)
        v = v + amp * rng.standard_normal(u.shape) * np.cos(yy)
        th = th + 0.3 * amp * rng.standard_normal(u.shape)
    t = th * np.exp(-kap * zz / H)
    if c.get('stored') == 'int':            # data stored as machine integers
        u, v, t = (np.round(x).astype(int) for x in (u, v, t))
    if c.get('stored') == 'fortran':        # memory orders differ
        u, t = np.asfortranarray(u), np.asfortranarray(t)
    return lon, lat, plev, u, v, t


def field_kwargs(c):
    return dict(kmax=c['kmax'], dz=c['dz'], npart=c['npart'], scale_height=c['scale_height'], cp=c['cp'],
                dry_gas_constant=c['dry_gas_constant'], omega=c['omega'], planet_radius=c['planet_radius'],
                northern_hemisphere_results_only=c['nh_only'], tol=c.get('tol', 1e-5), rjac=c.get('rjac', 0.95),
                maxit=c.get('maxit', 100000))


def make_field(c, cls, data=None):
    """construct the real object"""
    import falwa.oopinterface as oop
    lon, lat, plev, u, v, t = data if data is not None else make_input(c)
    kw = field_kwargs(c)
    if cls == 'NHN22':
        kw['eq_boundary_index'] = c['jb']
        if c.get('even_z'):
            kw['data_on_evenly_spaced_pseudoheight_grid'] = True
        k = oop.QGFieldNHN22
    else:
        if c.get('even_z'):
            kw['data_on_evenly_spaced_pseudoheight_grid'] = True
        k = oop.QGFieldNH18
    return k(lon, lat, plev, u, v, t, **kw)
