"""Runs the real classes on a generated case and prepares the quantities the reference needs (analysis grid)."""
import numpy as np
from scipy.interpolate import UnivariateSpline

from .core import make_field, make_input, quiet, P0
from .ref import Grid


class Run:
    """an executed case: the real object plus reference grid quantities.  Odd latitude counts only."""

    def __init__(self, R, c, cls, upto='fluxes', data=None, ncforce=None):
        self.c, self.cls = c, cls
        self.g = Grid(c)
        self.jb = c['jb'] if cls == 'NHN22' else 0
        self.jd = self.g.nd - self.jb
        self.data = make_input(c) if data is None else data
        self.obj = R.no_raise('construct', lambda: make_field(c, cls, self.data))
        self.tup = {}
        stages = ['construct', 'interp', 'ref', 'fluxes', 'layer']
        n = stages.index(upto)
        if n >= 1:
            self.tup['interp'] = R.no_raise('interpolate_fields', self.obj.interpolate_fields)
        if n >= 2:
            self.tup['ref'] = R.no_raise('compute_reference_states', self.obj.compute_reference_states)
        if n >= 3:
            self.tup['fluxes'] = R.no_raise('compute_lwa_and_barotropic_fluxes',
                                            lambda: self.obj.compute_lwa_and_barotropic_fluxes(ncforce=ncforce))
        if n >= 4:
            R.no_raise('compute_layerwise_lwa_fluxes', lambda: self.obj.compute_layerwise_lwa_fluxes(ncforce=ncforce))
        self.R = R

    def get(self, name):
        return np.array(self.R.no_raise(name, lambda: getattr(self.obj, name)))

    # -------- reference values from the inputs
    def theta_in(self):
        lon, lat, plev, u, v, t = self.data
        z = -self.g.H * np.log(plev / P0)
        return t * np.exp(self.g.kap * z / self.g.H)[:, None, None], z

    def thermo(self):
        """(t0_s, t0_n, stat_s, stat_n) on the height grid, as used by the class; hemispheric area means of potential
        temperature, smoothed by the default univariate spline, and its derivative"""
        th, zin = self.theta_in()
        g = self.g
        m = self.jd
        w = g.cos
        out = []
        for sl in (slice(0, m), slice(g.nlat - m, g.nlat)):
            t0 = (th.mean(-1)[:, sl] * w[None, sl]).sum(-1) / w[sl].sum()
            s = UnivariateSpline(zin, t0)
            out.append((s(g.z), s.derivative()(g.z)))
        (ts, ss), (tn, sn) = out
        if self.cls == 'NH18':
            t, s_ = 0.5 * (ts + tn), 0.5 * (ss + sn)
            return t, t, s_, s_
        return ts, tn, ss, sn

    def rows(self):
        """latitude rows (full grid) of the hemispheres the public reference-state arrays cover; returns dict
        hemisphere -> (slice into public arrays)"""
        nd = self.g.nd
        if self.c['nh_only']:
            return {'N': slice(0, nd)}
        return {'N': slice(nd - 1, 2 * nd - 1), 'S': slice(0, nd)}

    def hemi(self, name, axis=1, sign_s=1.0, full=False):
        """public array split in hemispheres, each ordered equator -> pole; `full`: the array always has all
        latitudes (interpolated fields)"""
        x = self.get(name)
        out = {}
        nd = self.g.nd
        ix = [slice(None)] * x.ndim
        for h, sl in self.rows().items():
            if full and self.c['nh_only']:
                sl = slice(nd - 1, 2 * nd - 1)
            ix[axis] = sl
            y = x[tuple(ix)]
            if h == 'S':
                y = sign_s * np.flip(y, axis=axis)
            out[h] = y
        return out
