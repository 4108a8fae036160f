"""Reference (specification) functions, written from the published definitions (Nakamura & Huang 2018, Neal et al. 2022,
Huang & Nakamura 2016/17) in numpy.  All arrays are (height, latitude, longitude), latitudes evenly spaced from pole to
pole and odd in number, 0-based."""
import numpy as np


class Grid:
    def __init__(self, c, nlat=None):
        self.nlon = c['nlon']
        n = nlat or c['nlat']
        self.nlat = n if n % 2 else n + 1
        self.nd = (self.nlat + 1) // 2
        self.kmax = c['kmax']
        self.dz = c['dz']
        self.H = c['scale_height']
        self.R = c['dry_gas_constant']
        self.cp = c['cp']
        self.kap = self.R / self.cp
        self.om = c['omega']
        self.a = c['planet_radius']
        self.lat = np.linspace(-90, 90, self.nlat)
        self.phi = np.deg2rad(self.lat)
        self.dphi = np.pi / (self.nlat - 1)
        self.dlam = 2 * np.pi / self.nlon
        self.z = np.arange(self.kmax) * self.dz
        self.f = 2 * self.om * np.sin(self.phi)
        self.cos = np.cos(self.phi)
        self.prefac = np.sum(np.exp(-self.z[1:-1] / self.H)) * self.dz


def lat_interp(field, lat_from, lat_to, axis):
    """linear interpolation, linear extrapolation outside"""
    field = np.moveaxis(np.asarray(field, float), axis, 0)
    lat_from = np.asarray(lat_from, float)
    out = np.empty((len(lat_to),) + field.shape[1:])
    for n, y in enumerate(lat_to):
        m = int(np.clip(np.searchsorted(lat_from, y) - 1, 0, len(lat_from) - 2))
        w = (y - lat_from[m]) / (lat_from[m + 1] - lat_from[m])
        out[n] = field[m] * (1 - w) + field[m + 1] * w
    return np.moveaxis(out, 0, axis)


def avort(g, u, v):
    """absolute vorticity, centred differences; polar rows = zonal mean of the neighbouring row"""
    out = np.zeros_like(u)
    c = g.cos
    J = slice(1, -1)
    dv = (np.roll(v, -1, axis=2) - np.roll(v, 1, axis=2))[:, J] / (2 * g.a * c[J][None, :, None] * g.dlam)
    uc = u * c[None, :, None]
    du = (uc[:, 2:] - uc[:, :-2]) / (2 * g.a * c[J][None, :, None] * g.dphi)
    out[:, J] = g.f[J][None, :, None] + dv - du
    out[:, 0] = out[:, 1].mean(-1)[:, None]
    out[:, -1] = out[:, -2].mean(-1)[:, None]
    return out


def qgpv(g, av, th, t0, stat, planetary):
    """q = zeta_a + G e^{z/H} d/dz[ e^{-z/H} (theta - t0)/(dt0/dz) ]; t0, stat: (k, j);
    planetary: G(k, j)"""
    x = np.exp(-g.z / g.H)[:, None, None] * (th - t0[:, :, None]) / stat[:, :, None]
    q = np.full_like(th, np.nan)
    q[1:-1] = av[1:-1] + np.exp(g.z[1:-1] / g.H)[:, None, None] * planetary[1:-1, :, None] * (x[2:] - x[:-2]) / (2 * g.dz)
    return q


def area_tables(g, q, npart, shift=0.0):
    """areas (and area integrals of q) of {q >= Q_n} for Q_n evenly spaced from max to min q.
    The histogram puts a value in the bin floor((qmax-q)/dq); `shift` moves values lying within |shift| bins of a bin
    edge, so that results are compared up to rounding at the edges.  Returns Q_n, A_n, C_n"""
    qmax, qmin = q.max(), q.min()
    dq = (qmax - qmin) / (npart - 1)
    qn = qmax - dq * np.arange(npart)
    da = np.broadcast_to((g.a ** 2 * g.dphi * g.dlam * g.cos)[:, None], q.shape)
    idx = np.floor(np.maximum((qmax - q) / dq + shift, 0.0)).astype(int)
    idx = np.where(q == qmax, 0, idx)
    idx = np.minimum(idx, npart - 1)
    an = np.bincount(idx.ravel(), weights=da.ravel(), minlength=npart)
    cn = np.bincount(idx.ravel(), weights=(da * q).ravel(), minlength=npart)
    an[0] = 0.0
    cn[0] = 0.0
    return qn, np.cumsum(an), np.cumsum(cn)


def interp_area(g, A, vals, nd):
    """value at the area of the polar cap north of phi_j, j = equator .. one before the pole"""
    out = np.full(nd, np.nan)
    for j in range(nd - 1):
        al = 2 * np.pi * g.a ** 2 * (1 - np.sin(g.dphi * j))
        n = np.searchsorted(A, al, side='right') - 1      # A[n] <= al < A[n+1]
        if n + 1 >= len(A):
            continue
        d = (al - A[n]) / (A[n + 1] - A[n])
        out[j] = vals[n] * (1 - d) + vals[n + 1] * d
    return out


EDGE = 1e-7


def qref_layer(g, q, npart, shift=0.0):
    """reference PV (units of q) on the nd latitudes from equator to pole for one layer (nlat, nlon).
    The equator value follows from extrapolating Q/sin(phi)."""
    qn, A, C = area_tables(g, q, npart, shift)
    r = interp_area(g, A, qn, g.nd)
    r[-1] = q.max()
    return r


def cref_layer(g, q, npart, shift=0.0):
    qn, A, C = area_tables(g, q, npart, shift)
    return interp_area(g, A, C, g.nd)


def cbar_layer(g, q):
    """circulation of the zonal-mean field poleward of each latitude (equator to pole), trapezoid with midpoint cosine"""
    qb = q[g.nd - 1:].mean(-1)
    cb = np.zeros(g.nd)
    for j in range(g.nd - 2, -1, -1):
        cb[j] = cb[j + 1] + 0.5 * (qb[j + 1] + qb[j]) * g.a * g.dphi * 2 * np.pi * g.a * np.cos(g.dphi * (j + 0.5))
    return cb


def sh(x, axis=1):
    return np.flip(x, axis=axis)


def vavg(g, x, top):
    """density-weighted vertical mean from level 1; x: (k, ...)"""
    w = np.exp(-g.z / g.H) * g.dz / g.prefac
    hi = g.kmax if top else g.kmax - 1
    return np.tensordot(w[1:hi], x[1:hi], axes=(0, 0))


def lwa_layers(g, q, qref):
    """local wave activity times cos(phi) in the northern hemisphere; q: (k, nd, nlon) on the hemisphere,
    qref: (k, nd).  Returns (anticyclonic, cyclonic) parts, filled for interior levels and all rows but the pole"""
    k, nd, nlon = q.shape
    cos = np.cos(g.dphi * np.arange(nd))
    anti = np.zeros_like(q)
    cyc = np.zeros_like(q)
    for j in range(nd - 1):
        e = q - qref[:, j][:, None, None]
        w = (g.a * g.dphi * cos)[None, :, None]
        anti[:, j] = np.sum(np.where(e[:, j:] <= 0, -e[:, j:] * w[:, j:], 0), axis=1)
        cyc[:, j] = np.sum(np.where(e[:, :j] > 0, e[:, :j] * w[:, :j], 0), axis=1)
    anti[0] = anti[-1] = cyc[0] = cyc[-1] = 0
    return anti, cyc


def displacement_integral(g, q, qref, s, wt):
    """sum over the displacement region with sign, of s * wt: -s where q<=Q poleward, +s where q>Q equatorward.
    s(j): array (k, nd, nlon) as function of target row j"""
    k, nd, nlon = q.shape
    out = np.zeros_like(q)
    for j in range(nd - 1):
        e = q - qref[:, j][:, None, None]
        ss = s(j) * wt[None, :, None]
        out[:, j] = np.sum(np.where(e[:, j:] <= 0, -ss[:, j:], 0), axis=1) + \
            np.sum(np.where(e[:, :j] > 0, ss[:, :j], 0), axis=1)
    out[0] = out[-1] = 0
    return out
