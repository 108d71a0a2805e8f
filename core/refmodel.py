"""Executable reference model of the gaussianfft Python module.

Written from the documented behaviour (README, docstrings) and the published
algorithms (dSFMT, circulant embedding); shares no code with /repo.  The whole
module state a caller can observe is: has a seed been set, which one, and how
far the random stream has been consumed."""
import ctypes
import math
import numpy as np

TYPES = ['gaussian', 'exponential', 'general_exponential', 'spherical',
         'matern32', 'matern52', 'matern72', 'constant']
_lib = None


def load(path):
    global _lib
    _lib = ctypes.CDLL(path)
    _lib.ref_u32.restype = ctypes.c_uint32
    _lib.ref_unif.restype = ctypes.c_double
    _lib.ref_norm.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
    _lib.ref_seed.argtypes = [ctypes.c_void_p, ctypes.c_uint32]


class Stream:
    def __init__(self, seed=None):
        self.buf = ctypes.create_string_buffer(_lib.ref_size())
        if seed is not None:
            _lib.ref_seed(self.buf, seed & 0xffffffff)

    def u32(self):
        return _lib.ref_u32(self.buf)

    def norm(self, n):
        out = np.empty(n)
        _lib.ref_norm(self.buf, out.ctypes.data, n)
        return out

    def copy(self):
        s = Stream()
        ctypes.memmove(s.buf, self.buf, len(self.buf))
        return s

    def state(self):
        return self.buf.raw


RATIO = {'gaussian': 6.67, 'exponential': 2.33, 'spherical': 1.92, 'matern32': 4.0,
         'matern52': 4.76, 'matern72': 5.26, 'constant': 1.0}


class Vario:
    """kind, ranges (None/negative = main range), angles in degrees"""
    def __init__(self, kind, main, perp=-1.0, depth=-1.0, azimuth=0.0, dip=0.0, power=1.5):
        kind = kind.lower()
        self.kind = kind if kind in TYPES else 'spherical'
        self.r = (main, main if perp < 0 else perp, main if depth < 0 else depth)
        self.azi = math.radians(azimuth)
        self.dip = math.radians(dip)
        self.power = power
        ca, sa, cd, sd = math.cos(self.azi), math.sin(self.azi), math.cos(self.dip), math.sin(self.dip)
        # rows: unit vectors of main, perpendicular and depth directions
        self.axes = ((ca * cd, sa * cd, sd), (-sa, ca, 0.0), (-ca * sd, -sa * sd, cd))

    def ratio(self):
        if self.kind == 'general_exponential':
            return 4.0 + (self.power - 1.5) * 5.34
        return RATIO[self.kind]

    def corr(self, dx, dy=0.0, dz=0.0):
        q = 0.0
        for ax, r in zip(self.axes, self.r):
            p = (ax[0] * dx + ax[1] * dy + ax[2] * dz) / r
            q = q + p * p
        h = np.sqrt(q)
        k = self.kind
        if k == 'gaussian':
            return np.exp(-3.0 * h * h)
        if k == 'exponential':
            return np.exp(-3.0 * h)
        if k == 'general_exponential':
            return np.exp(-3.0 * np.power(h, self.power))
        if k == 'spherical':
            return np.where(h < 1.0, 1.0 - 1.5 * h + 0.5 * h ** 3, 0.0)
        if k == 'matern32':
            s = 4.744 * h
            return np.exp(-s) * (1 + s)
        if k == 'matern52':
            s = 5.918 * h
            return np.exp(-s) * (1 + s + s * s / 3.0)
        if k == 'matern72':
            s = 6.877 * h
            return np.exp(-s) * (1 + s + 0.4 * s * s + s ** 3 / 15.0)
        return np.ones_like(h)

    def axis_reach(self):
        """longest extent of the three range vectors along each grid axis"""
        a, d, h = self.azi, self.dip, 3.14 / 2.0
        m, p, z = self.r
        v = [(m * math.cos(d) * math.cos(a), m * math.cos(d) * math.sin(a), m * math.sin(d)),
             (p * math.cos(a + h), p * math.sin(a + h), 0.0),
             (z * math.cos(d + h) * math.cos(a), z * math.cos(d + h) * math.sin(a), z * math.sin(d + h))]
        return [max(abs(w[i]) for w in v) for i in range(3)]


_smooth = {}


def smooth_size(n, even):
    """smallest 2,3,5,7-smooth number >= n (even if asked; 1 stays 1)"""
    if n <= 1:
        return 1
    key = (n, even)
    if key not in _smooth:
        m = n
        while True:
            if not (even and m & 1):
                q = m
                for p in (2, 3, 5, 7):
                    while q % p == 0:
                        q //= p
                if q == 1:
                    break
            m += 1
        _smooth[key] = m
    return _smooth[key]


def pad_cells(v, n, rng, step):
    return max(int(v.ratio() * rng / step - n), int(rng / step)) + 1


def paddings(v, nx, dx, ny=1, dy=-1.0, nz=1, dz=-1.0):
    if ny <= 1:
        return [pad_cells(v, nx, v.r[0], dx)]
    rx = max(v.r[0], v.r[1])
    ry = v.r[1] if v.azi == 0.0 else rx
    out = [pad_cells(v, nx, rx, dx), pad_cells(v, ny, ry, dy)]
    if nz > 1:
        out.append(pad_cells(v, nz, v.r[2], dz))
    return out


def sim_size(v, nx, dx, ny=1, dy=-1.0, nz=1, dz=-1.0):
    n = (nx, ny, nz)
    return [p + n[i] for i, p in enumerate(paddings(v, nx, dx, ny, dy, nz, dz))]


class Plan:
    """What a simulate call does to the stream and to the noise."""
    def __init__(self, v, nx, dx, ny=1, dy=-1.0, nz=1, dz=-1.0,
                 padx=-1, pady=-1, padz=-1, sx=1.0, sy=1.0, sz=1.0):
        if ny <= 1 or dy < 0:
            dim = 1
        elif nz <= 1 or dz < 0:
            dim = 2
        else:
            dim = 3
        n = (nx, ny, nz)[:dim]
        d = (dx, dy, dz)[:dim]
        user = (padx, pady, padz)[:dim]
        sc = (sx, sy, sz)[:dim]
        auto = paddings(v, *([nx, dx] if dim == 1 else [nx, dx, ny, dy] if dim == 2 else [nx, dx, ny, dy, nz, dz]))
        pad = [a if u < 0 else u for a, u in zip(auto, user)]
        tot = [smooth_size(a + b, dim > 1 and i == 0) for i, (a, b) in enumerate(zip(n, pad))]
        self.dim, self.n, self.tot = dim, n, tot
        self.key = (v.kind, v.r, v.azi, v.dip, v.power, n, d, tuple(tot), sc)
        lags = []
        for m, step in zip(tot, d):
            i = np.arange(m)
            half = (m + 1) // 2
            lags.append(np.where(i < half, i, i - m) * step)
        if dim == 1:
            lags[0] = np.abs(lags[0])
        mesh = np.meshgrid(*lags, indexing='ij')
        c = v.corr(*mesh)
        reach = v.axis_reach()
        for i in range(dim):
            if sc[i] < 0.99999:
                c = c * np.power(sc[i], (mesh[i] / reach[i]) ** 2)
        lam = np.fft.fftn(c).real
        self.lmax = float(np.abs(lam).max())
        self.filt = np.sqrt(np.maximum(lam, 0.0))
        # Frequencies whose spectral weight is rounding noise: the field is only
        # determined up to their contribution.
        delta = 4e-15 * self.lmax
        N = lam.size
        self.tol = 1e-8 + 8.0 * math.sqrt(max(delta, 0.0) * max(1, int((np.abs(lam) < 100 * delta).sum())) / N)

    def noise_count(self):
        k = 1
        for t in self.tot:
            k *= t
        return k

    def field(self, noise):
        w = noise.reshape(self.tot)
        z = np.fft.ifftn(np.fft.fftn(w) * self.filt).real
        z = z[tuple(slice(0, k) for k in self.n)]
        return z.ravel(order='F')


class Model:
    """Sequential module state."""
    def __init__(self):
        self.start = None
        self.s = None

    def copy(self):
        m = Model()
        m.start = self.start
        m.s = self.s.copy() if self.s else None
        return m

    def seed(self, v):
        self.start = v
        self.s = Stream(v)

    def auto_seed(self, seconds):
        t = Stream(seconds & 0xffffffff)
        self.seed(t.u32())

    def get_seed(self):
        return self.start            # None = raises

    def advance(self, dim, count):
        """consume the stream as a simulate of this dimension does; return noise"""
        if dim == 3:
            return self.s.norm(count)
        return Stream(self.s.u32()).norm(count)

    def simulate(self, plan, now):
        if self.start is None:
            self.auto_seed(now)
        return plan.field(self.advance(plan.dim, plan.noise_count()))
