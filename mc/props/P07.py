"""The law of the random variates: the generator is replaced by one that enumerates a grid of its sample space."""
import math

import numpy as np
import scipy.stats as st

from mc import dist as M
from mc.engine import Space

TAU = 2 * math.pi


class Spent(Exception):
    pass


class GridRNG(np.random.Generator):
    """every elementary draw consumes one coordinate u in (0, 1) of the current grid point and returns the quantile"""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self):
        super().__init__(np.random.PCG64(0))
        self.point = ()
        self.pos = 0

    def start(self, point):
        self.point = point
        self.pos = 0

    def _u(self):
        if self.pos >= len(self.point):
            raise Spent()
        u = self.point[self.pos]
        self.pos += 1
        return u

    def _draw(self, quantile, size, junk):
        if size is None:
            return float(quantile(self._u()))
        shape = (int(size),) if np.isscalar(size) else tuple(int(v) for v in size)
        n = int(np.prod(shape, dtype=int))
        if n == 0:
            return np.empty(shape)
        out = np.full(n, quantile(junk) if n > 1 else 0.0, dtype=float)     # a batch: only its first element is explored
        out[0] = quantile(self._u())
        return out.reshape(shape)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._draw(lambda u: u, size, 1.0 - 1e-16)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and np.ndim(low) + np.ndim(high):
            raise Spent()
        return self._draw(lambda u: low + (high - low) * u, size, 1.0 - 1e-16)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(lambda u: loc + scale * st.norm.ppf(u), size, 0.937)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0.0, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        return self._draw(lambda u: -scale * math.log1p(-u), size, 0.937)

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        return self.exponential(1.0, size)

    def beta(self, a, b, size=None):
        return self._draw(lambda u: st.beta.ppf(u, a, b), size, 0.937)

    def gamma(self, shape, scale=1.0, size=None):
        return self._draw(lambda u: scale * st.gamma.ppf(u, shape), size, 0.937)

    def standard_cauchy(self, size=None):
        return self._draw(lambda u: math.tan(math.pi * (u - 0.5)), size, 0.937)

    def vonmises(self, mu, kappa, size=None):
        return self._draw(lambda u: mu + vm_quantile(float(kappa), u), size, 0.937)

    def integers(self, *a, **k):
        raise Spent()

    choice = permutation = shuffle = laplace = logistic = integers


_vq = {}


def vm_quantile(kappa, u):
    key = (kappa, u)
    if key not in _vq:
        _vq[key] = float(st.vonmises.ppf(u, kappa)) if kappa > 1e-8 else TAU * (u - 0.5)
    return _vq[key]


GRID = {1: 1500, 2: 2600, 3: 5000, 4: 6000, 5: 6000}
# number of elementary draws per variate when the first proposal is accepted (more is tried when nothing comes out)
DRAWS = {"cartwright": 2, "vonmises": 3, "vonmises_flattopped": 2, "jonespewsey": 4, "jonespewsey_sineskewed": 5, "jonespewsey_asym": 4,
         "inverse_batschelet": 2, "wrapstable": 2}
TOL = {1: 2e-3, 2: 0.015, 3: 0.015, 4: 0.03, 5: 0.035}
STATES = [
    ("circularuniform", ()), ("triangular", (0.0,)), ("triangular", (0.2,)), ("triangular", (0.4,)), ("cardioid", (0.0,)), ("cardioid", (0.3,)), ("cardioid", (0.5,)),
    ("cartwright", (0.1,)), ("cartwright", (1.0,)), ("cartwright", (10.0,)), ("wrapnorm", (0.05,)), ("wrapnorm", (0.5,)), ("wrapnorm", (0.95,)),
    ("wrapcauchy", (0.0,)), ("wrapcauchy", (0.3,)), ("wrapcauchy", (0.9,)), ("vonmises", (0.3,)), ("vonmises", (2.0,)), ("vonmises", (30.0,)),
    ("vonmises_flattopped", (1.0, 0.5)), ("vonmises_flattopped", (2.0, -0.8)), ("vonmises_flattopped", (8.0, 1.0)), ("vonmises_flattopped", (0.0, 0.5)),
    ("inverse_batschelet", (1.0, 0.6, -0.5)), ("inverse_batschelet", (3.0, -0.9, 0.6)), ("inverse_batschelet", (2.0, 0.0, 0.9)), ("inverse_batschelet", (5.0, 0.4, -1.0)),
    ("wrapstable", (2.0, 0.0, 0.7)), ("wrapstable", (1.0, 0.0, 0.5)), ("wrapstable", (1.5, 0.6, 0.7)), ("wrapstable", (0.7, -0.5, 0.5)), ("wrapstable", (1.0, 0.5, 0.8)),
    ("katojones", (0.4, 0.3, 1.0)), ("katojones", (0.7, 0.7, 0.0)), ("katojones", (0.3, 0.0, 0.0)),
    ("jonespewsey", (1.0, 1.0)), ("jonespewsey", (2.0, -0.7)), ("jonespewsey", (2.0, 0.0)), ("jonespewsey", (0.0, 0.5)),
    ("jonespewsey_asym", (1.0, 0.5, 0.5)), ("jonespewsey_asym", (2.0, 0.0, 0.8)), ("jonespewsey_sineskewed", (1.0, 0.5, 0.7)), ("jonespewsey_sineskewed", (1.0, -0.5, -1.0)),
]


def lattice(dim, n):
    """the n points of a rank-1 lattice in (0, 1)^dim (a midpoint grid for dim 1)"""
    if dim == 1:
        return [((i + 0.5) / n,) for i in range(n)]
    g = 2.0
    for _ in range(60):
        g = (1 + g) ** (1 / (dim + 1))
    return [tuple(((i + 0.5) * g ** -j + 0.5) % 1.0 for j in range(1, dim + 1)) for i in range(n)]


class Law(Space):
    """the grid of elementary uniforms is enumerated point by point; the accepted variates have the documented law"""
    name = "law"
    chunk = 1
    max_depth = 0
    bounds = "14 samplers x 43 parameter vectors x 2 locations: every point of a lattice (1500 to 6000 points) in the space (0, 1)^d of the elementary draws of one variate"

    def roots(self, tier):
        for k, (n, p) in enumerate(STATES):
            for mu in ((0.7,) if tier == "quick" and k % 2 else (5.2,)) if tier == "quick" else (0.7, 5.2):
                yield (n, mu, p)

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.fresh()
        a = D.args(mu, par)
        mu = mu if D.loc else 0.0
        rng = GridRNG()
        for dim in range(DRAWS.get(name, 1), 6):
            pts = lattice(dim, GRID[dim])
            out = []
            spent = 0
            for point in pts:
                rng.start(point)
                try:
                    v = d.rvs(*a, size=None, random_state=rng)
                except Spent:
                    spent += 1
                    continue
                out.append(float(v))
            if out:
                break
        if len(out) < 0.01 * len(pts):
            return "undecided", []
        x = np.array(out)
        f = []
        worst = 0.0
        for p in (1, 2, 3):
            z = np.exp(1j * p * x).mean()
            w = D.moment(p, mu, par)
            worst = max(worst, abs(z - w))
            if abs(z - w) > TOL[dim] * (1 + 0.3 * p):
                f.append(f"trigonometric moment {p} over {len(x)} of {len(pts)} grid points is {z}, of the documented law {w}")
        return (name, par, dim, len(x)), f


def spaces(tier):
    return [Law()]
