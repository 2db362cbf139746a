"""Catalogue of the circular distributions: parameter lattices and independent reference densities.

Every entry gives the *documented* density as log-kernel or kernel, in terms of the angle measured from the location
parameter, so location equivariance is built into the reference.
"""
import math
from functools import lru_cache

import numpy as np

import pycircstat2.distributions as X

TAU = 2 * math.pi


def ang(x):
    return np.mod(x + math.pi, TAU) - math.pi


# ---- kernels k(t, *shape): t in (-pi, pi], unnormalised unless stated -------------

def k_uniform(t):
    return np.zeros_like(t)


def k_triangular(t, rho):
    # location 0; documented density on [0, 2 pi)
    x = np.mod(t, TAU)
    return np.log(np.maximum((4 - math.pi ** 2 * rho + 2 * math.pi * rho * np.abs(math.pi - x)), 1e-300))


def k_cardioid(t, rho):
    return np.log(np.maximum(1 + 2 * rho * np.cos(t), 1e-300))


def k_cartwright(t, zeta):
    with np.errstate(divide="ignore"):
        return 2 * np.log(np.abs(np.cos(t / 2))) / zeta


def k_wrapnorm(t, rho):
    s2 = -2 * math.log(rho)
    s = math.sqrt(s2)
    m = int(math.ceil(8 * s / TAU)) + 1
    return np.log(np.maximum(sum(np.exp(-(t + TAU * j) ** 2 / (2 * s2)) for j in range(-m, m + 1)), 1e-300))


def k_wrapcauchy(t, rho):
    return -np.log((1 - rho) ** 2 + 4 * rho * np.sin(t / 2) ** 2)


def k_vonmises(t, kappa):
    return -2 * kappa * np.sin(t / 2) ** 2


def k_vmft(t, kappa, nu):
    return kappa * np.cos(t + nu * np.sin(t))


def jp_base(c, kappa, psi):
    """log of (cosh(k psi) + sinh(k psi) c)^(1/psi), stably"""
    if abs(psi) < 1e-9:
        return kappa * c
    A = kappa * psi
    # cosh A + c sinh A = e^A (1+c)/2 + e^-A (1-c)/2
    with np.errstate(divide="ignore"):
        l = np.logaddexp(A + np.log(np.maximum((1 + c) / 2, 1e-320)), -A + np.log(np.maximum((1 - c) / 2, 1e-320)))
    return l / psi


def k_jp(t, kappa, psi):
    return jp_base(np.cos(t), kappa, psi)


def k_jpss(t, kappa, psi, lmbd):
    return jp_base(np.cos(t), kappa, psi) + np.log(np.maximum(1 + lmbd * np.sin(t), 1e-300))


def k_jpa(t, kappa, psi, nu):
    return jp_base(np.cos(t + nu * np.cos(t)), kappa, psi)


def _solve(g, dg, y):
    """g increasing on [-pi, pi] with g(+-pi) = +-pi: bisection + Newton polishing, vectorised"""
    lo = np.full_like(y, -math.pi)
    hi = np.full_like(y, math.pi)
    for _ in range(60):
        m = 0.5 * (lo + hi)
        up = g(m) < y
        lo = np.where(up, m, lo)
        hi = np.where(up, hi, m)
    return 0.5 * (lo + hi)


def k_invbat(t, kappa, nu, lmbd):
    t = ang(t)
    u = _solve(lambda y: y - nu * (1 + np.cos(y)), None, t) if nu else t
    if lmbd == -1:
        return kappa * np.cos(u - np.sin(u))
    s = _solve(lambda y: y - 0.5 * (1 + lmbd) * np.sin(y), None, u)
    a, b = (1 - lmbd) / (1 + lmbd), 2 * lmbd / (1 + lmbd)
    return kappa * np.cos(a * u + b * s)


def d_wrapstable(t, alpha, beta, gamma):
    """documented trigonometric moments summed (a density, not a log kernel)"""
    f = np.ones_like(t)
    p = 1
    while True:
        g = (gamma * p) ** alpha
        if g > 45 or p > 20000:
            break
        r = math.exp(-g)
        if abs(alpha - 1) > 1e-10:
            m = beta * math.tan(math.pi * alpha / 2) * (g - gamma * p)
        else:
            m = -2 / math.pi * beta * gamma * p * math.log(gamma * p)
        f = f + 2 * r * np.cos(p * t - m)
        p += 1
    return f / TAU


def d_katojones(t, gamma, rho, lam):
    """1/(2 pi) (1 + 2 gamma (cos t - rho cos lam) / (1 + rho^2 - 2 rho cos(t - lam)))"""
    return (1 + 2 * gamma * (np.cos(t) - rho * math.cos(lam)) / (1 + rho ** 2 - 2 * rho * np.cos(t - lam))) / TAU


class Dist:
    def __init__(self, name, kernel, shapes, loc, quick, thorough=(), direct=False, kinks=None):
        self.name = name
        self.kernel = kernel
        self.shapes = shapes          # all shape names in order
        self.loc = loc                # name of location parameter or None
        self.quick = quick            # tuples of the non-location parameters
        self.thorough = tuple(quick) + tuple(thorough)
        self.direct = direct
        self.kinks = kinks

    @property
    def obj(self):
        return getattr(X, self.name)

    @property
    def cls(self):
        return type(self.obj)

    def args(self, mu, par):
        return ((mu,) if self.loc else ()) + tuple(par)

    def fresh(self):
        return self.cls(name=self.name)

    # -- reference ------------------------------------------------------
    def table(self, par):
        return _table(self.name, tuple(par))

    def pdf(self, x, mu, par):
        t = ang(np.asarray(x, dtype=float) - mu)
        if self.direct:
            return np.maximum(self.kernel(t, *par), 0.0)
        return np.exp(self.kernel(t, *par) - self.table(par)[0])

    def cdf(self, x, mu, par):
        """integral of the reference density over [0, x], 0 <= x <= 2 pi"""
        _, spl = self.table(par)
        x = np.asarray(x, dtype=float)
        # antiderivative G on [-pi, pi], G(-pi)=0, G(pi)=1, extended by G(t + 2 pi) = G(t) + 1
        def G(t):
            k = np.floor((t + math.pi) / TAU)
            return spl(t - k * TAU) + k
        return G(x - mu) - G(0.0 - mu)

    def moment(self, p, mu, par):
        t, w, f = _quad(self.name, tuple(par))
        z = complex(math.fsum(w * f * np.cos(p * t)), math.fsum(w * f * np.sin(p * t)))
        return z * complex(math.cos(p * mu), math.sin(p * mu))

    def entropy(self, par):
        t, w, f = _quad(self.name, tuple(par))
        return -math.fsum(w * f * np.log(np.maximum(f, 1e-300)))

    def width(self, par):
        """rough scale of the narrowest feature"""
        t, w, f = _quad(self.name, tuple(par))
        return 1.0 / max(f.max(), 0.16)


GL = np.polynomial.legendre.leggauss(16)


@lru_cache(maxsize=None)
def _nodes(name, par):
    """composite Gauss-Legendre nodes on [-pi, pi], refined around the mode"""
    D = BY[name]
    edges = np.linspace(-math.pi, math.pi, 257)
    f = D.kernel(np.linspace(-math.pi, math.pi, 20001), *par)
    g = f if D.direct else np.exp(f - f.max())
    c = np.linspace(-math.pi, math.pi, 20001)[int(np.argmax(g))]
    lad = np.concatenate([s * np.geomspace(1e-5, 2, 120) for s in (-1, 1)])
    fine = np.concatenate([s * np.geomspace(1e-13, 1, 160) for s in (-1, 1)])
    edges = np.unique(np.concatenate([edges, ang(c + lad), [0.0, math.pi / 2, -math.pi / 2], [ang(c)]]
                                     + [np.append(ang(k + fine), ang(k)) for k in (D.kinks(*par) if D.kinks else ())]))
    edges = edges[(edges >= -math.pi) & (edges <= math.pi)]
    return edges


@lru_cache(maxsize=None)
def _raw(name, par):
    D = BY[name]
    e = _nodes(name, par)
    h = np.diff(e)
    keep = h > 0
    a, h = e[:-1][keep], h[keep]
    t = (a[:, None] + 0.5 * h[:, None] * (1 + GL[0])).ravel()
    w = (0.5 * h[:, None] * GL[1]).ravel()
    k = D.kernel(t, *par)
    return a, h, t, w, k


@lru_cache(maxsize=None)
def _quad(name, par):
    D = BY[name]
    a, h, t, w, k = _raw(name, par)
    if D.direct:
        return t, w, np.maximum(k, 0)
    m = k.max()
    Z = math.fsum(w * np.exp(k - m))
    return t, w, np.exp(k - m) / Z


@lru_cache(maxsize=None)
def _table(name, par):
    from scipy.interpolate import CubicHermiteSpline
    D = BY[name]
    a, h, t, w, k = _raw(name, par)
    _, _, f = _quad(name, par)
    logZ = 0.0
    if not D.direct:
        m = k.max()
        logZ = m + math.log(math.fsum(w * np.exp(k - m)))
    # cumulative on a refined grid (panel ends + 8 subdivisions with exact sub-integration)
    sub = 8
    xs = (a[:, None] + h[:, None] * np.arange(sub) / sub).ravel()
    xs = np.append(xs, math.pi)
    hh = np.diff(xs)
    tt = xs[:-1, None] + 0.5 * hh[:, None] * (1 + GL[0][None, :])
    kk = D.kernel(tt.ravel(), *par)
    ff = (np.maximum(kk, 0) if D.direct else np.exp(kk - logZ)).reshape(tt.shape)
    inc = (0.5 * hh[:, None] * GL[1][None, :] * ff).sum(1)
    G = np.concatenate([[0.0], np.cumsum(inc)])
    kx = D.kernel(xs, *par)
    fx = np.maximum(kx, 0) if D.direct else np.exp(kx - logZ)
    return logZ, CubicHermiteSpline(xs, G, fx)


import itertools as _it


def grid(*axes):
    return tuple(_it.product(*axes))


PI2 = 4 / math.pi ** 2
_jp = ((0.0,), (0.0005,))
DISTS = [
    Dist("circularuniform", k_uniform, (), None, ((),)),
    Dist("triangular", k_triangular, ("rho",), None, ((0.0,), (1e-13,), (3e-12,), (1e-9,), (1e-6,), (0.05,), (0.2,), (0.4,), (PI2,))),
    Dist("cardioid", k_cardioid, ("mu", "rho"), "mu", ((0.0,), (1e-9,), (0.1,), (0.25,), (0.3,), (0.45,), (0.5,))),
    Dist("cartwright", k_cartwright, ("mu", "zeta"), "mu", ((1e-5,), (0.004,), (0.02,), (0.05,), (0.1,), (0.5,), (1.0,), (2.0,), (10.0,), (100.0,)), ((0.012,), (0.3,), (1.5,), (3.0,), (1000.0,)), kinks=lambda zeta: (math.pi,)),
    Dist("wrapnorm", k_wrapnorm, ("mu", "rho"), "mu", ((0.01,), (0.2,), (0.5,), (0.8,), (0.95,), (0.99,)), ((1e-4,), (0.35,), (0.7,), (0.9,), (0.98,))),
    Dist("wrapcauchy", k_wrapcauchy, ("mu", "rho"), "mu", ((0.0,), (1e-8,), (0.01,), (0.3,), (0.5,), (0.9,), (0.99,), (0.99999,)), ((0.1,), (0.7,), (0.999,), (1 - 1e-9,))),
    Dist("vonmises", k_vonmises, ("mu", "kappa"), "mu", ((1e-6,), (0.01,), (0.5,), (1.0,), (5.0,), (12.0,), (50.0,), (200.0,), (500.0,), (1000.0,)), ((0.1,), (2.0,), (9.9,), (10.1,), (30.0,), (100.0,), (700.0,), (5000.0,))),
    Dist("vonmises_flattopped", k_vmft, ("mu", "kappa", "nu"), "mu", grid((0.0, 0.2, 1.0, 4.0, 20.0, 100.0), (-1.0, -0.5, 0.0, 0.4, 1.0)) + ((400.0, 0.3),), grid((0.01, 2.0, 10.0, 50.0, 400.0), (-0.9, -0.2, 0.01, 0.7, 0.99))),
    Dist("jonespewsey", k_jp, ("mu", "kappa", "psi"), "mu", grid((0.0, 0.1, 0.5, 2.0, 4.0), (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0)) + ((20.0, 0.0), (40.0, 0.2), (30.0, -0.2), (0.95, -1.9), (1.1, -1.75), (0.95, 1.9), (2.0, 0.95), (2.0, -0.9), (2.75, 0.7), (3.1, -0.6)), grid((0.01, 1.0, 3.0), (-1.5, -0.75, -0.1, 1e-3, 0.1, 1.5, 2.5)) + ((100.0, 0.0), (60.0, 0.1))),
    Dist("jonespewsey_sineskewed", k_jpss, ("xi", "kappa", "psi", "lmbd"), "xi", grid((0.0, 0.5, 2.0, 8.0), (-1.0, 0.0, 1.0), (-1.0, -0.4, 0.0, 0.7, 1.0)), grid((0.1, 4.0), (-0.5, 0.3, 2.0), (-0.9, 0.3, 1.0))),
    Dist("jonespewsey_asym", k_jpa, ("xi", "kappa", "psi", "nu"), "xi", grid((0.0, 0.5, 2.0, 8.0), (-1.0, 0.0, 1.0), (0.0, 0.3, 0.75, 0.99)), grid((0.1, 4.0), (-0.5, 0.3, 2.0), (0.1, 0.5, 0.9))),
    Dist("inverse_batschelet", k_invbat, ("xi", "kappa", "nu", "lmbd"), "xi", grid((0.0, 0.5, 2.0, 10.0), (-1.0, 0.0, 0.6), (-1.0, -0.5, 0.0, 0.7, 1.0)) + ((400.0, 0.3, -0.4),), grid((0.1, 5.0, 40.0), (-0.5, 0.2, 1.0), (-0.9, 0.3, 1.0)), kinks=lambda k, nu, l: ((-math.pi / 2 * nu - nu,) if abs(nu) == 1 else ()) + (math.pi, 0.0)),
    Dist("wrapstable", d_wrapstable, ("delta", "alpha", "beta", "gamma"), "delta", grid((0.5,), (-0.7, 0.0, 0.5), (2.0,)) + grid((0.8, 1.0, 1.5, 2.0), (-0.7, 0.0, 0.5), (0.25, 0.5, 2.0)), ((0.5, 0.3, 0.5),) + grid((0.7, 1.2, 1.8), (-0.95, 0.3, 0.95), (0.1, 0.2, 1.0)), direct=True),
    Dist("katojones", d_katojones, ("mu", "gamma", "rho", "lam"), "mu",
         ((0.0, 0.0, 0.0), (0.0, 0.5, 1.0), (0.3, 0.0, 0.0), (0.3, 0.3, 0.0), (0.5, 0.0, 0.0), (0.4, 0.3, 1.0), (0.4, 0.5, 5.5), (0.2, 0.6, 3.0), (0.7, 0.7, 0.0), (0.7, 0.45, 0.2), (0.1, 0.8, 2.0), (0.5, 0.02, 1.0), (0.3, 1e-8, 0.0), (0.3, 1e-13, 0.0), (0.95, 0.95, 0.0)),
         ((0.15, 0.7, 4.0), (0.25, 0.25, 6.0), (0.6, 0.3, 0.5), (0.35, 0.65, 0.4), (0.99, 0.99, 0.0)), direct=True),
]
BY = {d.name: d for d in DISTS}
# the formulas of the stable laws have a removable singularity at alpha = 1
NEAR_ONE = tuple((1 + e, b, g) for e, b, g in ((-0.02, 0.5, 0.5), (0.015, 0.6, 0.5), (0.005, -0.7, 1.0), (-1e-3, -0.7, 0.25), (1e-4, 0.5, 1.0), (-1e-6, 0.5, 0.5)))
MUS = (0.0, 0.7, math.pi, 5.5, TAU)
SLOW = {"inverse_batschelet", "wrapstable"}


def smooth(name, par):
    """densities resolved by the documented fixed grids (4096 angles, 256 harmonics) of the numerical families"""
    if name == "inverse_batschelet" and par[2] > 0.9 and par[0] > 10:
        return False          # cusp narrower than the 512 cells of the table
    return not (name.startswith("jonespewsey") and par[1] < 0 and -par[0] * par[1] > 4)


def states(tier, mus=None, names=None, only=None):
    """(name, mu, parameters)"""
    for d in DISTS:
        if names and d.name not in names:
            continue
        for par in (d.quick if tier == "quick" else d.thorough):
            if only and not only(d.name, par):
                continue
            for mu in ((MUS if mus is None else mus) if d.loc else (0.0,)):
                if tier == "quick" and d.name in SLOW and mus is None and mu not in (0.7, math.pi, 5.5):
                    continue
                if d.name == "katojones" and mu >= TAU:
                    continue
                yield (d.name, mu, tuple(par))
