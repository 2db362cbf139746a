"""Families that contain one another coincide on the common members; location only turns a distribution."""
import itertools
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.limits import SPECIAL as LIM
from mc.props.P02 import tol

TAU = 2 * math.pi
KS = (0.05, 0.5, 1.0, 2.5, 8.0)
RHOS = (0.05, 0.2, 0.35, 0.48)


def a1(k):
    from scipy.special import ive
    return float(ive(1, k) / ive(0, k))


def pairs(mu):
    """(distribution, arguments) that are documented to be the same law"""
    m = (mu,)
    for k in KS:
        vm = ("vonmises", m + (k,))
        yield vm, ("vonmises_flattopped", m + (k, 0.0))
        yield vm, ("jonespewsey", m + (k, 0.0))
        yield vm, ("jonespewsey_sineskewed", m + (k, 0.0, 0.0))
        yield vm, ("jonespewsey_asym", m + (k, 0.0, 0.0))
        yield vm, ("inverse_batschelet", m + (k, 0.0, 0.0))
        for psi in (-0.4, 0.3, 1.0):
            jp = ("jonespewsey", m + (k, psi))
            if k <= 2.5:
                yield jp, ("jonespewsey_sineskewed", m + (k, psi, 0.0))
                yield jp, ("jonespewsey_asym", m + (k, psi, 0.0))
        if k <= 2.5:
            # psi = 1: cardioid with 2 rho = tanh kappa; psi = -1: wrapped Cauchy with rho = tanh(kappa / 2)
            yield ("jonespewsey", m + (k, 1.0)), ("cardioid", m + (math.tanh(k) / 2,))
            yield ("jonespewsey", m + (k, -1.0)), ("wrapcauchy", m + (math.tanh(k / 2),))
            # psi > 0: Cartwright's power of a cosine in the limit; psi = 1 as a power: (1 + cos)^1
    yield ("jonespewsey", m + (40.0, 1.0)), ("cartwright", m + (1.0,))
    yield ("jonespewsey", m + (40.0, 0.5)), ("cartwright", m + (0.5,))
    yield ("cardioid", m + (0.5,)), ("cartwright", m + (1.0,))
    for r in RHOS:
        yield ("cardioid", m + (r,)), ("katojones", m + (r, 0.0, 0.0))
        yield ("wrapcauchy", m + (r,)), ("katojones", m + (r, r, 0.0))
        yield ("wrapcauchy", m + (r,)), ("wrapstable", m + (1.0, 0.0, -math.log(r)))
        yield ("wrapnorm", m + (r,)), ("wrapstable", m + (2.0, 0.0, math.sqrt(-math.log(r))))
    yield ("wrapnorm", m + (0.9,)), ("wrapstable", m + (2.0, 0.4, math.sqrt(-math.log(0.9))))
    for b, g in ((0.5, 0.8), (-0.7, 0.4), (0.9, 1.5)):
        for e in (1e-6, -1e-6):
            yield ("wrapstable", m + (1.0, b, g)), ("wrapstable", m + (1.0 + e, b, g))
    uni = ("circularuniform", ())
    for o in (("triangular", (0.0,)), ("cardioid", m + (0.0,)), ("wrapcauchy", m + (0.0,)), ("vonmises", m + (1e-12,)),
              ("vonmises_flattopped", m + (0.0, 0.4)), ("jonespewsey", m + (0.0, 0.7)), ("jonespewsey_asym", m + (0.0, 0.7, 0.2)),
              ("inverse_batschelet", m + (0.0, 0.3, 0.3)), ("katojones", m + (0.0, 0.5, 1.0))):
        yield uni, o
    # signs: reflections written as parameters
    for k, nu in ((1.0, 0.4), (4.0, 0.9)):
        yield ("inverse_batschelet", m + (k, 0.0, 0.0)), ("vonmises_flattopped", m + (k, 0.0))


def call(spec, fn, *x):
    return np.asarray(getattr(M.BY[spec[0]].obj, fn)(*x, *spec[1]), dtype=float)


class Nested(Space):
    name = "nested"
    chunk = 4
    max_depth = 0
    bounds = "94 pairs of parametrisations of one law x 2 (thorough: 8) locations: pdf, cdf, ppf, trigonometric moments, mean, variance, entropy"

    def roots(self, tier):
        for mu in ((0.7, 5.5) if tier == "quick" else (0.0, 0.1, 0.7, 2.2, math.pi, 4.0, 5.5, 6.2)):
            for i, _ in enumerate(pairs(mu)):
                yield (mu, i)

    def check(self, s):
        mu, i = s
        A, B = list(pairs(mu))[i]
        t = 1e-5 if A[0] == B[0] else max(tol(A[0], A[1][1:]), tol(B[0], B[1][1:])) if A[1] else 1e-6
        f = []
        x = np.concatenate([np.linspace(0, TAU, 25), np.mod(mu + np.array([0.0, 0.01, -0.01, math.pi - 0.01]), TAU)])
        a, b = call(A, "pdf", x), call(B, "pdf", x)
        tp = 1e-5 if 40.0 in A[1] or A[0] == B[0] else 1e-8
        if not np.allclose(a, b, rtol=tp, atol=tp):
            j = int(np.argmax(np.abs(a - b)))
            f.append(f"{A} and {B}: pdf({x[j]:.5g}) {a[j]} != {b[j]}")
        a, b = call(A, "cdf", x), call(B, "cdf", x)
        if not np.allclose(a, b, rtol=0, atol=2 * t):
            j = int(np.argmax(np.abs(a - b)))
            f.append(f"{A} and {B}: cdf({x[j]:.5g}) {a[j]} != {b[j]}")
        q = np.array([0.02, 0.1, 0.3, 0.5, 0.8, 0.97])
        a, b = call(A, "ppf", q), call(B, "ppf", q)
        if not np.allclose(call(A, "cdf", b), q, rtol=0, atol=3 * t) or not np.allclose(call(B, "cdf", a), q, rtol=0, atol=3 * t):
            f.append(f"{A} and {B}: ppf {a.tolist()} != {b.tolist()}")
        for p in (1, 2):
            u = complex(M.BY[A[0]].obj.trig_moment(p, *A[1]))
            v = complex(M.BY[B[0]].obj.trig_moment(p, *B[1]))
            if abs(u - v) > 1e-5:
                f.append(f"{A} and {B}: trigonometric moment {p}: {u} != {v}")
        return (A[0], B[0], i), f


class Turned(Space):
    """rotating the location by any angle rotates density, distribution function and quantiles"""
    name = "location"
    chunk = 8
    max_depth = 0
    bounds = "13 located families x parameter lattice x every pair of neighbouring locations on a 6-point grid"

    def roots(self, tier):
        for d in M.DISTS:
            if not d.loc:
                continue
            pars = d.quick[1::3] if tier == "quick" else d.quick
            if d.name in M.SLOW:
                pars = pars[::3]
            for par in pars:
                if not M.smooth(d.name, par):
                    continue
                yield (d.name, par, 0)

    def actions(self, s):
        name, par, k = s
        if k < 5:
            yield "turn", (name, par, k + 1)

    max_depth = 5

    def check(self, s):
        name, par, k = s
        d = M.BY[name].obj
        mu = k * TAU / 6 + 0.1
        x = np.array([0.0, 0.4, 1.9, 3.3, 5.1])
        p = np.asarray(d.pdf(np.mod(mu + x, TAU), mu, *par))
        return (name, tuple(np.round(p, 6).tolist())), []

    def check_edge(self, s, label, s2):
        name, par, k = s
        d = M.BY[name].obj
        f = []
        ms = [j * TAU / 6 + 0.1 for j in (k, s2[2])]
        x = np.array([0.0, 0.4, 1.9, 3.3, 5.1])
        u, v = (np.asarray(d.pdf(m + x, m, *par)) for m in ms)
        if not np.allclose(u, v, rtol=1e-7, atol=1e-9):
            f.append(f"pdf around {ms[0]:.4g}: {u.tolist()}, around {ms[1]:.4g}: {v.tolist()}")
        # mass of the arc [mu + 0.4, mu + 1.9] (mod 2 pi)
        mass = []
        for m in ms:
            c = np.asarray(d.cdf(np.mod(m + x, TAU), m, *par))
            dc = np.diff(c)
            mass.append(dc - np.floor(dc + 1e-12) if False else np.where(np.diff(np.mod(m + x, TAU)) < 0, dc + 1, dc))
        if not np.allclose(mass[0], mass[1], rtol=0, atol=4 * tol(name, par)):
            f.append(f"mass of arcs after mu={ms[0]:.4g}: {mass[0].tolist()}, mu={ms[1]:.4g}: {mass[1].tolist()}")
        z = [complex(d.trig_moment(1, m, *par)) * complex(math.cos(m), -math.sin(m)) for m in ms]
        if abs(z[0] - z[1]) > 1e-6:
            f.append(f"first moment about the location: {z[0]} != {z[1]}")
        return f


SPECIAL = LIM + tuple((n, (m,) + a, 0) for m in (0.0, math.pi) for n, a in (("cardioid", (0.3,)), ("cartwright", (1.5,)), ("wrapnorm", (0.6,)), ("wrapcauchy", (0.6,)), ("vonmises", (2.0,)),
                                                                 ("katojones", (0.4, 0.2, 1.0)), ("wrapstable", (1.4, 0.3, 0.6)), ("vonmises_flattopped", (2.0, 0.4))))


class Near(Space):
    name = "near"
    chunk = 1
    max_depth = 0
    bounds = "42 special parameter vectors (limits of families, branch points of formulas, location at 0 and pi) x steps of 1e-3 .. 1e-13 to either side: density, distribution function and quantiles change no more than in proportion to the step"
    STEPS = (1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 3e-12, 1e-12, 3e-13, 1e-13, 1e-15)

    def roots(self, tier):
        for c in SPECIAL:
            for fn in ("pdf", "cdf", "ppf"):
                if fn == "ppf" and c[0] in M.SLOW and tier == "quick" and c[2] != len(c[1]) - 1:
                    continue
                yield c + (fn,)

    def check(self, s):
        name, base, i, fn = s
        d = M.BY[name].obj
        x = np.linspace(0.05, 6.2, 23) if fn != "ppf" else np.array([.01, .2, .37, .5 if i else .61, .73, .99])
        ref = np.asarray(getattr(d, fn)(x, *base))
        f = []
        for e in self.STEPS:
            for sg in (1, -1):
                b = base[:i] + ((base[i] + sg * e) % TAU if i == 0 and M.BY[name].loc else base[i] + sg * e,) + base[i + 1:]
                if sg < 0 and not np.all(d._argcheck(*b)):
                    continue
                v = np.asarray(getattr(d, fn)(x, *b))
                g = np.abs(v - ref)
                if fn == "ppf":
                    g = np.minimum(g, TAU - g)
                if not np.all(g <= 300 * e + (2e-7 if name not in M.SLOW else 1e-6)):
                    f.append(f"{fn}{b} differs by {g.max():.3g} from {fn}{base}")
        return (name, base, i, fn), f


def spaces(tier):
    return [Nested(), Turned(), Near()]
