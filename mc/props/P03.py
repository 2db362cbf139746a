"""Quantile functions invert the distribution functions."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.limits import NOTE, Limits as LimitsBase, tol as near
from mc.props.P02 import tol

TAU = 2 * math.pi
Q = np.array([0.0, 1e-6, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.75, 0.8, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6, 1.0])


class Ppf(Space):
    name = "ppf"
    chunk = 4
    max_depth = 0
    bounds = "14 distributions x parameter lattice x 5 locations x 21 probabilities, against quadrature of the documented density"

    def roots(self, tier):
        yield from M.states(tier, only=M.smooth)
        for par in M.NEAR_ONE:
            yield ("wrapstable", 5.5, par)

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.obj
        a = D.args(mu, par)
        q = Q
        x = np.asarray(d.ppf(q, *a), dtype=float)
        f = []
        if x.shape != q.shape or not np.all(np.isfinite(x)):
            return "bad", [f"ppf is {x[:5]}..."]
        if np.any(x < 0) or np.any(x > TAU):
            f.append(f"ppf leaves [0, 2 pi]: {x.min()}, {x.max()}")
        if np.any(np.diff(x) < -1e-9):
            j = int(np.argmin(np.diff(x)))
            f.append(f"ppf not monotone: ppf({q[j]})={x[j]}, ppf({q[j + 1]})={x[j + 1]}")
        back = D.cdf(x, mu, par)
        e = np.abs(back - q)
        j = int(np.argmax(e))
        T = tol(name, par) * 1.5
        if e[j] > T:
            f.append(f"cdf(ppf({q[j]:.7g})) = cdf({x[j]:.10g}) = {back[j]:.10g}")
        own = np.asarray(d.cdf(x, *a), dtype=float)
        e = np.abs(own - q)
        j = int(np.argmax(e))
        if e[j] > 1e-6:
            f.append(f"own cdf(ppf({q[j]:.7g})) = cdf({x[j]:.10g}) = {own[j]:.10g}")
        isf = np.asarray(d.isf(q, *a), dtype=float)
        p = np.asarray(d.ppf(1 - q, *a), dtype=float)
        if not np.allclose(D.cdf(isf, mu, par), 1 - q, atol=T, rtol=0) or not np.all((isf >= 0) & (isf <= TAU)):
            j = int(np.argmax(np.abs(D.cdf(isf, mu, par) - (1 - q))))
            f.append(f"isf({q[j]:.7g})={isf[j]} is not the upper quantile")
        for k in (0, 4, 10, 17, 20):
            v = float(d.ppf(float(q[k]), *a))
            if not abs(v - x[k]) < 1e-6 and not abs(float(D.cdf(v, mu, par)) - q[k]) < T:
                f.append(f"ppf of the scalar {q[k]} is {v}, in an array {x[k]}")
        for b in (-0.1, 1.1, float("nan")):
            v = float(np.asarray(d.ppf(b, *a)))
            if not math.isnan(v):
                f.append(f"ppf({b})={v}")
        return (name, tuple(np.round(x[[3, 10]], 5).tolist())), f


class Limits(LimitsBase):
    bounds = NOTE + ": the integral of the documented density up to each of 15 quantiles is its probability"

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        q = np.concatenate([[1e-4], np.linspace(0.02, 0.98, 13), [1 - 1e-4]])
        t = np.asarray(D.obj.ppf(q, *D.args(mu, par)), dtype=float)
        e = np.abs(D.cdf(t, mu, par) - q)
        j = int(np.argmax(e))
        return (name, par), [] if e[j] <= near(name, "ppf") else [f"ppf({q[j]})={t[j]:.12g}, the mass up to there is {q[j] + e[j]:.12g}"]


def spaces(tier):
    return [Ppf(), Limits()]
