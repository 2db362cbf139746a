"""Distribution functions: cdf is the integral of the density from 0; sf, logcdf, logsf are its transforms."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.limits import NOTE, Limits as LimitsBase, tol as near
from mc.props.P01 import points

TAU = 2 * math.pi


def tol(name, par):
    """resolution of the tables the numerical families interpolate (512-cell trapezoid rule, 256 harmonics)"""
    if name == "vonmises_flattopped":
        return 1e-3 if par[0] <= 20 else 4e-3
    if name == "inverse_batschelet":
        return 1e-3 if par[0] <= 2 else 3e-2
    if name.startswith("jonespewsey"):
        return 5e-5
    return 1e-6


class Cdf(Space):
    name = "cdf"
    chunk = 8
    max_depth = 0
    bounds = "14 distributions x parameter lattice x 5 locations x 34 angles on [0, 2 pi] + full turns, against quadrature of the documented density"

    def roots(self, tier):
        yield from M.states(tier, only=M.smooth)
        for par in M.NEAR_ONE:
            yield ("wrapstable", 5.5, par)

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.obj
        a = D.args(mu, par)
        x = np.unique(points(mu))
        want = D.cdf(x, mu, par)
        got = np.asarray(d.cdf(x, *a), dtype=float)
        f = []
        if got.shape != x.shape or not np.all(np.isfinite(got)):
            return "bad", [f"cdf is {got[:5]}..."]
        e = np.abs(got - want)
        j = int(np.argmax(e))
        if e[j] > tol(name, par):
            f.append(f"cdf({x[j]:.8g})={got[j]:.10g} expected {want[j]:.10g}")
        if x[0] == 0 and abs(got[0]) > 1e-9:
            f.append(f"cdf(0)={got[0]}")
        if x[-1] == TAU and abs(got[-1] - 1) > 1e-9:
            f.append(f"cdf(2 pi)={got[-1]}")
        if np.any(np.diff(got) < -1e-9) or np.any(got < 0) or np.any(got > 1):
            j = int(np.argmin(np.diff(got)))
            f.append(f"cdf not monotone in [0, 1]: cdf({x[j]:.6g})={got[j]}, cdf({x[j + 1]:.6g})={got[j + 1]}")
        inner = (x > 1e-9) & (x < TAU - 1e-9)
        g = np.asarray(d.cdf(x[inner] + TAU, *a), dtype=float)
        if not np.all(np.abs(g - got[inner]) < 1e-8 * (1 + 1 / D.width(par))):
            f.append("cdf does not wrap its argument by full turns")
        sf = np.asarray(d.sf(x, *a), dtype=float)
        if not np.all(np.abs(sf - (1 - got)) < 1e-9):
            j = int(np.argmax(np.abs(sf - 1 + got)))
            f.append(f"sf({x[j]:.6g})={sf[j]} but cdf={got[j]}")
        with np.errstate(divide="ignore", invalid="ignore"):
            for nm, ref, val in (("logcdf", np.log(got), d.logcdf(x, *a)), ("logsf", np.log(sf), d.logsf(x, *a))):
                val = np.asarray(val, dtype=float)
                base = np.exp(ref)
                ok = (base > 1e-6)
                if not np.all(np.abs(np.exp(val) - base)[ok] < 1e-9):
                    j = int(np.argmax(np.where(ok, np.abs(np.exp(val) - base), 0)))
                    f.append(f"{nm}({x[j]:.6g})={val[j]} expected {ref[j]}")
        for k in (0, 5, len(x) // 2, len(x) - 1):
            v = float(d.cdf(float(x[k]), *a))
            if not abs(v - got[k]) < 1e-9:
                f.append(f"cdf of the scalar {x[k]:.6g} is {v}, in an array {got[k]}")
        return (name, tuple(np.round(got[[3, 10]], 5).tolist())), f


class Limits(LimitsBase):
    bounds = NOTE + ": distribution function against the integral of the documented density at 40 angles"

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        x = np.linspace(0, TAU, 40)
        want = D.cdf(x, mu, par)
        got = np.asarray(D.obj.cdf(x, *D.args(mu, par)), dtype=float)
        e = np.abs(got - want)
        j = int(np.argmax(e))
        return (name, par), [] if e[j] <= near(name, "cdf") else [f"cdf({x[j]:.8g})={got[j]:.12g} expected {want[j]:.12g}"]


def spaces(tier):
    return [Cdf(), Limits()]
