"""Moments and summary statistics of the distributions."""
import cmath
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.limits import NOTE, Limits as LimitsBase, tol as near
from mc.props.P02 import tol

TAU = 2 * math.pi
FN = ("mean", "median", "r", "var", "std", "dispersion", "skewness", "kurtosis")


def want_stats(m1, m2):
    r1, r2 = abs(m1), abs(m2)
    u1, u2 = cmath.phase(m1), cmath.phase(m2)
    w = {"r": r1, "var": 1 - r1}
    if r1 > 1e-6:
        w["mean"] = u1 % TAU
        w["std"] = math.sqrt(max(0.0, -2 * math.log(min(r1, 1.0))))
        w["dispersion"] = (1 - r2) / (2 * r1 * r1)
    if 1 - r1 > 1e-9:
        w["skewness"] = r2 * math.sin(u2 - 2 * u1) / (1 - r1) ** 1.5
        w["kurtosis"] = (r2 * math.cos(u2 - 2 * u1) - r1 ** 4) / (1 - r1) ** 2
    return w


class Moments(Space):
    name = "summary"
    chunk = 2
    max_depth = 0
    bounds = "14 distributions x parameter lattice x 3 locations: trigonometric moments of orders 0..4, -1, -5 (1, 2, -3 for the costly laws, 1 and 2 at the last location), 8 summary statistics, stats(), against quadrature of the documented density"

    def roots(self, tier):
        cnt = {}
        stride = {"jonespewsey": 5, "jonespewsey_sineskewed": 9, "jonespewsey_asym": 7, "vonmises_flattopped": 5, "inverse_batschelet": 14, "wrapstable": 4}
        for i, s in enumerate(M.states(tier, mus=((0.7, 5.5) if tier == "quick" else (0.0, 0.7, math.pi, 5.5)), only=M.smooth)):
            k = cnt[s[0]] = cnt.get(s[0], -1) + 1
            if tier == "quick" and k % stride.get(s[0], 1):
                continue
            yield s

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.obj
        a = D.args(mu, par)
        f = []
        T = 1e-6
        ms = {}
        for p in (1, 2, -3) if name in M.SLOW else (0, 1, 2, 3, -1, 4, -5) if mu < 5 else (1, 2):
            want = D.moment(p, mu, par)
            got = ms[p] = complex(d.trig_moment(p, *a))
            if not abs(got - want) < T:
                f.append(f"trig_moment({p})={got} expected {want}")
        m1, m2 = D.moment(1, mu, par), D.moment(2, mu, par)
        w = want_stats(m1, m2)
        S = d.stats(*a) if name not in M.SLOW else None
        g = {}
        for k in FN:
            if name in M.SLOW and k in ("var", "std", "dispersion", "skewness"):
                continue
            g[k] = v = float(getattr(d, k)(*a))
            if S is not None and not (abs(float(S[k]) - v) < 1e-9 * (1 + abs(v)) or (math.isnan(v) and math.isnan(S[k])) or v == S[k]):
                f.append(f"stats()['{k}']={S[k]} but {k}()={v}")
            if k == "median":
                continue
            if k not in w:
                if k == "mean" and abs(m1) < 1e-13 and not math.isnan(v):
                    f.append(f"mean of a law without direction is {v}")
                if k in ("std", "dispersion") and abs(m1) < 1e-13 and v != math.inf:
                    f.append(f"{k} of a law without direction is {v}")
                continue
            x = w[k]
            slack = {"r": 1, "var": 1, "mean": 2 / max(abs(m1), 1e-9), "std": 2 / max(math.sqrt(1 - abs(m1)), 1e-3) / max(abs(m1), 1e-9),
                     "dispersion": 4 / abs(m1) ** 3 if abs(m1) > 1e-6 else 1, "skewness": 9 / (1 - abs(m1) + 1e-12) ** 2.5, "kurtosis": 9 / (1 - abs(m1) + 1e-12) ** 3}[k] * T
            e = abs(v - x)
            if k == "mean":
                e = abs(cmath.phase(cmath.exp(1j * (v - x))))
                if not 0 <= v <= TAU:
                    f.append(f"mean {v} outside [0, 2 pi]")
            if not e <= min(slack, 1e-2 * (1 + abs(x))) + 1e-9 and slack < 1e-2:
                f.append(f"{k}={v} expected {x}")
        # the median halves the mass counted from 0 (documented as ppf(0.5)) or, for symmetric laws, equals the mean
        v = g["median"]
        if name == "vonmises" and abs(v - mu) < 1e-9:
            return (name, round(w["r"], 6)), f          # documented: the centre
        c = float(D.cdf(v, mu, par))
        if abs(c - 0.5) > 2 * tol(name, par) and not (w.get("mean") is not None and abs(cmath.phase(cmath.exp(1j * (v - w["mean"])))) < 1e-6):
            f.append(f"median={v} has cdf {c}")
        return (name, round(w["r"], 6)), f


class Limits(LimitsBase):
    bounds = NOTE + ": moments of order 1-3 against the integral of the documented density"

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        a = D.args(mu, par)
        f = []
        for p in (1, 2, 3):
            z, w = complex(D.obj.trig_moment(p, *a)), D.moment(p, mu, par)
            if not abs(z - w) <= near(name, "moment"):
                f.append(f"moment {p} is {z}, expected {w}")
        return (name, par), f


def spaces(tier):
    return [Moments(), Limits()]
