"""The unit and cycle in which angles are recorded do not matter."""
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import Circular

UNITS = (("degree", None, 360), ("hour", None, 24), ("degree", 360, 360), ("custom", 7, 7), ("radian", None, O.TAU),
         ("radian", 1.0, 1.0), ("month", 12, 12), ("degree", 400, 400.0), ("hour", 12, 12))
INV = ("n", "r", "R", "kappa", "s", "s0", "skewness", "kurtosis", "median_ci_level")
ANG = ("mean", "median", "mean_lb", "mean_ub", "median_lb", "median_ub")


def snap(c):
    d = {}
    for a in INV:
        if hasattr(c, a):
            d[a] = float(getattr(c, a))
    for a in ANG:
        if hasattr(c, a):
            d[a] = float(getattr(c, a))
    d["pval"] = float(c.mean_test_result.pval)
    d["ci_method"] = c.method_mean_ci
    return d


def compare(a, b, shift, f, what, cut=False):
    if a.keys() != b.keys():
        f.append(f"{what}: attributes differ {sorted(a.keys() ^ b.keys())}")
    for k in a.keys() & b.keys():
        x, y = a[k], b[k]
        if k == "ci_method":
            ok = x == y
        elif k in ANG:
            if cut and k.startswith("median"):
                continue
            ok = aclose(x + shift, y, 1e-6)
        else:
            ok = close(x, y, 1e-6, 1e-7)
        if not ok:
            f.append(f"{what}: {k} {x} -> {y}")


def usable(al):
    r = O.mean_r(list(al))[1]
    return r > 1e-4 and 1 - r > 1e-6


class Relabel(Space):
    """transition system over (unit, whole-turn offset, rotation); every edge re-expresses the same sample"""
    name = "re-expressions"
    max_depth = 2

    def __init__(self, tier):
        self.bounds = "samples n=2..30,60 x 3 shapes x 2 concentrations; every unit/cycle (9), +-1 turn, rotate= vs adding the angle; depth 2"
        self.tier = tier

    def roots(self, tier):
        ns = (2, 3, 6, 7, 15, 16, 25, 30, 60) if tier == "quick" else tuple(range(2, 8)) + tuple(range(25, 41))
        for p in S.pats(ns, kinds=("vm", "skew", "bi"), concs=(2, 3), mus=(0, 5)):
            yield p + (4, 0, 0)

    def actions(self, s):
        p, u, t, ro = s[:6], s[6], s[7], s[8]
        for v in range(len(UNITS)):
            if v != u:
                yield ("unit", v), p + (v, t, ro)
        if t == 0:
            yield ("turn", 1), p + (u, 1, ro)
            yield ("turn", -1), p + (u, -1, ro)
        if ro == 0:
            for r in (1, 2):
                yield ("rotate", r), p + (u, t, r)

    def check(self, s):
        p, u, t, ro = s[:6], s[6], s[7], s[8]
        al = S.pat_angles(p)
        if not usable(al):
            return None, []
        f = []
        kw = dict(kwargs_mean_ci=dict(method="dispersion")) if len(al) >= 25 else dict(kwargs_mean_ci=dict(method=None))
        b = snap(Circular(al, unit="radian", **{k: dict(v) for k, v in kw.items()}))
        unit, fc, K = UNITS[u]
        data = (al + O.TAU * t * (np.arange(len(al)) % 2)) * K / O.TAU
        rot = (0.0, 0.8, -3.0)[ro]
        g = snap(Circular(data, unit=unit, full_cycle=fc, rotate=rot if ro else None, **{k: dict(v) for k, v in kw.items()}))
        m = b["median"]
        cut = math.isnan(m) or any(abs(O.arc(float(x), m) - math.pi) < 1e-6 or 1e-9 < O.arc(float(x), m) < 3e-5 for x in al)
        compare(b, g, rot, f, f"{unit}/{K:.4g} turn {t} rotate {rot}", cut)
        return (u, t, ro), f


class Binned(Space):
    name = "binned"
    bounds = "samples n=20..200 binned into 8/12/24/36 bins from each unit, with turns: identical histogram and statistics"

    def roots(self, tier):
        for p in S.pats((20, 47, 200), kinds=("vm", "bi"), concs=(1, 2, 3), mus=(0, 5)):
            for nb in (8, 12, 24, 36):
                for u in range(len(UNITS)):
                    yield p + (nb, u)

    def check(self, s):
        al = S.pat_angles(s[:6])
        nb, u = s[6], s[7]
        h = O.TAU / nb
        # keep observations off the bin edges
        al = np.where(np.abs((al / h) - np.round(al / h)) < 1e-4, al + 0.01 * h, al)
        unit, fc, K = UNITS[u]
        f = []
        exp = np.zeros(nb, int)
        for x in al:
            exp[int(O.wrap(float(x)) / h)] += 1
        c = Circular((al + O.TAU * (np.arange(len(al)) % 3 - 1)) * K / O.TAU, bins=nb, unit=unit, full_cycle=fc, kwargs_mean_ci=dict(method=None))
        if not np.array_equal(np.asarray(c.w), exp):
            f.append(f"histogram {c.w} expected {exp}")
        if c.n != len(al):
            f.append(f"n={c.n}, {len(al)} observations")
        if not close(c.alpha, (np.arange(nb) + 0.5) * h):
            f.append("bin centres")
        m, r = O.mean_r(list((np.arange(nb) + 0.5) * h), list(exp))
        if not close(c.r, r) or (r > 1e-6 and not aclose(c.mean, m, 1e-7)):
            f.append(f"binned mean/r {c.mean},{c.r} expected {m},{r}")
        return (nb, u), f


class Edges(Space):
    name = "edges"
    chunk = 40
    bounds = ("every division of the circle into 2 to 8 classes whose edges lie on an 8-lattice (equal and unequal classes, given as an array) x 6 samples x 3 units with turns: "
              "counts, class bounds, centres, n, mean and r of the table; unequal classes may be refused (their median is not defined by the code), never miscounted")

    def roots(self, tier):
        for m in range(1, 128):
            for k in range(6):
                for u in (0, 1, 3):
                    yield (m, k, u)

    def check(self, s):
        m, k, u = s
        e = np.array([0] + [i for i in range(1, 8) if m >> (i - 1) & 1] + [8]) * O.TAU / 8
        n = (9, 14, 20, 30, 31, 60)[k]
        al = O.TAU * ((np.arange(n) * (0.381966, 0.21, 0.027, 0.618, 0.0137, 0.45)[k] + 0.0371) % 1.0)
        unit, fc, K = UNITS[u]
        b = np.searchsorted(e, al, side="right") - 1
        exp = np.bincount(b, minlength=len(e) - 1)
        e0 = e.copy()
        try:
            c = Circular((al + O.TAU * (np.arange(n) % 3 - 1)) * K / O.TAU, bins=e, unit=unit, full_cycle=fc, kwargs_mean_ci=dict(method=None))
        except IndexError:
            return ("refused", len(e)), [f"equal classes {e} refused"] if np.allclose(np.diff(e), e[1]) else []
        f = []
        if not np.array_equal(np.asarray(c.w), exp) or c.n != n:
            f.append(f"edges {e}: counts {c.w} (n={c.n}) expected {exp}")
        if not (close(c.alpha_lb, e[:-1]) and close(c.alpha_ub, e[1:]) and close(c.alpha, (e[1:] + e[:-1]) / 2)):
            f.append(f"edges {e}: classes {c.alpha_lb} .. {c.alpha_ub} about {c.alpha}")
        if not np.array_equal(e, e0):
            f.append("the caller's edges were changed")
        mu, r = O.mean_r(list((e[1:] + e[:-1]) / 2), list(exp))
        if not close(c.r, r) or (r > 1e-6 and not aclose(c.mean, mu, 1e-7)):
            f.append(f"edges {e}: mean/r {c.mean},{c.r} expected {mu},{r}")
        return (len(e), u), f


def spaces(tier):
    return [Relabel(tier), Binned(), Edges()]
