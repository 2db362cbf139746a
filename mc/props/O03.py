"""Axial data: doubled, analysed, halved back."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close
from mc.props.O02 import usable

from pycircstat2 import Axial, Circular

UNITS = (("radian", None, O.TAU), ("degree", None, 360), ("hour", None, 24), ("custom", 100, 100.0), ("degree", 400, 400.0))
INV = ("n", "r", "R", "kappa", "s", "s0", "skewness", "kurtosis", "method_mean_ci")
HALF = ("mean", "mean_lb", "mean_ub", "median", "median_lb", "median_ub")


def mod_pi(a, b, tol=1e-7):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(math.remainder(a - b, math.pi)) <= tol


class Ax(Space):
    """transitions: flip one axis end (add half a cycle), change unit, rotate all axes"""
    name = "axes"
    max_depth = 2

    def __init__(self, tier):
        self.bounds = "samples n=2..40 x 3 shapes x 3 concentrations of axes; flipping axis ends, 5 units/cycles, rotations; depth 2"

    def roots(self, tier):
        for p in S.pats((2, 3, 5, 7, 15, 16, 25, 40) if tier == "quick" else tuple(range(2, 8)) + tuple(range(25, 45)), kinds=("vm", "skew", "ties"), concs=(1, 2, 3)):
            yield p + (0, 0, 0)

    def actions(self, s):
        p, fl, u, ro = s[:6], s[6], s[7], s[8]
        for k in (1, 2, 3):
            if k != fl:
                yield ("flip", k), p + (k, u, ro)
        for v in range(len(UNITS)):
            if v != u:
                yield ("unit", v), p + (fl, v, ro)
        if ro < 3:
            yield ("rotate",), p + (fl, u, ro + 1)

    def check(self, s):
        p, fl, u, ro = s[:6], s[6], s[7], s[8]
        al2 = S.pat_angles(p)                  # doubled angles
        if not usable(al2):
            return None, []
        n = len(al2)
        phi = (0.0, 0.4, 1.6, 2.9)[ro]
        flips = [np.zeros(n), np.arange(n) % 2, np.ones(n), (np.arange(n) == 0) * 1][fl]
        ax = np.mod(al2 / 2 + phi + math.pi * flips, O.TAU)
        unit, fc, K = UNITS[u]
        meth = "dispersion" if n >= 25 else None
        kw = lambda: dict(kwargs_mean_ci=dict(method=meth))
        a = Axial(ax * K / O.TAU, unit=unit, full_cycle=fc, **kw())
        c = Circular(np.mod(al2 + 2 * phi, O.TAU), unit="radian", **kw())
        f = []
        for k in INV:
            x, y = getattr(a, k), getattr(c, k)
            if not (x == y if isinstance(x, (str, type(None))) else close(x, y, 1e-6, 1e-7)):
                f.append(f"{k}: axial {x}, doubled sample {y}")
        m = float(c.median)
        cut = math.isnan(m) or any(abs(O.arc(float(x), m) - math.pi) < 1e-6 or 1e-9 < O.arc(float(x), m) < 3e-5 for x in c.alpha)
        for k in HALF:
            if hasattr(a, k) != hasattr(c, k):
                f.append(f"{k} present in only one object")
                continue
            if not hasattr(c, k) or (cut and k.startswith("median")):
                continue
            x, y = float(getattr(a, k)), float(getattr(c, k)) / 2
            if not mod_pi(x, y):
                f.append(f"{k}: axial {x}, half of doubled {y}")
            if not math.isnan(x) and not 0 <= x <= math.pi + 1e-9:
                f.append(f"{k}={x} is not an axis in [0,pi]")
        if not close(a.mean_test_result.pval, c.mean_test_result.pval, 1e-6, 1e-9):
            f.append("Rayleigh p differs")
        if not close(np.cos(a.alpha - ax), np.ones(n)) or not close(np.asarray(a.data, float), ax * K / O.TAU):
            f.append("alpha/data are not the original axes")
        if not close(np.cos(a.alpha_double - 2 * ax), np.ones(n)):
            f.append("alpha_double is not the doubled sample")
        return (n, fl, u, ro), f


class Tables(Space):
    name = "tables"
    max_depth = 0
    bounds = "frequency tables of axes: 6 classes of half a circle, every vector of counts 0..2 up to rotation, either end of each class recorded, 4 starting places, 3 units; and the same observations binned into 4, 6, 9 classes"

    def roots(self, tier):
        top = 2 if tier == "quick" else 3
        for w in itertools.product(range(top + 1), repeat=6):
            if sum(w) < 2 or w != max(w[i:] + w[:i] for i in range(6)):
                continue
            for k, fl in enumerate(((0,) * 6, (1, 0, 1, 0, 1, 0), (1, 1, 0, 0, 0, 1), (1,) * 6)):
                yield ("table", w, fl, (k + sum(w)) % 4, (k + w[1]) % 3)
            for b in (4, 6, 9):
                yield ("bins", w, (0, 1, 1, 0, 1, 0), b, (b + w[1]) % 3)

    def check(self, s):
        kind, w, fl, x, u = s
        unit, fc, K = UNITS[u]
        w = np.array(w)
        fl = np.array(fl)
        f = []
        if kind == "table":
            ax = np.mod((np.arange(6) + 0.5 + 0.21 * x) * math.pi / 6 + math.pi * fl, O.TAU)
            mk = dict(w=w)
        else:
            ax = np.repeat(np.mod((np.arange(6) + 0.37) * math.pi / 6 + math.pi * fl, O.TAU), w)
            mk = dict(bins=x)
        a = Axial(ax * K / O.TAU, unit=unit, full_cycle=fc, **mk)
        c = Circular(np.mod(2 * ax, O.TAU), unit="radian", **mk)
        if kind == "bins":
            want = np.bincount((np.mod(2 * ax, O.TAU) / O.TAU * x).astype(int), minlength=x)
            if not np.array_equal(a.w, want):
                f.append(f"counts {np.asarray(a.w).tolist()} instead of {want.tolist()}")
            ctr = (np.arange(x) + 0.5) * math.pi / x
        else:
            ctr = ax
        if a.n != w.sum() or not a.grouped:
            f.append(f"n={a.n}, grouped={a.grouped}")
        if np.shape(a.alpha) != np.shape(a.w) or np.shape(a.alpha_double) != np.shape(a.w):
            f.append(f"{np.shape(a.alpha)} axes and {np.shape(a.alpha_double)} doubled angles for {np.shape(a.w)} counts")
        else:
            if not close(np.cos(2 * (a.alpha - ctr)), np.ones(len(ctr))):
                f.append("alpha are not the axes of the classes")
            if not close(np.cos(a.alpha_double - 2 * ctr), np.ones(len(ctr))):
                f.append("alpha_double are not the doubled axes of the classes")
        z = abs(np.sum(a.w * np.exp(2j * ctr)))
        if not close(a.r, z / w.sum(), 1e-9, 1e-9):
            f.append(f"r={a.r}, resultant of the doubled axes {z / w.sum()}")
        for k in INV + ("bin_size",):
            p, q = getattr(a, k), getattr(c, k)
            if (z < 1e-9 * w.sum() or z > (1 - 1e-9) * w.sum()) and k in ("skewness", "kurtosis", "kappa", "s0"):
                continue
            if not (p == q if isinstance(p, (str, type(None))) else close(p, q, 1e-6, 1e-7)):
                f.append(f"{k}: axial {p}, doubled sample {q}")
        for k in ("mean", "median"):
            p, q = float(getattr(a, k)), float(getattr(c, k)) / 2
            if k == "mean" and z < 1e-9 * w.sum():
                continue
            if not mod_pi(p, q):
                f.append(f"{k}: axial {p}, half of doubled {q}")
            if not math.isnan(p) and not 0 <= p <= math.pi + 1e-9:
                f.append(f"{k}={p} is not an axis in [0,pi]")
        if hasattr(a, "median_lb"):
            f.append("a median interval for grouped data")
        return (kind, int(w.sum()), x), f


class Turn(Space):
    name = "rotate"
    max_depth = 0
    bounds = "raw, tabulated and binned axes, 3 units, rotate= by 6 angles: the analysis of the axes turned by that angle"

    def roots(self, tier):
        for d in range(6 if tier == "quick" else 12):
            for kind in ("raw", "table", "bins"):
                for i in range(6):
                    yield (kind, d, i, (d + i) % 3)

    def check(self, s):
        kind, d, i, u = s
        rot = (0.0, 0.4, 1.7, math.pi, 4.5, -0.9)[i]
        unit, fc, K = UNITS[u]
        n = 7 + 3 * d
        if kind == "table":
            ax = (np.arange(9) + 0.3) * math.pi / 9
            mk = dict(w=(np.arange(9) * (d % 5 + 2)) % 7 + (np.arange(9) == d % 9) * 9, kwargs_mean_ci=dict(method=None))
        else:
            ax = np.mod(S.angles(("P", "vm", n, 2, d, 1)) / 2 + 0.01, O.TAU)
            mk = dict(bins=9, kwargs_mean_ci=dict(method=None)) if kind == "bins" else dict(kwargs_mean_ci=dict(method="dispersion" if n >= 25 else None))
        cp = lambda m: {k: dict(v) if isinstance(v, dict) else v for k, v in m.items()}
        a = Axial(ax * K / O.TAU, unit=unit, full_cycle=fc, rotate=rot, **cp(mk))
        b = Axial((ax + rot) * K / O.TAU, unit=unit, full_cycle=fc, **cp(mk))
        f = []
        for k in INV:
            p, q = getattr(a, k), getattr(b, k)
            if not (p == q if isinstance(p, (str, type(None))) else close(p, q, 1e-6, 1e-7)):
                f.append(f"{k}: rotate= gives {p}, turned data {q}")
        if not np.array_equal(a.w, b.w):
            f.append("the counts differ")
        for k in HALF:
            if hasattr(a, k) and not mod_pi(float(getattr(a, k)), float(getattr(b, k))) and not (k.startswith("median") and b.r < 0.2):
                f.append(f"{k}: rotate= gives {getattr(a, k)}, turned data {getattr(b, k)}")
        if np.shape(a.alpha) != np.shape(b.alpha) or not close(np.cos(2 * (a.alpha - b.alpha)), np.ones(np.shape(b.alpha))) \
                or not close(np.cos(a.alpha_double - b.alpha_double), np.ones(np.shape(b.alpha))):
            f.append("alpha or alpha_double are not those of the turned axes")
        return (kind, d, i), f


def spaces(tier):
    return [Ax(tier), Tables(), Turn()]
