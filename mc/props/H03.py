"""Multi-sample tests do not depend on origin, sense of rotation, order of observations or groups, or whole turns."""
import math

import numpy as np

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close
from mc.props.H06 import groups, group_states

import pycircstat2.hypothesis as H
from pycircstat2 import Circular
from pycircstat2.descriptive import circ_median

ROT = (0.0, 0.7, 2.9, 4.4)
G0 = (0, 0, 0, 0, 0, 0)


def transform(ss, t, g):
    rot, refl, perm, turn, swap, form = g
    out = []
    for j, a in enumerate(ss):
        a = np.array(a, float)
        n = len(a)
        if refl:
            a = -a
        a = np.mod(a + ROT[rot], O.TAU)
        if perm == 1:
            a = a[::-1].copy()
        elif perm == 2:
            a = np.sort(a)
        if turn:
            a = a + O.TAU * ((np.arange(n) + j) % 3 - 1)
        out.append(a)
    t = (-t if refl else t) + ROT[rot]
    if swap:
        out = out[1:] + out[:1]
    if form == 1:
        out = [list(a) for a in out]
    elif form == 2:
        out = [Circular(a, unit="radian", kwargs_median=dict(method=None)) for a in out]
    return out, t


ARRAYS_ONLY = {"circ_anova/F", "circ_anova/F-", "circ_anova/LRT", "concentration_test", "rao_homogeneity_test/disp", "rao_homogeneity_test/polar",
               "equal_kappa_test", "common_median_test"}


class Inv(Space):
    name = "multi-sample-orbits"
    chunk = 8

    def __init__(self, tier):
        self.tier = tier
        self.max_depth = 2 if tier == "quick" else 4
        self.bounds = f"group layouts x shapes x concentrations x spreads; all transformations reachable in <= {self.max_depth} steps (rotate, reflect, permute, turns, swap groups, container type)"

    def roots(self, tier):
        n = 0
        for s in group_states("quick", sizes=((5, 5), (5, 9), (12, 7), (5, 6, 7), (12, 5, 9, 10)), mus=(0,)):
            n += 1
            if tier == "quick" and n % 2:
                continue
            yield s, G0

    def actions(self, s):
        b, g = s
        rot, refl, perm, turn, swap, form = g
        if rot < 3:
            yield ("rot",), (b, (rot + 1,) + g[1:])
        if not refl:
            yield ("refl",), (b, (rot, 1) + g[2:])
        if not perm:
            yield ("perm", 1), (b, g[:2] + (1,) + g[3:])
            yield ("perm", 2), (b, g[:2] + (2,) + g[3:])
        if not turn:
            yield ("turn",), (b, g[:3] + (1,) + g[4:])
        if not swap:
            yield ("swap",), (b, g[:4] + (1,) + g[5:])
        if not form:
            yield ("list",), (b, g[:5] + (1,))
            yield ("Circular",), (b, g[:5] + (2,))

    def check(self, s):
        b, g = s
        if g == G0:
            return None, []
        s0 = groups(b)
        k = len(s0)
        t0 = 0.9
        ss, t = transform(s0, t0, g)
        f = []
        allx = np.hstack(s0)
        for name, fn in T.MULTI.items():
            if name in T.TWO_ONLY and k != 2:
                continue
            if g[5] and name in ARRAYS_ONLY and not (g[5] == 1 and name in ("concentration_test", "equal_kappa_test", "common_median_test")):
                continue
            if name == "rao_homogeneity_test/polar" and (g[0] or min(abs(O.CS(list(a))[0]) for a in s0) < 1e-2):
                continue
            if name == "wheeler_watson_test" and T.circ_gap(allx) < 1e-9:
                continue
            if name in ("watson_u2_test",) and T.circ_gap(allx) < 1e-9 and g[3]:
                continue
            if name == "wallraff_test" and 0 < T.tie_gap([O.arc(float(x), t0) for x in allx]) < 1e-9:
                continue
            if name == "equal_kappa_test":
                r = O.mean_r(list(allx))[1]
                if min(abs(r - 0.45), abs(r - 0.7), abs(r - 0.53), abs(r - 0.85)) < 1e-6:
                    continue
            if name == "common_median_test":
                m = float(circ_median(allx))
                if math.isnan(m) or any(1e-9 < abs(O.arc(float(x), m)) < 1e-7 or abs(O.arc(float(x), m) - math.pi) < 1e-7 for x in allx):
                    continue
                if len(allx) % 2 == 0 and not self.unique_median(allx):
                    continue
            x = T.call(fn, s0, t0)
            y = T.call(fn, ss, t)
            if x[0] == "ValueError" or y[0] == "ValueError":
                if x[0] != y[0]:
                    f.append(f"{name}: {x} originally, {y} after {g}")
                continue
            if isinstance(x[-1], str):
                if x[-1] != y[-1]:
                    f.append(f"{name}: {x[-1]} becomes {y[-1]}")
                x, y = x[:-1], y[:-1]
            if name == "concentration_test" and g[4]:
                x = (1 / x[0], x[1], x[3], x[2])
                if (x[0] < 1) != (y[0] < 1) or abs(x[0] - 1) < 1e-9:
                    continue
                # capped two-sided p-values need not agree between the two tails
            if name == "common_median_test" and g[1]:
                # observations below become observations above: same statistic only without ties at the median
                m = float(circ_median(allx))
                if any(abs(O.arc(float(v), m)) < 1e-7 for v in allx):
                    continue
            if name == "wallraff_test" and g[4]:
                pass
            tol = 1e-6
            if not close(x, y, tol, 1e-7):
                f.append(f"{name}: {x} becomes {y} after {g}")
        return (b, g), f

    def unique_median(self, a):
        """the minimiser of the mean deviation is one arc away from ties"""
        devs = sorted(O.mean_dev(list(map(float, a)), float(x)) for x in a)
        return len(devs) < 3 or devs[2] - devs[1] > 1e-9


def spaces(tier):
    return [Inv(tier)]
