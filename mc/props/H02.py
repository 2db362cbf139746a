"""One-sample tests do not depend on the origin, the sense of rotation, the order or whole turns."""
import math

import numpy as np

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.hypothesis as H

ROT = (0.0, 0.7, 2.9, 4.4)


def transform(a, t, g):
    rot, refl, perm, turn = g
    a = np.array(a, float)
    n = len(a)
    if refl:
        a, t = -a, -t
    a = a + ROT[rot]
    t = t + ROT[rot]
    if turn == 0:
        a, t = np.mod(a, O.TAU), t % O.TAU
    elif turn == 1:
        a = np.mod(a, O.TAU) - O.TAU * (np.arange(n) % 2)
        t = t % O.TAU
    elif turn == 2:
        a = np.mod(a, O.TAU) + O.TAU * np.where(np.arange(n) % 3 == 0, 2, np.where(np.arange(n) % 3 == 1, -1, 0))
        t = t % O.TAU - O.TAU
    if perm == 1:
        a = a[::-1].copy()
    elif perm == 2:
        a = np.sort(a)
    return a, t


def guards(name, a, t):
    n = len(a)
    if name in ("batschelet_test",):
        return T.right_margin(a, t) > 1e-6
    if name in ("binomial_test",):
        return T.side_margin(a, t) > 1e-6
    if name == "symmetry_test":
        return T.side_margin(a, t) > 1e-6 and T.tie_gap([O.arc(float(x), t) for x in a]) > 1e-9
    if name == "omnibus_test":
        return T.halfcircle_min(a)[1] > 0.02
    if name == "change_point_test":
        return False
    return True


def expected(name, base, refl, n):
    base = list(base)
    if refl:
        if name == "batschelet_test":
            return base
        if name == "binomial_test":
            return [base[0], base[1], base[3], base[2]]
    return base


class Inv(Space):
    name = "one-sample-orbits"
    chunk = 8

    def __init__(self, tier):
        self.tier = tier
        self.max_depth = 3 if tier == "quick" else 4
        self.bounds = "samples n=3..40 (5 shapes x 4 concentrations) and all 7-point lattice samples n<=4; all rotations(4) x reflection x order(3) x turns(3) reachable in <=3 steps; 12 tests"

    def roots(self, tier):
        ns = (3, 5, 8, 13, 40) if tier == "quick" else tuple(range(3, 16)) + (25, 40, 60)
        for p in S.pats(ns, concs=(0, 1, 3, 4) if tier == "quick" else range(5), mus=(0, 7)):
            yield p, (0, 0, 0, 0)
        for s in S.seqs(7, 4 if tier == "quick" else 5, nmin=2, offs=(1,), canonical=True):
            yield s, (0, 0, 0, 0)

    def actions(self, s):
        b, (rot, refl, perm, turn) = s
        if rot < 3:
            yield ("rot",), (b, (rot + 1, refl, perm, turn))
        if not refl:
            yield ("refl",), (b, (rot, 1, perm, turn))
        for p in (1, 2):
            if not perm:
                yield ("perm", p), (b, (rot, refl, p, turn))
        for k in (1, 2):
            if not turn:
                yield ("turn", k), (b, (rot, refl, perm, k))

    def check(self, s):
        b, g = s
        if g == (0, 0, 0, 0):
            return None, []
        a0 = S.angles(b)
        t0 = 0.9
        a, t = transform(a0, t0, g)
        f = []
        for name, fn in T.ONE.items():
            if not guards(name, a0, t0):
                continue
            aa = np.mod(a, O.TAU) if name == "circ_range_test" and np.any(np.abs(a) > O.TAU) else a
            x = T.call(fn, a0, t0)
            y = T.call(fn, aa, t)
            if x and x[0] == "ValueError" or y and y[0] == "ValueError":
                if x[0] != y[0]:
                    f.append(f"{name}: {x} on the original, {y} after {g}")
                continue
            tol = 1e-7
            if "sim" in name or name == "rao_spacing_test":
                # the simulated p-value may flip only at an exact tie of the statistic
                pass
            ex = expected(name, x, g[1], len(a0))
            if name == "omnibus_test" and math.isinf(ex[0]) and math.isinf(y[0]):
                ex, y = ex[1:], y[1:]
            if not close(ex, y, tol, tol):
                f.append(f"{name}: {ex} becomes {y} after {g}")
        return (b, g), f


class OneSampleCI(Space):
    """rejection = the angle lies outside the interval, wherever zero is"""
    name = "one-sample-interval"

    def __init__(self, tier):
        self.bounds = "24 lower limits x 23 widths x 48 angles x 3 turns (exhaustive)"

    def roots(self, tier):
        for l in range(24):
            for w in range(1, 24):
                yield (l, w)

    def check(self, s):
        l, w = s
        lb = l * O.TAU / 24
        ub = (l + w) % 24 * O.TAU / 24
        f = []
        for k in range(48):
            x = (k + 0.5) * O.TAU / 48
            inside = (x - lb) % O.TAU < w * O.TAU / 24
            for turn in (0, 1, -1):
                r = H.one_sample_test(angle=x + turn * O.TAU, lb=lb, ub=ub)
                if bool(r.reject) != (not inside):
                    f.append(f"angle {x + turn * O.TAU:.4f}: reject={r.reject}, interval ({lb:.4f}, {ub:.4f})")
                if not close(r.ci, (lb, ub)):
                    f.append("interval not reported as given")
        return None, f[:3]

    def traces(self, s):
        return 144


def spaces(tier):
    return [Inv(tier), OneSampleCI(tier)]
