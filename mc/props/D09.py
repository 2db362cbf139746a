"""Confidence interval of the median direction (order statistics on the circle)."""
import math

import numpy as np
from scipy.stats import norm

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D
from pycircstat2 import Circular

# Fisher (1993) appendix A6: n -> (rank lower, rank upper (0-based), level)
A6 = {3: (0, 2, .75), 4: (0, 3, .875), 5: (0, 4, .937), 6: (0, 5, .97), 7: (0, 6, .984), 8: (0, 7, .992), 9: (0, 8, .996),
      10: (1, 8, .978), 11: (1, 9, .99), 12: (2, 9, .962), 13: (2, 10, .978), 14: (3, 10, .937), 15: (2, 12, .965)}


def expected(al, med, ci):
    """-> (lower, upper, level) or None when the cut of the circle interferes"""
    n = len(al)
    d = np.sort([O.adiff(float(a), med) for a in al])
    if np.any(np.abs(np.abs(d) - math.pi) < 1e-6):
        return None
    if n in A6:
        i, j, lv = A6[n]
        return med + d[i], med + d[j], lv
    if np.any((np.abs(d) > 1e-9) & (np.abs(d) < 3e-5)):
        return None
    m = 1 + int(math.floor(0.5 * math.sqrt(n) * norm.ppf(0.5 + ci / 2)))
    left = [x for x in d if x < -1e-9]
    right = [x for x in d if x >= -1e-9]
    if right and abs(right[0]) <= 1e-9:
        right = right[1:]
    if len(left) < m or len(right) <= m - 1:
        return None
    return med + left[-m], med + right[m - 1], ci


class Pat(Space):
    name = "patterns"

    def __init__(self, tier):
        self.ns = list(range(1, 41)) + [60, 99, 100, 250] if tier == "quick" else list(range(1, 121)) + [250, 500]
        self.bounds = f"deterministic samples, every n in 1..{40 if tier == 'quick' else 120} and 250, x 4 shapes x 5 concentrations x 4 locations (straddling 0) x 4 levels x given/computed median"

    def roots(self, tier):
        for p in S.pats(self.ns, kinds=("vm", "bi", "skew", "ties"), concs=range(1, 6), mus=(0, 3, 6, 11)):
            yield p

    def check(self, s):
        al = S.angles(s)
        n = len(al)
        f = []
        out = None
        for meth in ("deviation", "count"):
            med = float(D.circ_median(al, method=meth))
            for ci in (0.8, 0.9, 0.95, 0.99):
                a = D.circ_median_ci(alpha=al, method=meth, ci=ci)
                b = D.circ_median_ci(median=med, alpha=al, ci=ci)
                if not all(aclose(x, y, 1e-9) for x, y in zip(a[:2], b[:2])) or a[2] != b[2]:
                    f.append(f"given median {b} differs from computed {a}")
                lo, hi, lv = float(a[0]), float(a[1]), a[2]
                if n < 3 or math.isnan(med):
                    if not (math.isnan(lo) and math.isnan(hi)):
                        f.append(f"n={n}, median {med}: interval {a}")
                    continue
                for v in (lo, hi):
                    if not 0 <= v < O.TAU:
                        f.append(f"bound {v} outside [0,2pi)")
                    if min(O.arc(v, float(x)) for x in al) > 1e-7:
                        f.append(f"bound {v} is not an observation")
                e = expected(al, med, ci)
                if e is None:
                    continue
                out = (n, lv)
                if not (aclose(lo, e[0], 1e-7) and aclose(hi, e[1], 1e-7)):
                    f.append(f"{meth} n={n} ci={ci}: ({lo},{hi}) expected ({O.wrap(e[0])},{O.wrap(e[1])}), median {med}")
                if abs(lv - e[2]) > 1e-12:
                    f.append(f"n={n}: level {lv} expected {e[2]}")
                if n not in A6 and not O.within(med, lo, hi, 1e-7):
                    f.append(f"median {med} outside ({lo},{hi})")
        for bad in (dict(), dict(median=1.0)):
            try:
                D.circ_median_ci(**bad)
                f.append(f"circ_median_ci({bad}) accepted")
            except ValueError:
                pass
        return out, f


class Obj(Space):
    name = "object"
    bounds = "Circular of the same samples (n=2..30, radians and degrees): its median interval is that of circ_median_ci"

    def roots(self, tier):
        for p in S.pats(range(2, 31), kinds=("vm", "skew"), concs=(1, 3), mus=(0, 6)):
            yield p

    def check(self, s):
        al = S.angles(s)
        f = []
        for c in (Circular(al, unit="radian", kwargs_mean_ci=dict(method=None)), Circular(np.rad2deg(al), kwargs_mean_ci=dict(method=None))):
            m = float(D.circ_median(al))
            if math.isnan(m):
                continue
            if any(1e-9 < O.arc(float(x), m) < 3e-5 for x in al):
                continue
            e = D.circ_median_ci(median=m, alpha=al)
            if not (aclose(c.median_lb, e[0], 1e-7) and aclose(c.median_ub, e[1], 1e-7) and close(c.median_ci_level, e[2])):
                f.append(f"object interval {(c.median_lb, c.median_ub, c.median_ci_level)} expected {e}")
        return len(al), f


class Freq(Space):
    """all frequency vectors on 6 cells, in every multiple"""
    name = "frequencies"
    chunk = 32

    def __init__(self, tier):
        self.top = 3 if tier == "quick" else 4
        self.bounds = (f"every vector of frequencies 0..{self.top} on 5 evenly spaced directions, times 1, 4 and 9, as int and float arrays: the interval is that of the "
                       "expanded sample, about the given median and about the median of the frequency table")

    def roots(self, tier):
        import itertools
        for w in itertools.product(range(self.top + 1), repeat=5):
            if sum(w) > 1:
                yield w

    def check(self, s):
        f = []
        al = 0.2 + O.TAU * np.arange(5) / 5
        n = 0
        for rep in (1, 4, 9):
            w = np.array(s) * rep
            ex = np.repeat(al, w)
            for W in (w, w.astype(float)):
                for med in (1.3, 5.0, None):
                    if med is None:
                        m = float(D.circ_median(al, W))
                        if math.isnan(m) or any(abs(abs(O.adiff(float(x), m)) - math.pi) < 1e-6 or 1e-9 < O.arc(float(x), m) < 3e-5 for x in al):
                            continue
                        a, b = D.circ_median_ci(alpha=al, w=W), D.circ_median_ci(median=m, alpha=ex)
                    else:
                        a, b = D.circ_median_ci(median=med, alpha=al, w=W), D.circ_median_ci(median=med, alpha=ex)
                    n += 1
                    ok = all(math.isnan(x) and math.isnan(y) or aclose(float(x), float(y), 1e-9) for x, y in zip(a[:2], b[:2])) and (a[2] == b[2] or a[2] != a[2] and b[2] != b[2])
                    if not ok:
                        f.append(f"median {med}, frequencies {W.tolist()}: {a}, listed one by one {b}")
        return n, f


def spaces(tier):
    return [Pat(tier), Obj(), Freq(tier)]
