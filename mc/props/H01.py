"""Every p-value is a probability and every test answers."""
import itertools
import math

import numpy as np

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space

import pycircstat2.hypothesis as H

PV = {  # name -> indices of p-values among the adapter's numbers
    "rayleigh_test": (2,), "V_test": (2,), "omnibus_test": (1,), "batschelet_test": (1,), "symmetry_test": (1,), "kuiper_test": (1,), "kuiper_test/sim": (1,),
    "watson_test": (1,), "watson_test/sim": (1,), "rao_spacing_test": (1,), "circ_range_test": (1,), "binomial_test": (0,),
    "watson_williams_test": (1,), "watson_u2_test": (1,), "wheeler_watson_test": (1,), "wallraff_test": (1,), "circ_anova/F": (1,), "circ_anova/F-": (1,), "circ_anova/LRT": (1,),
    "concentration_test": (1,), "rao_homogeneity_test/disp": (1,), "rao_homogeneity_test/polar": (1,), "equal_kappa_test": (1,), "common_median_test": (1,),
}
EPS = 1e-9


def bad(p):
    return math.isnan(p) or p < -EPS or p > 1 + EPS


class One(Space):
    name = "one-sample-totality"
    chunk = 16

    def __init__(self, tier):
        self.tier = tier
        self.m = 6 if tier == "quick" else 8
        self.n = 4 if tier == "quick" else 6
        self.bounds = f"all sorted lattice samples ({self.m} points, n<={self.n + 1}, uniform, coincident and antipodal ones included), patterns up to n=400; 13 tests; 3 reference directions"
        self.max_depth = 1

    def roots(self, tier):
        for o in (0, 1):
            yield from S.seqs(self.m, self.n, offs=(o,), canonical=True)
        yield from S.pats((6, 10, 50, 400), mus=(0, 6))
        for n in (5, 12, 30, 100, 360):
            yield ("P", "vm", n, 0, 0, 0)
        for n in (2, 3, 10, 64, 200):
            yield ("U", n)

    def actions(self, s):
        if s[0] == "S" and s[2] == 0:
            for k in range(s[3][-1], s[1]):
                yield ("append", k), ("S", s[1], s[2], s[3] + (k,), s[4] + (0,))

    def check(self, s):
        a = np.arange(s[1]) * O.TAU / s[1] if s[0] == "U" else S.angles(s)
        f = []
        sig = []
        span = T.tie_gap(a)
        for name, fn in T.ONE.items():
            if name == "change_point_test":
                continue
            if name == "symmetry_test" and len(a) < 2:
                continue
            for t in (0.9, 0.0, float(a[0])):
                r = T.call(fn, a, t)
                if r[0] == "ValueError":
                    f.append(f"{name}: refuses an ordinary sample: {r[1]}")
                    break
                if name == "symmetry_test":
                    d = [O.arc(float(x), t) for x in a]
                    if max(d) < 1e-6:
                        continue             # no deviation from the median at all: nothing to rank
                for i in PV[name]:
                    if bad(r[i]):
                        f.append(f"{name} (direction {t:.3f}): p={r[i]}")
                    sig.append(round(r[i], 2) if not math.isnan(r[i]) else None)
        return tuple(sig[:8]), f


class Multi(Space):
    name = "multi-sample-totality"
    chunk = 16

    def __init__(self, tier):
        self.tier = tier
        self.m = 5 if tier == "quick" else 6
        self.bounds = f"all pairs of sorted lattice samples ({self.m} points) of sizes 5 and 6, with and without jitter (degenerate ones may be refused, never answered with a non-probability)"

    def roots(self, tier):
        m = self.m
        a = list(itertools.combinations_with_replacement(range(m), 5))
        for j in (0, 1):
            for x in a:
                for y in a[:: 1 if tier != "quick" else 3]:
                    yield (m, j, x, y)

    def check(self, s):
        m, j, x, y = s
        ss = []
        for q, ks in enumerate((x, y)):
            ss.append(np.array([O.TAU * k / m + 0.3 + (0.02 * j * math.sin(3 * i + q + 1.1 * i * i)) for i, k in enumerate(ks)]))
        f = []
        rbar = [O.mean_r(list(a))[1] for a in ss]
        rall = O.mean_r(list(np.hstack(ss)))[1]
        for name, fn in T.MULTI.items():
            if name == "angular_randomisation_test":
                continue
            r = T.call(fn, ss, 0.9)
            if r[0] == "ValueError":
                # only degenerate data may be refused
                if not (min(1 - b for b in rbar) < 1e-6 or name == "common_median_test"):
                    f.append(f"{name} refuses: {r[1]}")
                continue
            p = r[PV[name][0]]
            if math.isnan(p) or p < -EPS or p > 1 + EPS:
                deg = min(1 - b for b in rbar) < 1e-6 or min(rbar) < 1e-6 or rall < 1e-6
                if name.startswith("rao_homogeneity") or name.startswith("circ_anova") or name == "watson_williams_test":
                    if math.isnan(p) and deg:
                        continue             # zero within-group variance / undefined group direction
                if name == "equal_kappa_test" and math.isnan(p) and (deg or rall < 0.45 and max(rbar) * 2 * math.sqrt(3 / 8) > 1):
                    continue                 # recorded as a separate property boundary, see known findings
                f.append(f"{name}: p={p}")
        return (round(rbar[0], 2), round(rbar[1], 2)), f


class EqualKappaDomain(Space):
    """two concentrated groups pointing in different directions"""
    name = "equal-kappa-domain"

    def __init__(self, tier):
        self.bounds = "12 angles between the group means x 4 concentrations x 3 sizes"

    def roots(self, tier):
        for d in range(12):
            for c in (2, 3, 4):
                for n in (6, 12, 30):
                    yield (d, c, n)

    def check(self, s):
        d, c, n = s
        a = S.pat_angles(("P", "vm", n, c, 0, 1))
        b = S.pat_angles(("P", "vm", n, c, 0, 1)) * 1.0 + d * O.TAU / 12
        r = T.call(H.equal_kappa_test, [a, b])
        if isinstance(r, tuple):
            return "refused", []
        return r.regime, [f"equal_kappa_test undefined p={r.pval}"] if bad(r.pval) else []


def spaces(tier):
    return [One(tier), Multi(tier), EqualKappaDomain(tier)]
