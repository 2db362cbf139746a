"""Dispersion family: variance, standard deviations, dispersion, skewness, kurtosis, bin correction."""
import cmath
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D

BINS = (None, 0, 0.1, math.pi / 6, math.pi / 4, 1.0)


def corrected(r, b):
    return r if not b else r * b / (2 * math.sin(b / 2))


def judge(al, w):
    f = []
    wl = None if w is None else [float(x) for x in w]
    alf = [float(a) for a in al]
    m, r = O.mean_r(alf, wl)
    near1 = 1 - r < 1e-9

    def cmp(nm, got, exp, rtol=1e-9, atol=1e-9):
        if not close(got, exp, rtol, atol):
            f.append(f"{nm}={got} expected {exp}")
    auto = w is not None and not np.all(w == w[0])
    for b in BINS:
        eff = b
        if b is None and auto:
            c = sorted({round(O.wrap(a), 9) for a in alf})         # class centres round the circle
            gaps = [b2 - a2 for a2, b2 in zip(c, c[1:] + [c[0] + O.TAU])]
            eff = min(gaps) if len(c) > 1 else 0
            if min(gaps) < 1e-6:
                continue
        rc = corrected(r, eff)
        if rc > 1:
            continue
        V = 1 - rc
        cmp(f"circ_var(bin={b})", D.circ_var(al, w, bin_size=b), V)
        cmp(f"angular_var(bin={b})", D.angular_var(al, w, bin_size=b), 2 * V)
        if V > 1e-12:
            cmp(f"angular_std(bin={b})", D.angular_std(al, w, bin_size=b), math.sqrt(2 * V), 1e-6, 1e-7)
            if rc > 1e-6:
                cmp(f"circ_std(bin={b})", D.circ_std(al, w, bin_size=b), math.sqrt(-2 * math.log(rc)), 1e-6, 1e-7)
        if not auto or b is not None:
            cmp(f"circ_var(r,bin={b})", D.circ_var(r=r, bin_size=b), V)
            cmp(f"angular_var(r,bin={b})", D.angular_var(r=r, bin_size=b), 2 * V)
            cmp(f"angular_std(r,bin={b})", D.angular_std(r=r, bin_size=b), math.sqrt(max(0, 2 * V)), 1e-6, 1e-7)
            if rc > 1e-6:
                cmp(f"circ_std(r,bin={b})", D.circ_std(r=r, bin_size=b), math.sqrt(max(0, -2 * math.log(rc))), 1e-6, 1e-7)
    if r > 1e-4:
        cmp("dispersion", D.circ_dispersion(al, w), O.dispersion(alf, wl), 1e-7)
        if not near1 and 1 - r > 1e-5:
            sk, ku = O.skew_kurt(alf, wl)
            cmp("skewness", D.circ_skewness(al, w), sk, 1e-6, 1e-6)
            cmp("kurtosis", D.circ_kurtosis(al, w), ku, 1e-6, 1e-6)
    return (round(r, 5),), f


class Lat(Space):
    name = "lattice"

    def __init__(self, tier):
        self.max_depth = 4 if tier == "quick" else 5
        self.bounds = f"every sequence of <={self.max_depth} points on a 9-lattice, unweighted"

    def roots(self, tier):
        for o in (0, 1):
            for k in range(9):
                yield ("S", 9, o, (k,), (0,))

    def actions(self, s):
        if len(s[3]) < (4 if s[2] == 0 else 3) or self.max_depth > 4:
            for l, t in S.g_append(s):
                if t[3][-1] >= s[3][0]:
                    yield l, t

    def check(self, s):
        return judge(S.angles(s), None)


class Grp(Space):
    name = "grouped"
    bounds = "equal-width bins (4,6,12 bins of the circle) with every frequency pattern over {0,1,3} on 5 consecutive cells"

    def roots(self, tier):
        for nb in (6, 12, 24):
            for ws in itertools.product((0, 1, 3), repeat=5):
                if any(ws):
                    for st in range(0, nb, nb // 3):
                        yield ("G", nb, st, ws)

    def check(self, s):
        _, nb, st, ws = s
        h = O.TAU / nb
        al = (np.arange(nb) + 0.5) * h
        w = np.zeros(nb)
        for i, x in enumerate(ws):
            w[(st + i) % nb] = x
        return judge(al, w)


class Pat(Space):
    name = "patterns"
    bounds = "deterministic samples n=2..40 and 97,500 x 5 shapes x 6 concentrations, unweighted and equally weighted"

    def roots(self, tier):
        for p in S.pats(list(range(2, 41, 2 if tier == "quick" else 1)) + [97, 500], mus=(0, 7)):
            for w in (0, 1):
                yield p + (w,)

    def check(self, s):
        al = S.pat_angles(s[:6])
        return judge(al, None if s[6] == 0 else np.full(len(al), 3.0))


class RGrid(Space):
    name = "r-grid"
    bounds = "r = 0..1 in steps of 1/400 x bin sizes: closed forms from r alone"

    def roots(self, tier):
        for i in range(0, 401):
            yield ("r", i)

    def check(self, s):
        r = s[1] / 400
        f = []
        for b in BINS:
            rc = corrected(r, b)
            if rc > 1:
                continue
            if not close(D.circ_var(r=r, bin_size=b), 1 - rc):
                f.append(f"circ_var r={r} bin={b}")
            if not close(D.angular_var(r=r, bin_size=b), 2 * (1 - rc)):
                f.append(f"angular_var r={r} bin={b}")
            if not close(D.angular_std(r=r, bin_size=b), math.sqrt(2 * (1 - rc))):
                f.append(f"angular_std r={r} bin={b}")
            if rc > 0 and not close(D.circ_std(r=r, bin_size=b), math.sqrt(-2 * math.log(rc))):
                f.append(f"circ_std r={r} bin={b}")
        return r, f


def spaces(tier):
    return [Lat(tier), Grp(), Pat(), RGrid()]
