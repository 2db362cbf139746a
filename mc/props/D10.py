"""Range, quantiles, highest-density interval and kernel density."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D

PROBS = (0.0, 0.05, 0.25, 0.5, 0.6, 0.75, 0.9, 1.0)
CIS = (0.05, 0.3, 0.5, 0.8, 0.95, 0.99)


def crange(al):
    s = sorted(O.wrap(a) for a in al)
    gaps = [b - a for a, b in zip(s, s[1:])] + [s[0] + O.TAU - s[-1]]
    return O.TAU - max(gaps)


def hyndman_fan(d, p, t):
    """Hyndman & Fan (1996), definitions 1 to 9, in R's numbering"""
    x = sorted(d)
    n = len(x)
    a, b = {4: (0, 1), 5: (.5, .5), 6: (0, 0), 7: (1, 1), 8: (1 / 3, 1 / 3), 9: (3 / 8, 3 / 8)}.get(t, (0, 0))
    y = {1: n * p, 2: n * p, 3: n * p - 0.5}.get(t, a + p * (n + 1 - a - b))
    j = math.floor(y + 1e-12)
    g = y - j if abs(y - j) > 1e-12 else 0.0
    if t == 1:
        g = float(g > 0)
    elif t == 2:
        g = 0.5 if g == 0 else 1.0
    elif t == 3:
        g = 0.0 if g == 0 and j % 2 == 0 else 1.0
    lo, hi = x[min(max(j - 1, 0), n - 1)], x[min(max(j, 0), n - 1)]
    return lo + g * (hi - lo)


def judge(al):
    f = []
    alf = [float(a) for a in al]
    n = len(alf)
    e = crange(alf)
    g = float(D.circ_range(al))
    if not (abs(g - e) < 1e-9 or (e < 1e-9 and abs(g - O.TAU) < 1e-9 and False)):
        f.append(f"circ_range={g} expected {e}")
    med = float(D.circ_median(al))
    q = np.asarray(D.circ_quantile(al, np.array(PROBS)))
    if math.isnan(med):
        if not np.all(np.isnan(q)):
            f.append("quantiles of undefined median are not NaN")
        if not np.all(np.isnan(D.circ_quantile(al, [0, 1]))) or not np.all(np.isnan(D.circ_quantile(al, 1))):
            f.append("quantiles 0 and 1 of undefined median are not NaN")
    else:
        d = [O.adiff(a, med) for a in alf]
        if not any(abs(abs(x) - math.pi) < 1e-6 for x in d):
            for p, v in zip(PROBS, q):
                ev = med + O.lin_quantile(d, p)
                if not aclose(float(v), ev, 1e-8):
                    f.append(f"circ_quantile({p})={v} expected {O.wrap(ev)}")
                if not 0 <= v < O.TAU + 1e-12:
                    f.append(f"quantile {v} outside [0,2pi)")
            for t in range(1, 10) if n <= 4 or n > 8 else (n % 9 + 1, 3 * n % 8 + 1):
                for p, v in zip(PROBS, D.circ_quantile(al, np.array(PROBS), type=t)):
                    ev = med + hyndman_fan(d, p, t)
                    if abs(n * p - round(2 * n * p) / 2) > 1e-9 and not aclose(float(v), ev, 1e-8) or n * p == round(n * p) and t != 3 and not aclose(float(v), ev, 1e-8):
                        f.append(f"circ_quantile({p}, type={t})={v} expected {O.wrap(ev)}")
            s1 = np.asarray(D.circ_quantile(al, 0.25)).ravel()
            if len(s1) != 1 or not aclose(float(s1[0]), med + O.lin_quantile(d, 0.25), 1e-8):
                f.append(f"scalar prob quantile {s1}")
            q5 = np.asarray(D.circ_quantile(al))
            if len(q5) != 5 or not all(aclose(float(v), med + O.lin_quantile(d, p), 1e-8) for p, v in zip((0, .25, .5, .75, 1), q5)):
                f.append("default probabilities are not the quartiles")
    srt = sorted(O.wrap(a) for a in alf)
    ext = srt + [x + O.TAU for x in srt]
    for ci in CIS:
        if abs(ci * n - round(ci * n)) < 1e-9 and ci * n != int(ci * n):
            continue                      # floor(ci*n) sits on a rounding boundary
        k = min(n, max(1, int(math.floor(ci * n))))
        w = min(ext[i + k - 1] - ext[i] for i in range(n))
        lo, hi = D.compute_hdi(al, ci)
        if not (0 <= lo < O.TAU and 0 <= hi < O.TAU):
            f.append(f"hdi bounds {lo},{hi}")
        gw = O.wrap(hi - lo)
        if w < 1e-9 and gw > O.TAU - 1e-6:
            gw = 0.0
        if abs(gw - w) > 1e-8:
            f.append(f"hdi({ci}) width {gw}, shortest arc holding {k} of {n} points is {w}")
        inside = sum(O.within(a, lo, hi, 1e-9) for a in alf)
        if inside < k:
            f.append(f"hdi({ci}) holds {inside} < {k} points")
        for b in (lo, hi):
            if min(O.arc(b, a) for a in alf) > 1e-9:
                f.append(f"hdi bound {b} is not a sample point")
    return (n, round(g, 4)), f


def kde_ref(al, h, x):
    """Fisher (1993) 2.2: quartic kernel estimate"""
    t = 0.0
    for a in al:
        e = O.arc(a, x)
        if e < h:
            t += (1 - e * e / (h * h)) ** 2
    return 0.9375 * t / (len(al) * h)


class Lat(Space):
    name = "lattice"

    def __init__(self, tier):
        self.n = 5 if tier == "quick" else 6
        self.bounds = f"every multiset of <={self.n} points of an 11-lattice (offset .137) and a 12-lattice, plus one point displaced by whole turns"

    def roots(self, tier):
        for m, o in ((11, 1), (12, 0)):
            for k in range(m):
                yield ("S", m, o, (k,), (0,))

    def actions(self, s):
        if any(s[4]):
            return
        if len(s[3]) < self.n:
            for l, t in S.g_append(s):
                if t[3][-1] >= s[3][-1]:
                    yield l, t
        if len(s[3]) <= 3:
            yield from S.g_turn(s)

    def check(self, s):
        return judge(S.angles(s))


class Pat(Space):
    name = "patterns"
    bounds = "deterministic samples n=2..50,120 x 5 shapes x 5 concentrations x 3 locations"

    def roots(self, tier):
        for p in S.pats(list(range(2, 51, 1 if tier == "thorough" else 2)) + [120], concs=range(1, 6), mus=(0, 4, 9)):
            yield p

    def check(self, s):
        return judge(S.angles(s))


class Kde(Space):
    name = "density"
    bounds = "samples n=1..40 x shapes x concentrations, bandwidths .2/.7/1.5/3, radius 1/2.5, angles on turn 0, -1 and 2: value on the whole grid against the kernel sum"

    def roots(self, tier):
        for p in S.pats((1, 2, 5, 11, 40), kinds=("vm", "bi", "skew"), concs=(0, 1, 3), mus=(0, 7)):
            for h in (0.2, 0.7, 1.5, 3.0):
                for t in (0, -1, 2):
                    yield p + (h, t)

    def check(self, s):
        al = S.pat_angles(s[:6]) + O.TAU * s[7]
        h = s[6]
        f = []
        for rad in (1, 2.5):
            x, v = D.nonparametric_density_estimation(al, h, rad)
            if not close(x, np.linspace(0, O.TAU, 100)):
                f.append("grid is not 100 points over the circle")
            dens = [kde_ref([float(a) for a in al], h, float(t)) for t in x]
            e = [rad * math.sqrt(1 + math.pi * d) - rad for d in dens]
            if not close(v, e, 1e-7, 1e-9):
                j = int(np.argmax(np.abs(np.asarray(v) - e)))
                f.append(f"kernel density at {x[j]:.4f} is {v[j]} expected {e[j]} (h={h}, radius={rad})")
        if h < math.pi:
            tot = sum(dens[:-1]) * O.TAU / 99
            if abs(tot - 1) > 0.05:
                f.append(f"reference density integrates to {tot}")
        return (len(al), h), f


class Bad(Space):
    name = "validation"
    bounds = "ci outside (0,1), empty samples and unknown quantile types are refused"

    def roots(self, tier):
        for c in (-0.5, 0, 1, 1.5):
            yield ("ci", c)
        yield ("empty", 0)
        for t in (0, 10, -1):
            yield ("type", t)

    def check(self, s):
        try:
            if s[0] == "ci":
                D.compute_hdi(np.array([1.0, 2.0]), s[1])
            elif s[0] == "type":
                D.circ_quantile(np.array([1.0, 2.0, 2.5]), 0.3, type=s[1])
            else:
                D.compute_hdi(np.array([]), 0.9)
        except ValueError:
            return "refused", []
        return "accepted", [f" accepted {s}"]


def spaces(tier):
    return [Lat(tier), Pat(), Kde(), Bad()]
