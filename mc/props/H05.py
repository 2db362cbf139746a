"""One-sample tests: statistics and p-values agree with independent re-derivations."""
import math
from fractions import Fraction

import numpy as np
from scipy import stats

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.hypothesis as H
from pycircstat2.descriptive import circ_mean_ci, circ_median


def ref_rayleigh(a):
    n = len(a)
    _, r = O.mean_r(a)
    R = n * r
    return r, n * r * r, math.exp(math.sqrt(1 + 4 * n + 4 * (n * n - R * R)) - (1 + 2 * n))


def ref_V(a, t):
    n = len(a)
    V = math.fsum(math.cos(x - t) for x in a)
    u = V * math.sqrt(2 / n)
    return V, u, 0.5 * math.erfc(u / math.sqrt(2))


def ref_binom_two_sided(k, n):
    lo = min(k, n - k)
    p = Fraction(2 * sum(math.comb(n, i) for i in range(lo + 1)), 2 ** n)
    return float(min(p, Fraction(1)))


def ref_wilcoxon(d):
    """signed ranks without ties or zeros, exact null distribution by counting"""
    n = len(d)
    order = sorted(range(n), key=lambda i: abs(d[i]))
    wp = sum(r + 1 for r, i in enumerate(order) if d[i] > 0)
    tot = n * (n + 1) // 2
    cnt = [1] + [0] * tot
    for r in range(1, n + 1):
        for s in range(tot, r - 1, -1):
            cnt[s] += cnt[s - r]
    st = min(wp, tot - wp)
    p = Fraction(2 * sum(cnt[: st + 1]), 2 ** n)
    return float(st), float(min(p, Fraction(1)))


def ref_kuiper(a):
    u = sorted(O.wrap(float(x)) / O.TAU for x in a)
    n = len(u)
    dp = max((i + 1) / n - x for i, x in enumerate(u))
    dm = max(x - i / n for i, x in enumerate(u))
    f = math.sqrt(n) + 0.155 + 0.24 / math.sqrt(n)
    V = f * (dp + dm)
    p = 0.0
    for m in range(1, 50):
        m2 = m * m
        p += 2 * (4 * m2 * V * V - 1) * math.exp(-2 * m2 * V * V) - 8 * V / (3 * f) * m2 * (4 * m2 * V * V - 3) * math.exp(-2 * m2 * V * V)
    return V, p


def ref_watson(a):
    """U2 = n * integral of (Fn - F - mean(Fn - F))^2, integrated exactly between the jumps"""
    u = sorted(O.wrap(float(x)) / O.TAU for x in a)
    n = len(u)
    pts = [0.0] + u + [1.0]
    I1 = math.fsum((i / n) * (b - a_) - (b * b - a_ * a_) / 2 for i, (a_, b) in enumerate(zip(pts, pts[1:])))
    I2 = math.fsum((i / n) ** 2 * (b - a_) - (i / n) * (b * b - a_ * a_) + (b ** 3 - a_ ** 3) / 3 for i, (a_, b) in enumerate(zip(pts, pts[1:])))
    U2 = n * (I2 - I1 * I1)
    p = 2 * math.fsum((-1) ** (m - 1) * math.exp(-2 * m * m * math.pi ** 2 * U2) for m in range(1, 51))
    return U2, p


def ref_rao(a):
    v = sorted(O.wrap(float(x)) for x in a)
    n = len(v)
    sp = [b - a_ for a_, b in zip(v, v[1:])] + [v[0] + O.TAU - v[-1]]
    return math.degrees(sum(max(0.0, x - O.TAU / n) for x in sp))


def ref_range(a):
    v = sorted(O.wrap(float(x)) for x in a)
    n = len(v)
    gap = max([b - a_ for a_, b in zip(v, v[1:])] + [v[0] + O.TAU - v[-1]])
    g = Fraction(gap / O.TAU)
    p = Fraction(0)
    k = 1
    while k <= n and k * g < 1:
        p += (-1) ** (k - 1) * math.comb(n, k) * (1 - k * g) ** (n - 1)
        k += 1
    return O.TAU - gap, float(p), gap


class Ref(Space):
    name = "one-sample-reference"
    chunk = 8

    def __init__(self, tier):
        self.tier = tier
        self.max_depth = 1
        self.bounds = "samples n=1..60 x 5 shapes x 6 concentrations; all sorted lattice samples (7 points, n<=5); growing by one observation"

    def roots(self, tier):
        ns = tuple(range(2, 24)) + (33, 60) if tier == "quick" else tuple(range(2, 61))
        yield from S.pats(ns, mus=(0, 5) if tier == "quick" else range(S.NMU))
        yield from S.pats((150,), mus=(2,))
        yield from S.seqs(7 if tier == "quick" else 9, 5 if tier == "quick" else 6, nmin=1, offs=(1,), canonical=True)

    def actions(self, s):
        if s[0] == "S" and len(s[3]) < 6:
            for k in range(s[3][-1], s[1]):
                yield ("append", k), ("S", s[1], s[2], s[3] + (k,), s[4] + (0,))

    def check(self, s):
        a = S.angles(s)
        n = len(a)
        f = []

        def cmp(what, got, want, rtol=1e-7, atol=1e-9):
            if not close(got, want, rtol, atol):
                f.append(f"{what}: {[float(x) for x in np.ravel(got)]} expected {[float(x) for x in np.ravel(want)]}")

        r = H.rayleigh_test(alpha=a)
        want = ref_rayleigh(a)
        cmp("rayleigh_test", (r.r, r.z, r.pval), want, 1e-6)
        if r.bootstrap_pval is not None:
            f.append("bootstrap p-value reported although none was requested")
        r2 = H.rayleigh_test(r=min(1.0, want[0]), n=n)
        cmp("rayleigh_test(r, n)", (r2.r, r2.z, r2.pval), want, 1e-6)
        for t in (0.0, 0.9, 4.0):
            r = H.V_test(angle=t, alpha=a)
            want = ref_V(a, t)
            cmp("V_test", (r.V, r.u, r.pval), want, 1e-7, 1e-7)
            m, rr = O.mean_r(a)
            if rr > 1e-6:
                r = H.V_test(angle=t, mean=m, r=min(1.0, rr), n=n)
                cmp("V_test(mean, r, n)", (r.V, r.u, r.pval), want, 1e-7, 1e-7)
            if T.right_margin(a, t) > 1e-6:
                r = H.batschelet_test(angle=t, alpha=a)
                C = sum(1 for x in a if O.arc(float(x), t) > math.pi / 2)
                cmp("batschelet_test", (r.C, r.pval), (C, ref_binom_two_sided(C, n)))
            if T.side_margin(a, t) > 1e-6:
                d = [O.adiff(float(x), t) for x in a]
                n1, n2 = sum(x < 0 for x in d), sum(x > 0 for x in d)
                r = H.binomial_test(alpha=a, md=t)
                cmp("binomial_test", (r.pval, r.n_eff, r.n1, r.n2), (ref_binom_two_sided(n1, n), n, n1, n2))
                if n <= 33 and T.tie_gap([abs(x) for x in d]) > 1e-9:
                    r = H.symmetry_test(alpha=a, median=t)
                    cmp("symmetry_test", (r.statistic, r.pval), ref_wilcoxon(d))
        if T.circ_gap(a) > 1e-6:
            for x0 in (a[0], a[-1] + O.TAU, a[n // 2] - O.TAU):
                d = [O.adiff(float(x), float(x0)) for x in a]
                d = [0.0 if abs(x) < 1e-9 else x for x in d]
                if min(abs(abs(x) - math.pi) for x in d) < 1e-6:
                    continue
                n1, n2 = sum(x < 0 for x in d), sum(x > 0 for x in d)
                r = H.binomial_test(alpha=a, md=x0)
                cmp("binomial_test at an observation", (r.pval, r.n_eff, r.n1, r.n2), (ref_binom_two_sided(n1, n - 1) if n > 1 else 1.0, n - 1, n1, n2))
        m, w = T.halfcircle_min(a)
        if w > 0.02:
            r = H.omnibus_test(alpha=a)
            if n == 2 * m:
                A, p = math.inf, 1.0
            else:
                A = math.pi * math.sqrt(n) / (2 * (n - 2 * m))
                p = float(Fraction((n - 2 * m) * math.comb(n, m), 2 ** (n - 1)))
            if r.m != m or not close(r.pval, p, 1e-7, 1e-300) or (math.isinf(A) != math.isinf(r.A)) or (not math.isinf(A) and not close(r.A, A)):
                f.append(f"omnibus_test: A={r.A} p={r.pval} m={r.m}, expected A={A} p={p} m={m}")
            if w > 0.005 * 2:
                r = H.omnibus_test(alpha=a, scale=3)
                if r.m != m:
                    f.append(f"omnibus_test(scale=3): m={r.m}, expected {m}")
        V, p = ref_kuiper(a)
        r = H.kuiper_test(alpha=a, n_simulation=1)
        cmp("kuiper_test", (r.V, r.pval), (V, min(1.0, max(0.0, p))), 1e-6, 1e-8)
        if r.mode != "asymptotic" or r.n_simulation != 1:
            f.append("kuiper_test mode")
        U2, p = ref_watson(a)
        r = H.watson_test(alpha=a, n_simulation=1)
        cmp("watson_test", (r.U2, r.pval), (U2, min(1.0, max(0.0, p))), 1e-6, 1e-8)
        r = H.rao_spacing_test(alpha=a, n_simulation=2, seed=1)
        cmp("rao_spacing_test", r.statistic, ref_rao(a), 1e-7, 1e-6)
        if n >= 2 and n <= 60:
            rg, p, gap = ref_range(a)
            r = H.circ_range_test(a)
            if abs(O.TAU / gap - round(O.TAU / gap)) > 1e-9 or n > 1:
                cmp("circ_range_test", (r.range_stat, r.pval), (rg, p), 1e-6, 1e-6)
        return (s[0], n, round(float(V), 2)), f


class EvenRange(Space):
    """the range test where its alternating series cancels: large, evenly spread samples"""
    name = "range-test-even-samples"

    def __init__(self, tier):
        self.bounds = "n in 10 sizes up to 300 (500) x 5 amounts of jitter"

    def roots(self, tier):
        for n in (5, 20, 40, 60, 80, 100, 150, 200, 250, 300) + ((400, 500) if tier != "quick" else ()):
            for j in range(5):
                yield (n, j)

    def check(self, s):
        n, j = s
        a = np.mod((np.arange(n) + j * 0.4 * np.sin(1.7 * np.arange(n) ** 2)) * O.TAU / n + 0.1, O.TAU)
        r = H.circ_range_test(a)
        rg, p, gap = ref_range(a)
        f = []
        if not close((r.range_stat, r.pval), (rg, p), 1e-6, 1e-6):
            f.append(f"circ_range_test {r}, expected {rg}, {p}")
        return (n, round(p, 3)), f


class ChiSq(Space):
    name = "chi-square-frequencies"

    def __init__(self, tier):
        self.k = 5 if tier == "quick" else 6
        self.bounds = f"all frequency vectors of 2..{self.k} bins with entries 0..4"

    def roots(self, tier):
        import itertools
        for k in range(2, self.k + 1):
            for w in itertools.combinations_with_replacement(range(5), k):
                if sum(w):
                    yield w

    def actions(self, s):
        yield ("cyc",), s[1:] + s[:1]
        yield ("swap",), (s[1], s[0]) + s[2:]

    max_depth = 2

    def check(self, s):
        e = sum(s) / len(s)
        c = math.fsum((x - e) ** 2 / e for x in s)
        r = H.chisquare_test(np.array(s))
        f = []
        if not close((r.chi2, r.pval), (c, stats.chi2.sf(c, len(s) - 1)), 1e-9, 1e-12):
            f.append(f"chi-square of {s}: {r.chi2}, {r.pval}; expected {c}")
        r2 = H.chisquare_test(list(s))
        if r2 != r:
            f.append("list and array differ")
        return None, f


class Defaults(Space):
    """defaults taken from the sample: median of the symmetry test, CI of the one-sample test"""
    name = "sample-defaults"
    chunk = 8

    def __init__(self, tier):
        self.bounds = "samples n=8..40 x 5 shapes x 3 concentrations"

    def roots(self, tier):
        yield from S.pats((8, 13, 26, 40), concs=(2, 3, 4), mus=(0, 11))

    def check(self, s):
        a = S.angles(s)
        f = []
        m = float(circ_median(a))
        if not math.isnan(m):
            x, y = H.symmetry_test(alpha=a), H.symmetry_test(alpha=a, median=m)
            if not close((x.statistic, x.pval), (y.statistic, y.pval)):
                f.append(f"symmetry_test default median: {x} vs {y}")
        for t in (0.1, 3.0):
            lb_ub = T.call(circ_mean_ci, alpha=a)
            r = T.call(H.one_sample_test, angle=t, alpha=a)
            if lb_ub[0] == "ValueError":
                if not (isinstance(r, tuple) and r[0] == "ValueError"):
                    f.append("one_sample_test answers although the interval is refused")
                continue
            lb, ub = lb_ub
            if not close(r.ci, (lb, ub)) or bool(r.reject) == O.within(t, lb, ub) or r.angle != t:
                f.append(f"one_sample_test: {r}, interval ({lb},{ub})")
        return None, f


def spaces(tier):
    return [Ref(tier), EvenRange(tier), ChiSq(tier), Defaults(tier)]
