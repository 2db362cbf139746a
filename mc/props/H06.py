"""Multi-sample tests: statistics and p-values agree with independent re-derivations."""
import itertools
import math

import numpy as np
from scipy import stats

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.hypothesis as H
from pycircstat2 import Circular
from pycircstat2.descriptive import circ_kappa, circ_median


def sf_f(x, a, b):
    return float(stats.f.sf(x, a, b)) if not math.isnan(x) else math.nan


def sf_c(x, k):
    return float(stats.chi2.sf(x, k)) if not math.isnan(x) else math.nan


def RR(a):
    return math.hypot(math.fsum(map(math.cos, a)), math.fsum(map(math.sin, a)))


def ref_ww(ss):
    k, N = len(ss), sum(map(len, ss))
    Rs = [RR(a) for a in ss]
    kap = O.kappa_ml(sum(Rs) / N)
    K = 1 + 3 / (8 * kap)
    R = RR([x for a in ss for x in a])
    F = K * (N - k) * (sum(Rs) - R) / (N - sum(Rs)) / (k - 1)
    return F, sf_f(F, k - 1, N - k), k - 1, N - k, k, N


def ref_u2(s1, s2):
    a, b = [sorted(O.wrap(x) for x in s) for s in (s1, s2)]
    n1, n2 = len(a), len(b)
    N = n1 + n2
    al = sorted(a + b)
    d = [sum(x <= v for x in a) / n1 - sum(x <= v for x in b) / n2 for v in al]
    U2 = n1 * n2 / N ** 2 * (math.fsum(x * x for x in d) - math.fsum(d) ** 2 / N)
    return U2, min(1.0, 2 * math.exp(-19.74 * U2))


def ref_wheeler(ss):
    N = sum(map(len, ss))
    al = sorted({O.wrap(x) for s in ss for x in s})
    rank = {v: i + 1 for i, v in enumerate(al)}
    W = 0.0
    for s in ss:
        b = [O.TAU * rank[O.wrap(x)] / N for x in s]
        C, Sn = math.fsum(map(math.cos, b)), math.fsum(map(math.sin, b))
        W += (C * C + Sn * Sn) / len(s)
        if len(ss) == 2:
            W = 2 * (N - 1) * (C * C + Sn * Sn) / (len(ss[0]) * len(ss[1]))
            break
    if len(ss) > 2:
        W *= 2
    return W, sf_c(W, 2 * (len(ss) - 1)), 2 * (len(ss) - 1)


def ref_wallraff(ss, ts):
    d = [[round(O.arc(x, t), 11) for x in s] for s, t in zip(ss, ts)]
    n1, n2 = map(len, d)
    U = sum((x > y) + 0.5 * (x == y) for x in d[0] for y in d[1])
    U = min(U, n1 * n2 - U)
    z = (U - n1 * n2 / 2 + 0.5) / math.sqrt(n1 * n2 * (n1 + n2 + 1) / 12)
    return U, math.erfc(abs(z) / math.sqrt(2))


def ref_anova(ss, method, fmod, kappa=None):
    k, N = len(ss), sum(map(len, ss))
    al = [x for s in ss for x in s]
    Rs = [RR(s) for s in ss]
    R = RR(al)
    kap = O.kappa_ml(R / N) if kappa is None else kappa
    if method == "F-test":
        ms_b = (sum(Rs) - R) / (k - 1)
        ms_w = (N - sum(Rs)) / (N - k)
        F = ms_b / ms_w * ((1 + 3 / (8 * kap)) if fmod else 1)
        return F, sf_f(F, k - 1, N - k), kap, R
    mu, _ = O.mean_r(al)
    t2 = 2 * kap * math.fsum(r * (1 - math.cos(O.mean_r(s)[0] - mu)) for r, s in zip(Rs, ss))
    t1 = 1 - (sum(1 / len(s) for s in ss) - 1 / N) / (4 * kap)
    return t1 * t2, sf_c(t1 * t2, k - 1), kap, R


def ref_art(s1, s2):
    return math.sqrt(len(s1) * len(s2) / (len(s1) + len(s2))) * math.fsum(O.arc(x, y) for x in s1 for y in s2)


def ref_conc(s1, s2):
    n1, n2 = len(s1), len(s2)
    F = (n2 - 1) * (n1 - RR(s1)) / ((n1 - 1) * (n2 - RR(s2)))
    return F, 2 * float(stats.f.sf(F, n1 - 1, n2 - 1) if F >= 1 else stats.f.cdf(F, n1 - 1, n2 - 1))


def cov(x, y):
    mx, my = math.fsum(x) / len(x), math.fsum(y) / len(y)
    return math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / (len(x) - 1)


def ref_rao_hom(ss):
    T_, sT, U_, sU = [], [], [], []
    for s in ss:
        c, d = [math.cos(x) for x in s], [math.sin(x) for x in s]
        n = len(s)
        C, Sn = math.fsum(c) / n, math.fsum(d) / n
        vc, vs, cs = cov(c, c), cov(d, d), cov(c, d)
        # delta method for tan(mean direction) and squared resultant
        g = (-Sn / C ** 2, 1 / C)
        T_.append(Sn / C)
        sT.append((g[0] ** 2 * vc + g[1] ** 2 * vs + 2 * g[0] * g[1] * cs) / n)
        h = (2 * C, 2 * Sn)
        U_.append(C * C + Sn * Sn)
        sU.append((h[0] ** 2 * vc + h[1] ** 2 * vs + 2 * h[0] * h[1] * cs) / n)

    def Hs(v, s):
        m = math.fsum(a / b for a, b in zip(v, s)) / math.fsum(1 / b for b in s)
        return math.fsum((a - m) ** 2 / b for a, b in zip(v, s))
    return Hs(T_, sT), Hs(U_, sU)


def ref_eqk(ss):
    k, N = len(ss), sum(map(len, ss))
    ns = [len(s) for s in ss]
    rb = [RR(s) / len(s) for s in ss]
    r = RR([x for s in ss for x in s]) / N
    if r < 0.45 or r <= 0.7:
        if r < 0.45:
            if max(rb) * 2 * math.sqrt(3 / 8) > 1:
                return None
            w = [4 * (n - 4) / 3 for n in ns]
            g = [math.asin(math.sqrt(3 / 8) * 2 * x) for x in rb]
            reg = "small"
        else:
            w = [(n - 3) / 0.798 for n in ns]
            g = [math.asinh((x - 1.089) / 0.258) for x in rb]
            reg = "moderate"
        m = math.fsum(a * b for a, b in zip(w, g)) / math.fsum(w)
        st = math.fsum(a * (b - m) ** 2 for a, b in zip(w, g))
    else:
        v = [n - 1 for n in ns]
        d = (sum(1 / x for x in v) - 1 / (N - k)) / (3 * (k - 1))
        st = ((N - k) * math.log((N - sum(n * x for n, x in zip(ns, rb))) / (N - k)) -
              math.fsum(vi * math.log((n - n * x) / vi) for vi, n, x in zip(v, ns, rb))) / (1 + d)
        reg = "large"
    return st, sf_c(st, k - 1), O.kappa_ml(r), r, k - 1, reg


def groups(s):
    """state (kind, ns, conc, spread, mu) -> list of samples"""
    kind, ns, ci, sp, mu = s
    out = []
    for i, n in enumerate(ns):
        a = S.pat_angles(("P", kind, n, ci[i % len(ci)], mu, 1))
        out.append(np.mod(a + sp * 0.35 * i + 0.0131 * i, O.TAU))
    return out


SIZES = ((5, 5), (5, 9), (12, 7), (20, 26), (5, 6, 7), (8, 8, 8), (12, 5, 9, 10))


def group_states(tier, sizes=SIZES, kinds=("vm", "bi", "skew"), mus=(0, 10)):
    concs = ((2,), (3,), (4,), (1,), (3, 4), (0, 2), (4, 3, 2))
    for ns in sizes:
        for k in kinds:
            for c in concs:
                for sp in (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 5, 9):
                    for mu in mus if tier == "quick" else (0, 2, 5, 7, 10):
                        yield (k, ns, c, sp, mu)


class Ref(Space):
    name = "multi-sample-reference"
    chunk = 8

    def __init__(self, tier):
        self.tier = tier
        self.bounds = f"group layouts {SIZES} x 3 shapes x 7 concentration patterns x spreads x origins"

    def roots(self, tier):
        yield from group_states(tier)

    def check(self, s):
        ss = groups(s)
        ls = [list(map(float, a)) for a in ss]
        k = len(ss)
        f = []

        def cmp(what, got, want, rtol=1e-6, atol=1e-8):
            if not close(got, want, rtol, atol):
                f.append(f"{what}: {[float(x) for x in got]} expected {[float(x) for x in want]}")

        r = T.call(H.watson_williams_test, ss)
        cmp("watson_williams_test", (r.F, r.pval, r.df_between, r.df_within, r.k, r.N), ref_ww(ls), 1e-6)
        r = H.wheeler_watson_test(ss)
        if min(T.circ_gap(np.hstack(ss)), 1) > 1e-9:
            cmp("wheeler_watson_test", (r.W, r.pval, r.df), ref_wheeler(ls))
        for m in ("F-test", "LRT"):
            for fm in (True, False):
                for kap in (None, 2.5):
                    r = H.circ_anova(ss, method=m, f_mod=fm, kappa=kap)
                    want = ref_anova(ls, m, fm, kap)
                    cmp(f"circ_anova {m} f_mod={fm} kappa={kap}", (r.statistic, r.pval, r.kappa, r.R_all), want)
                    if not (close(r.R, [RR(a) for a in ls], 1e-9, 1e-8) and r.method == m and len(r.mu) == k):
                        f.append("circ_anova group summaries")
                    if m == "F-test":
                        n, N = k, sum(map(len, ls))
                        if tuple(r.df) != (k - 1, N - k, N - 1) or not close(r.SS[0] + r.SS[1], r.SS[2], 1e-9, 1e-9):
                            f.append(f"circ_anova table {r.df} {r.SS}")
                    elif r.df != k - 1:
                        f.append("circ_anova LRT df")
        tan = min(abs(math.fsum(map(math.cos, a)) / len(a)) for a in ls)
        r = H.rao_homogeneity_test(ss)
        hp, hd = ref_rao_hom(ls)
        if tan > 1e-2:
            cmp("rao_homogeneity_test polar", (r.H_polar, r.pval_polar), (hp, sf_c(hp, k - 1)), 1e-5, 1e-6)
        cmp("rao_homogeneity_test disp", (r.H_disp, r.pval_disp), (hd, sf_c(hd, k - 1)), 1e-5, 1e-6)
        for al in (0.05, 0.3):
            r = H.rao_homogeneity_test(ss, alpha=al)
            if tan > 1e-2 and abs(r.pval_polar - al) > 1e-9 and r.reject_polar != (r.pval_polar < al) or abs(r.pval_disp - al) > 1e-9 and r.reject_disp != (r.pval_disp < al):
                f.append(f"rao_homogeneity_test decision at {al}: {r}")
        want = ref_eqk(ls)
        if want is not None:
            r = T.call(H.equal_kappa_test, ss)
            if not close((r.statistic, r.pval, r.kappa_all, r.rho_all, r.df), want[:5], 1e-6, 1e-7) or r.regime != want[5]:
                f.append(f"equal_kappa_test: {r} expected {want}")
            if not close(r.rho, [RR(a) / len(a) for a in ls], 1e-9, 1e-9) or not close(r.kappa, [O.kappa_ml(RR(a) / len(a)) for a in ls], 1e-6, 1e-8):
                f.append("equal_kappa_test group summaries")
        med = float(circ_median(np.hstack(ss)))
        if not math.isnan(med):
            al = np.hstack(ss)
            if T.side_margin(al, med) > 1e-9 or len(al) % 2 == 1:
                ms = [sum(1 for x in a if -math.pi < O.adiff(x, med) < -1e-9) for a in ls]
                onb = [x for x in al if abs(O.arc(float(x), med) - math.pi) < 1e-9 or 0 < O.arc(float(x), med) < 1e-9]
                M, N = sum(ms), len(al)
                if 0 < M < N and not onb:
                    P = N * N / (M * (N - M)) * math.fsum(m * m / len(a) for m, a in zip(ms, ls)) - N * M / (N - M)
                    for lev in (0.05, 0.4):
                        r = H.common_median_test(ss, alpha=lev)
                        cmp("common_median_test", (r.statistic, r.pval), (P, sf_c(P, k - 1)))
                        if abs(r.pval - lev) > 1e-9 and (r.reject != (r.pval < lev) or math.isnan(r.common_median) != r.reject or (not r.reject and not close(r.common_median, med))):
                            f.append(f"common_median_test decision {r}")
        if k == 2:
            r = H.watson_u2_test(ss)
            cmp("watson_u2_test", (r.U2, r.pval), ref_u2(*ls))
            for t in (0.0, 2.0, (1.0, 4.0)):
                ts = t if isinstance(t, tuple) else (t, t)
                r = H.wallraff_test(ss, angle=np.array(t) if isinstance(t, tuple) else t)
                cmp("wallraff_test", (r.U, r.pval), ref_wallraff(ls, ts))
            r = H.angular_randomisation_test(ss, n_simulation=2, seed=3)
            cmp("angular_randomisation_test", (r.statistic,), (ref_art(*ls),))
            r = T.call(H.concentration_test, *ss)
            F, p = ref_conc(*ls)
            cmp("concentration_test", (r.f_stat, r.pval, r.df1, r.df2), (F, min(1, p), len(ls[0]) - 1, len(ls[1]) - 1))
        return (k, s[1], s[2]), f


class Ties(Space):
    """Watson's U2 with ties: every pair of lattice multisets"""
    name = "u2-with-ties"

    def __init__(self, tier):
        self.m = 4 if tier == "quick" else 5
        self.nmax = 4
        self.bounds = f"all pairs of multisets of 2..{self.nmax} points on {self.m} positions"

    def roots(self, tier):
        ms = [c for n in range(2, self.nmax + 1) for c in itertools.combinations_with_replacement(range(self.m), n)]
        for a in ms:
            for b in ms:
                yield (self.m, a, b)

    def check(self, s):
        m, a, b = s
        x = [O.TAU * k / m + 0.3 for k in a]
        y = [O.TAU * k / m + 0.3 for k in b]
        r = H.watson_u2_test([np.array(x), np.array(y)])
        f = []
        if not close((r.U2, r.pval), ref_u2(x, y), 1e-9, 1e-12):
            f.append(f"watson_u2_test with ties: {r}, expected {ref_u2(x, y)}")
        return round(r.U2, 6), f


def spaces(tier):
    return [Ref(tier), Ties(tier)]
