"""Harrison-Kanji two-way analysis: reference tables, relabelling / exchange / rotation orbits."""
import itertools
import math

import numpy as np
from scipy.special import ive
from scipy.stats import chi2, f as fdist

from mc import oracle as O
from mc.engine import Space, close

import pycircstat2.hypothesis as H

TAU = 2 * math.pi


def R(xs):
    return math.hypot(math.fsum(map(math.cos, xs)), math.fsum(map(math.sin, xs)))


def ref(al, A, B, inter):
    n = len(al)
    la, lb = sorted(set(A)), sorted(set(B))
    p, q = len(la), len(lb)
    cell = {(a, b): [x for x, i, j in zip(al, A, B) if i == a and j == b] for a in la for b in lb}
    ra = [[x for x, i in zip(al, A) if i == a] for a in la]
    rb = [[x for x, j in zip(al, B) if j == b] for b in lb]
    T = R(al) ** 2 / n
    SA = math.fsum(R(g) ** 2 / len(g) for g in ra) - T
    SB = math.fsum(R(g) ** 2 / len(g) for g in rb) - T
    SC = math.fsum(R(g) ** 2 / len(g) for g in cell.values())
    SI = SC - SA - SB - T
    kk = O.kappa_ml(R(al) / n)
    if kk > 2:
        d1, d2, di = p - 1, q - 1, (p - 1) * (q - 1)
        if inter:
            sr, dr = n - SC, n - p * q
            be = 1 / (1 - 1 / (5 * kk) - 1 / (10 * kk * kk))
        else:
            sr, dr = n - SA - SB - T, di
            be = 1.0
        ms = sr / dr
        F1, F2 = be * SA / d1 / ms, be * SB / d2 / ms
        FI = SI / di / ms
        ps = (fdist.sf(F1, d1, dr), fdist.sf(F2, d2, dr), fdist.sf(FI, di, dr) if inter else float("nan"))
        return kk, ps, dict(DoF=(d1, d2, di if inter else None, dr, n - 1), SS=(SA, SB, SI if inter else None, sr, n - T), F=(F1, F2, FI if inter else None)), sr
    rr = ive(1, kk) / ive(0, kk)
    fac = 2 / (1 - rr * rr)
    c = (fac * SA, fac * SB, fac * SI)
    d = (2 * (p - 1), 2 * (q - 1), (p - 1) * (q - 1))
    return kk, tuple(chi2.sf(x, k) for x, k in zip(c, d)), dict(DoF=d, chi2=c), 1.0


def design(s):
    kind, p, q, m, scale, ks, lab = s
    names_a = [("x", "y", "z"), (2, 0, 1), (10.5, -3.0, 7.0)][lab % 3]
    A, B, al = [], [], []
    i = 0
    for a in range(p):
        for b in range(q):
            mm = m + (1 if kind == "unbal" and (a + b) % 2 else 0)
            for r in range(mm):
                A.append(names_a[a])
                B.append(("u", "v", "w")[b] if lab != 2 else b)
                al.append(scale * ks[(i + i // len(ks)) % len(ks)] + 0.03 * math.sin(7.0 * i * i) + 0.4)
                i += 1
    return al, A, B


class HK(Space):
    name = "two-way-designs"
    chunk = 8
    max_depth = 0
    bounds = "2x2, 2x3 and 3x2 designs with 2-4 observations per cell, all assignments of 2 (or 3) lattice values, 4 spreads, with and without interaction, all generators of relabelling, exchange of factors, order, rotation, full turns, reflection"

    def __init__(self, tier):
        self.big = tier == "thorough"

    def roots(self, tier):
        for scale in (0.25, 0.9, 2.2, TAU / 3):
            for lv, (p, q, m) in ((2, (2, 2, 2)), (2, (2, 3, 2)), (2, (3, 2, 2))) + (((3, (2, 2, 2)), (2, (3, 3, 2)), (2, (2, 2, 4))) if self.big else ()):
                per = (6 if (p, q) == (2, 2) else 5) if not self.big else 9
                for ks in itertools.product(range(lv), repeat=min(per, p * q * m) - (0 if self.big else 1)):
                    for kind in ("bal", "unbal"):
                        yield (kind, p, q, m, scale, (0,) + ks, (sum(ks) + p) % 3)

    def check(self, s):
        al, A, B = design(s)
        n = len(al)
        arr, Aa, Ba = np.array(al), np.array(A), np.array(B)
        f = []
        sig = None
        for inter in (True, False):
            kk, ps, tab, sr = ref(al, A, B, inter)
            if abs(kk - 2) < 1e-6 or sr < 1e-6 * n:
                continue
            r = H.harrison_kanji_test(arr, Aa, Ba, inter=inter)
            if not all(close(g, w, 1e-6, 1e-9) for g, w in zip(r.p_values, ps)):
                f.append(f"inter={inter} p={r.p_values} expected {ps}")
            t = r.anova_table
            if list(t["DoF"])[:2] != list(tab["DoF"])[:2] or [x if x is None or x == x else None for x in list(t["DoF"])] != [x for x in tab["DoF"]]:
                f.append(f"DoF {list(t['DoF'])} expected {tab['DoF']}")
            for col in ("SS", "F", "chi2"):
                if col in tab:
                    g = [np.nan if x is None else float(x) for x in list(t[col])[: len(tab[col])]]
                    w = [np.nan if x is None else float(x) for x in tab[col]]
                    if not close(g, w, 1e-6, 1e-7):
                        f.append(f"inter={inter} {col}={g} expected {w}")
            if list(t.index)[:2] != ["A", "B"] or not close([float(x) for x in list(t["p"])[:2]], ps[:2], 1e-6, 1e-9):
                f.append("table p column / index")
            sig = (kk > 2, round(ps[0], 6))
            eq = []
            o = sorted(range(n), key=lambda i: (i * 5) % n if n % 5 else -i)
            eq.append(("order", H.harrison_kanji_test(arr[o], Aa[o], Ba[o], inter=inter).p_values, ps))
            eq.append(("exchange", H.harrison_kanji_test(arr, Ba, Aa, inter=inter, fn=["q", "p"]).p_values, (ps[1], ps[0], ps[2])))
            eq.append(("rotation", H.harrison_kanji_test(arr + 2.9, Aa, Ba, inter=inter).p_values, ps))
            eq.append(("reflection, turns", H.harrison_kanji_test(TAU * (np.arange(n) % 3) - arr, Aa, Ba, inter=inter).p_values, ps))
            ren = np.array([{v: i for i, v in enumerate(sorted(set(A), reverse=True))}[x] for x in A])
            eq.append(("relabelling", H.harrison_kanji_test(arr.tolist(), ren, Ba, inter=inter).p_values, ps))
            for nm, g, w in eq:
                if not all(close(x, y, 1e-6, 1e-8) for x, y in zip(g, w)):
                    f.append(f"{nm} changes p: {g} expected {w}")
        return sig, f


def spaces(tier):
    return [HK(tier)]
