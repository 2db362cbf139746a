"""Circular median: optimality of the returned candidates, averaging, grouped data."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D

EPS = 1.2e-5      # the library compares mean deviations to 5 decimals


def as_list(v):
    return [float(x) for x in np.atleast_1d(np.asarray(v, dtype=float))]


def devs(al):
    a = np.asarray(al)
    d = np.abs((a[:, None] - a[None, :] + math.pi) % O.TAU - math.pi)
    return d.mean(axis=1)


def counts(al):
    """|#right - #left| for every observation (coincident and antipodal points count on both sides)"""
    a = np.asarray(al)
    d = np.mod(a[:, None] - a[None, :], O.TAU)
    amb = bool(np.any((np.abs(d) > 1e-9) & (np.abs(d) < 2e-5)) or np.any((np.abs(d - O.TAU) > 1e-9) & (np.abs(d - O.TAU) < 2e-5))
               or np.any((np.abs(d - math.pi) > 1e-9) & (np.abs(d - math.pi) < 2e-5)))
    zero = (d < 1e-7) | (d > O.TAU - 1e-7) | (np.abs(d - math.pi) < 1e-7)
    right = (~zero & (d < math.pi)).sum(0)
    left = (~zero & (d > math.pi)).sum(0)
    return np.abs(right - left), amb


def member(v, al, tol=1e-9):
    return any(aclose(v, float(a), tol) for a in al)


def judge_method(al, method, f):
    n = len(al)
    alf = [float(a) for a in al]
    m0, r = O.mean_r(alf)
    raw = D.circ_median(al, method=method, return_average=False)
    vals = as_list(raw)
    avg = float(D.circ_median(al, method=method))
    avgu = float(D.circ_median(al, method=method, average_method="unique"))
    if r > 1 - 1e-13:
        for nm, v in (("median", avg), ("median(unique)", avgu), ("median(candidates)", vals[0])):
            if not aclose(v, alf[0], 1e-7) or not 0 <= v < O.TAU:
                f.append(f"{method} {nm} of coincident points {v}, expected {O.wrap(alf[0])}")
        return "coincident"
    if method == "deviation":
        score = devs(al)
        lo = score.min()
        must = score <= lo + 1e-10
        may = score <= lo + EPS
    else:
        score, amb = counts(al)
        if amb:
            return "ambiguous"
        must = may = score == score.min()
    if all(math.isnan(v) for v in vals):
        if not may.all():
            f.append(f"{method}: NaN although the observations are not all tied (score {score})")
        if not (math.isnan(avg) and math.isnan(avgu)):
            f.append(f"{method}: average of undefined median is {avg}/{avgu}")
        return "nan"
    if must.all() and len(set(np.round(score, 4))) == 1 and n > 1:
        f.append(f"{method}: {vals} although every observation is equally central")
    for v in vals:
        if not 0 <= v < O.TAU:
            f.append(f"{method}: candidate {v} outside [0,2pi)")
        hits = [i for i in range(n) if aclose(v, alf[i], 1e-9)]
        if not hits:
            f.append(f"{method}: candidate {v} is not an observation")
        elif not any(may[i] for i in hits):
            f.append(f"{method}: candidate {v} is not optimal (score {score[hits[0]]} > {score.min()})")
    for i in range(n):
        if must[i] and not member(alf[i], vals):
            f.append(f"{method}: optimal observation {alf[i]} missing from {vals}")
    em, er = O.mean_r(vals)
    if er > 1e-6:
        if not aclose(avg, em, 1e-7):
            f.append(f"{method}: averaged median {avg} is not the circular mean {em} of its candidates")
        u = sorted(set(vals))
        em, er = O.mean_r(u)
        # values one turn apart or equal up to rounding are the same direction
        if er > 1e-6 and min(alf) >= 0 and max(alf) < O.TAU and len({round(x, 7) for x in u}) == len(u) and not aclose(avgu, em, 1e-7):
            f.append(f"{method}: unique-averaged median {avgu} is not the mean {em} of distinct candidates")
    elif er < 1e-10 and not math.isnan(avg):
        f.append(f"{method}: candidates cancel but median is {avg}")
    return (method, len(vals))


def judge(al):
    f = []
    sg = tuple(judge_method(al, m, f) for m in ("deviation", "count"))
    if not math.isnan(float(np.asarray(D.circ_median(al, method="none")))) and O.mean_r([float(a) for a in al])[1] < 1 - 1e-9:
        f.append("method none gives a median")
    for bad in (dict(method="nope"), dict(average_method="nope")):
        if O.mean_r([float(a) for a in al])[1] < 1 - 1e-9:
            try:
                D.circ_median(al, **bad)
                f.append(f"circ_median accepted {bad}")
            except ValueError:
                pass
    return sg, f


class Lat(Space):
    name = "lattice"

    def __init__(self, tier):
        self.m = 10
        self.n = 5 if tier == "quick" else 6
        self.bounds = f"every multiset of <={self.n} points on a 10-lattice and on a 9-lattice (offset .137), plus one point moved by whole turns"

    def roots(self, tier):
        for m, o in ((10, 0), (9, 1)):
            for k in range(m):
                yield ("S", m, o, (k,), (0,))

    def actions(self, s):
        if any(s[4]):
            return
        if len(s[3]) < self.n:
            for l, t in S.g_append(s):
                if t[3][-1] >= s[3][-1]:
                    yield l, t
        if len(s[3]) <= 4:
            yield from S.g_turn(s)

    def check(self, s):
        return judge(S.angles(s))


class Pat(Space):
    name = "patterns"
    bounds = "deterministic samples n=2..60,97,150 x 5 shapes x 5 concentrations x 2 locations"

    def roots(self, tier):
        for p in S.pats(list(range(2, 61)) + [97, 150], concs=range(1, 6), mus=(0, 6)):
            yield p

    def check(self, s):
        return judge(S.angles(s))


class Tight(Space):
    name = "tight"
    bounds = "samples n=3..7 within 1e-2..1e-4 rad: the median is a middle observation, not just the first one"

    def roots(self, tier):
        for n in range(3, 8):
            for sc in (1e-2, 3e-3, 1e-3):
                for order in itertools.permutations(range(n)) if n <= 5 else (tuple(range(n)), tuple(range(n))[::-1], (2, 0, 1) + tuple(range(3, n))):
                    yield ("T", n, sc, order)

    def check(self, s):
        _, n, sc, order = s
        al = np.array([1.0 + sc * i for i in order])
        f = []
        for meth in ("deviation", "count"):
            v = float(D.circ_median(al, method=meth))
            lo, hi = 1.0 + sc * ((n - 1) // 2), 1.0 + sc * (n // 2)
            if not (lo - 1e-4 * sc <= v <= hi + 1e-4 * sc):
                f.append(f"{meth} median {v} of {al} not within the middle observations [{lo},{hi}]")
        return (n, sc), f


class Big(Space):
    name = "chunked"
    bounds = "two samples of 10007 points (the memory-saving branch for n>10000)"

    def roots(self, tier):
        yield ("P", "vm", 10007, 3, 0, 1)
        yield ("P", "skew", 10007, 2, 5, 1)

    def check(self, s):
        al = S.angles(s)
        v = float(D.circ_median(al))
        srt = np.sort(al)
        best = min(float(np.abs((al - x + math.pi) % O.TAU - math.pi).mean()) for x in srt[::23])
        got = float(np.abs((al - v + math.pi) % O.TAU - math.pi).mean())
        return (s[1],), ([] if got <= best + EPS else [f"median {v} has mean deviation {got} > {best}"])


def grouped_expected(k, pat, h):
    cum = np.cumsum(pat) / sum(pat)
    i = int(np.searchsorted(cum, .5 - 1e-12))
    prev = 0 if i == 0 else cum[i - 1]
    return (k + i + (.5 - prev) / (cum[i] - prev)) * h


class Grouped(Space):
    name = "grouped"

    def __init__(self, tier, odd):
        self.odd = odd
        self.name = "grouped-odd" if odd else "grouped"
        self.bounds = ("7, 9, 15, 25 equal bins" if odd else "8..36 (even) equal bins") + "; every frequency pattern over {0,1,3,6} on 4 consecutive cells (3 for 7 and 8 bins), at every position, listed from any class and in either direction: interpolated median of the half-circle"

    def roots(self, tier):
        for nb in (7, 9, 15, 25) if self.odd else (8, 12, 18, 24, 36):
            for pat in itertools.product((0, 1, 3, 6), repeat=3 if nb < 9 else 4):
                if pat[0] == 0 or pat[-1] == 0:
                    continue
                cum = np.cumsum(pat) * 2
                # half the sample on each side of an empty cell: median not unique
                if any(c == cum[-1] / 2 and p == 0 for c, p in zip(cum, pat[1:])):
                    continue
                for k in range(nb):
                    yield ("G", nb, k, pat)

    def check(self, s):
        _, nb, k, pat = s
        h = O.TAU / nb
        al = (np.arange(nb) + 0.5) * h
        w = np.zeros(nb)
        w[:len(pat)] = pat
        w = np.roll(w, k)
        exp = grouped_expected(k, pat, h)
        f = []
        try:
            g = float(D.circ_median(al, w))
            # the same table read from another class, or backwards, or with an origin inside it
            j = (k + 2) % nb
            v = [float(D.circ_median(np.roll(al, -j), np.roll(w, -j))), float(D.circ_median(al[::-1], w[::-1])), float(D.circ_median((al - 1.0) % O.TAU, w)) + 1.0]
            for x, how in zip(v, ("from another class", "backwards", "from another origin")):
                if not aclose(x, exp, 2e-5):
                    f.append(f"grouped median of {pat} at cell {k} of {nb} read {how}: {x}, expected {O.wrap(exp)}")
        except IndexError as e:
            return None, [f"grouped median of {pat} at cell {k} of {nb}: wrong answer (crash {e})"]
        if not aclose(g, exp, 2e-5):
            f.append(f"grouped median of {pat} at cell {k} of {nb}: wrong answer ({g}, expected {O.wrap(exp)})")
        return (round(g, 3),), f


def half_circle(w):
    """F at the nodes of the grid (classes, or half classes for an odd number): mass of the half circle that ends there."""
    nb = len(w)
    sub = 2 if nb % 2 else 1
    m = nb * sub
    cs = np.concatenate([[0], np.cumsum(np.tile(np.repeat(np.asarray(w) / sub, sub), 2))])
    return np.array([cs[j + m] - cs[j + m - m // 2] for j in range(m)]), sub


class GroupedFull(Space):
    name = "grouped-full"
    chunk = 300

    def __init__(self, tier):
        self.tier = tier
        self.bounds = ("every frequency table over {0,1,3} on 6, 7 and 8 classes (thorough: also {0,1} on 9, 10, 11, 12) whose half-circle function crosses n/2 upwards in exactly one place: "
                       "the crossing, or the centre of the run of empty classes there; no other table may fail (3 to 5 classes: every table over {0,1,2,3})")

    def roots(self, tier):
        for nb, vals in ((3, (0, 1, 2, 3, 4)), (4, (0, 1, 2, 3)), (5, (0, 1, 2, 3)), (6, (0, 1, 3)), (7, (0, 1, 3)), (8, (0, 1, 3))) + (((9, (0, 1)), (10, (0, 1)), (11, (0, 1)), (12, (0, 1)), (9, (0, 1, 2))) if tier != "quick" else ()):
            for w in itertools.product(vals, repeat=nb):
                if sum(w) and set(w) != {1}:
                    yield w

    def check(self, w):
        nb, n = len(w), sum(w)
        F, sub = half_circle(w)
        G = F - n / 2
        m, h = len(F), O.TAU / nb
        z = np.abs(G) < 1e-9
        al = (np.arange(nb) + 0.5) * h
        try:
            g = float(D.circ_median(al, np.array(w)))
        except IndexError as e:
            return None, [f"grouped median of {w}: crash {e}"]
        if not (np.isnan(g) or -1e-12 <= g < O.TAU + 1e-12):
            return None, [f"grouped median of {w}: {g}"]
        if z.all():
            return (nb, "none"), [] if np.isnan(g) else [f"grouped median of {w}: {g} although every direction halves the sample"]
        ups = [(j, j + 1) for j in range(m) if G[j] < -1e-9 and G[(j + 1) % m] > 1e-9]
        odd = False
        for j in range(m):
            if z[j] and not z[j - 1]:
                q = j
                while z[(q + 1) % m]:
                    q += 1
                a, b = G[j - 1] < 0, G[(q + 1) % m] > 0
                if a and b:
                    ups.append((j, q))
                odd |= a != b           # touches n/2 without crossing
        if len(ups) != 1 or odd:
            return None, []
        j, q = ups[0]
        tolr = 2e-5
        if z[j % m]:
            e = (j + q) / 2
        else:
            e = j - G[j] / (G[(j + 1) % m] - G[j])
        f = [] if aclose(g, e * h / sub, tolr) else [f"grouped median of {w}: {g}, expected {O.wrap(e * h / sub)}"]
        return (nb, len(set(w))), f


def spaces(tier):
    return [Big(), Lat(tier), Pat(), Tight(), Grouped(tier, False), Grouped(tier, True), GroupedFull(tier)]
