"""Confidence intervals of the mean direction."""
import itertools
import math

import numpy as np
from scipy.stats import chi2, norm

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D

CIS = (0.5, 0.8, 0.9, 0.95, 0.99, 0.999)


def zar(r, n, ci):
    """half-width, Zar (2010) eq. 26.24/26.25; None = refused"""
    x = chi2.ppf(ci, 1)
    if n < 8 or r < math.sqrt(x / (2 * n)):
        return None
    R = n * r
    if r <= 0.9:
        c = math.sqrt(2 * n * (2 * R * R - n * x) / (4 * n - x)) / R
    else:
        c = math.sqrt(n * n - (n * n - R * R) * math.exp(x / n)) / R if n * n >= (n * n - R * R) * math.exp(x / n) else float("nan")
    return math.acos(min(1.0, c)) if c == c else float("nan")


def disp(delta, n, ci):
    s = math.sqrt(delta / n) * norm.ppf(0.5 + ci / 2)
    return None if n < 25 or s >= 1 else math.asin(s)


def call(**k):
    try:
        return D.circ_mean_ci(**k)
    except ValueError:
        return None


def judge(got, mean, d, what, f):
    if d is None:
        if got is not None:
            f.append(f"{what}: {got} although the interval is undefined")
        return
    if got is None:
        f.append(f"{what}: refused, expected half-width {d}")
        return
    if math.isnan(d):
        return
    lb, ub = got
    # sqrt/acos near the extremes amplify rounding
    tol = 1e-8 + 3e-8 / max(d, 1e-4)
    if not (aclose(lb, mean - d, tol) and aclose(ub, mean + d, tol)):
        f.append(f"{what}: ({lb},{ub}) expected mean {mean} -+ {d}")
    if not (0 <= lb < O.TAU and 0 <= ub < O.TAU):
        f.append(f"{what}: bounds {lb},{ub} outside [0,2pi)")
    if not O.within(mean, lb, ub, 1e-7):
        f.append(f"{what}: mean {mean} outside ({lb},{ub})")


class Grid(Space):
    name = "approximate-grid"
    bounds = "mean on a 12-lattice x r=i/50 x n=5..40,100,1000 x 6 levels through mean/r/n"

    def roots(self, tier):
        for mu in range(0, 12, 1 if tier == "thorough" else 3):
            for n in list(range(5, 41)) + [100, 1000]:
                yield (mu, n)

    def check(self, s):
        mu, n = s
        m = O.TAU * mu / 12
        f = []
        for i in range(1, 51):
            r = i / 50
            prev = -1
            for ci in CIS:
                d = zar(r, n, ci)
                if d is not None and abs(r - math.sqrt(chi2.ppf(ci, 1) / (2 * n))) < 1e-9:
                    continue
                g = call(mean=m, r=r, n=n, ci=ci, method="approximate")
                judge(g, m, d, f"approximate r={r} n={n} ci={ci}", f)
                if g is not None and not math.isnan(g[0]):
                    w = O.wrap(g[1] - g[0])
                    if w > O.TAU - 1e-6:
                        w = 0
                    if w < prev - 1e-7:
                        f.append(f"interval at ci={ci} narrower than at a lower level (r={r}, n={n})")
                    prev = w
        return s, f


class Samples(Space):
    name = "samples"
    bounds = "deterministic samples n=6..60,200 x 4 shapes x 5 concentrations x 4 locations x weights: approximate and dispersion intervals"

    def roots(self, tier):
        ns = list(range(6, 61, 1 if tier == "thorough" else 3)) + [24, 25, 26, 200]
        for p in S.pats(sorted(set(ns)), kinds=("vm", "bi", "skew", "ties"), concs=range(1, 6), mus=(0, 3, 6, 11)):
            for w in (0, 1):
                yield p + (w,)

    def check(self, s):
        al = S.pat_angles(s[:6])
        w = None if s[6] == 0 else np.arange(len(al)) % 3 + 1
        wl = None if w is None else list(w)
        n = len(al) if w is None else int(w.sum())
        m, r = O.mean_r(list(al), wl)
        f = []
        if r < 1e-4 or 1 - r < 1e-9:
            return None, []
        delta = O.dispersion(list(al), wl)
        for ci in CIS:
            judge(call(alpha=al, w=w, ci=ci, method="approximate"), m, zar(r, n, ci), f"approximate ci={ci} n={n}", f)
            judge(call(alpha=al, w=w, ci=ci, method="dispersion"), m, disp(delta, n, ci), f"dispersion ci={ci} n={n}", f)
            judge(call(alpha=al, w=w, mean=m, ci=ci, method="dispersion"), m, disp(delta, n, ci), f"dispersion(mean) ci={ci} n={n}", f)
        g = call(alpha=al, w=w)
        judge(g, m, zar(r, n, 0.95), "default method", f)
        try:
            D.circ_mean_ci(alpha=al, method="nonsense")
            f.append("unknown method accepted")
        except ValueError:
            pass
        return (n, round(r, 4)), f


def pivots(c, s):
    """Fisher (1993) sec. 8.3.5: square root of the covariance of (cos, sin)"""
    U = np.array([[np.mean((c - c.mean()) ** 2), np.mean((c - c.mean()) * (s - s.mean()))], [0, np.mean((s - s.mean()) ** 2)]])
    U[1, 0] = U[0, 1]
    lam, Q = np.linalg.eigh(U)
    return lam, Q


def boot_direction(al, idx):
    c, s = np.cos(al), np.sin(al)
    z0 = np.array([c.mean(), s.mean()])
    lam, Q = pivots(c, s)
    v0 = Q @ np.diag(np.sqrt(np.clip(lam, 0, None))) @ Q.T
    cb, sb = c[idx], s[idx]
    lb, Qb = pivots(cb, sb)
    if lb.min() < 1e-9:
        return None
    wB = Qb @ np.diag(1 / np.sqrt(lb)) @ Qb.T
    v = z0 + v0 @ wB @ (np.array([cb.mean(), sb.mean()]) - z0)
    return O.wrap(math.atan2(v[1], v[0]))


class Bootstrap(Space):
    name = "bootstrap"
    bounds = "samples n=8..24 x 3 shapes x 3 concentrations x seeds 1..3 x 4 rotations: equivariant, contains the resampled mean, repeatable; weighted = expanded"

    def roots(self, tier):
        for n in (8, 9, 12, 17, 24) if tier == "quick" else range(8, 31):
            for k in ("vm", "skew", "bi"):
                for c in (2, 3, 4):
                    for seed in (1, 2) if tier == "quick" else (1, 2, 3, 4, 5):
                        yield (n, k, c, seed)

    def check(self, s):
        n, k, c, seed = s
        al = S.pat_angles(("P", k, n, c, 0, 1))
        m, r = O.mean_r(list(al))
        B = 120
        f = []

        def run(x, w=None, ci=0.9, B=B):
            np.random.seed(seed)
            try:
                return D.circ_mean_ci(alpha=x, w=w, method="bootstrap", B=B, ci=ci)
            except ValueError:
                return None
        b = run(al)
        p = math.exp(math.sqrt(1 + 4 * n + 4 * (n * n - (n * r) ** 2)) - (1 + 2 * n))
        if abs(p - 0.05) < 1e-3:
            return None, []
        if (b is None) != (p > 0.05):
            f.append(f"bootstrap {b} but Rayleigh p={p}")
        if b is None:
            return "refused", f
        if b != run(al):
            f.append("same numpy seed gives a different interval")
        for phi in (0.9, 2.0, math.pi, 5.5):
            g = run(np.mod(al + phi, O.TAU))
            if g is None or not (aclose(g[0], b[0] + phi, 1e-6) and aclose(g[1], b[1] + phi, 1e-6)):
                f.append(f"rotated by {phi}: {b} -> {g}")
        if k == "vm" and c >= 3 and not O.within(m, b[0], b[1], 0.02):
            f.append(f"sample mean {m} outside the bootstrap interval {b}")
        wide, nar = run(al, ci=0.99), run(al, ci=0.5)
        if wide is None or nar is None or O.wrap(wide[1] - wide[0]) < O.wrap(nar[1] - nar[0]) - 1e-9:
            f.append(f"0.99 interval {wide} narrower than 0.5 interval {nar}")
        w = np.arange(n) % 2 + 1
        a, e = run(al, w=w), run(np.repeat(al, w))
        if a != e and not (a and e and aclose(a[0], e[0]) and aclose(a[1], e[1])):
            f.append(f"weighted bootstrap {a} != expanded {e}")
        for bad in (0, -5):
            try:
                D.circ_mean_ci(alpha=al, method="bootstrap", B=bad)
                f.append(f"B={bad} accepted")
            except ValueError:
                pass
        return (n, k, c, round(b[0], 3)), f


class Resamples(Space):
    """the resampling scheme itself: numpy's resampling choice is answered by an enumeration"""
    name = "bootstrap-resamples"
    bounds = "n=4 concentrated samples (3 spreads x 6 locations): all 4^4 resamples answered to np.random.choice one by one; each bootstrap direction compared with Fisher's pivotal statistic, and the HDI of all of them"

    def roots(self, tier):
        for sp in (0.2, 0.5, 0.8):
            for mu in range(6):
                yield (sp, mu)

    def check(self, s):
        sp, mu = s
        al = np.mod(np.array([0.0, 1.0, 2.2, -0.7]) * sp + mu * math.pi / 3 + 0.1, O.TAU)
        m, r = O.mean_r(list(al))
        draws = []
        dirs = []
        for idx in itertools.product(range(4), repeat=4):
            if len(set(idx)) >= 3:
                d = boot_direction(al, np.array(idx))
                if d is not None:
                    draws.append(idx)
                    dirs.append(d)
        state = {"i": 0}
        real = np.random.choice

        def stub(a, size=None, replace=True, p=None):
            i = state["i"]
            state["i"] += 1
            arr = np.asarray(a)
            if arr.ndim == 0:
                arr = np.arange(int(arr))
            return arr[np.array(draws[i % len(draws)])]
        f = []
        np.random.choice = stub
        try:
            got = D.circ_mean_ci(alpha=al, method="bootstrap", B=len(draws), ci=0.9)
        except ValueError:
            got = None
        finally:
            np.random.choice = real
        if state["i"] == 0 or got is None:
            return "not observable", f
        if state["i"] != len(draws):
            f.append(f"{state['i']} resamples drawn for B={len(draws)}")
        # shortest arc holding floor(0.9 B) of the directions
        srt = sorted(dirs)
        kk = max(1, int(math.floor(0.9 * len(srt))))
        ext = srt + [x + O.TAU for x in srt]
        width = min(ext[i + kk - 1] - ext[i] for i in range(len(srt)))
        gw = O.wrap(got[1] - got[0])
        if abs(gw - width) > 1e-6:
            f.append(f"bootstrap interval {got} has width {gw}, the shortest arc of the {len(srt)} bootstrap directions is {width}")
        for b in got:
            if min(O.arc(b, x) for x in srt) > 1e-6:
                f.append(f"bound {b} is not a bootstrap direction")
        return (round(gw, 4), mu), f


def spaces(tier):
    return [Grid(), Samples(), Bootstrap(), Resamples()]
