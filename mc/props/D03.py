"""Order, full turns and frequencies: a sample is a multiset of directions."""
import itertools
import math
from functools import lru_cache

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close
from mc.props.D02 import same, summaries, trycall

from pycircstat2 import descriptive as D


def extra(al, w):
    d = {}
    if w is None:
        d["hdi"] = ("arc", D.compute_hdi(al, 0.8))
        d["mean_dev"] = ("inv", D.circ_mean_deviation(al, np.array([0.3, 2.0, 5.5])))
        d["kde"] = ("inv", D.nonparametric_density_estimation(al, 0.9)[1])
        g = np.array(al)
        d["pairsum"] = ("inv", D.circ_pairdist(g, g, metric="geodesic", return_sum=True))
    return d


def full(al, w):
    d = summaries(al, w)
    if d:
        d.update(extra(al, w))
    return d


def diff(b, g, what, tol):
    f = []
    for k in b.keys() & g.keys():
        kind, v = b[k]
        if not same(kind, v, g[k][1], 0.0, 0, tol):
            f.append(f"{k}: {what}: {v} -> {g[k][1]}")
    if b and g and b.keys() != g.keys():
        f.append(f"{what}: defined summaries differ {sorted(b.keys() ^ g.keys())}")
    return f


@lru_cache(maxsize=64)
def base(m, o, ks):
    return full(S.seq_angles(("S", m, o, ks, (0,) * len(ks))), None)


class Orders(Space):
    """states = arrangements of one multiset; transitions = adjacent swaps and single-element turns"""
    name = "arrangements"

    def __init__(self, tier):
        self.m, self.n = (7, 5) if tier == "quick" else (9, 6)
        self.bounds = f"every multiset of <={self.n} points of a {self.m}-lattice (offset 0.137); every reordering reachable by swaps and every pattern of turns (+1/-1/-2) with at most 2 displaced elements"

    def roots(self, tier):
        for n in range(2, self.n + 1):
            for ks in itertools.combinations_with_replacement(range(self.m), n):
                if ks[0] <= 1:
                    yield ("A", ks, tuple(range(n)), (0,) * n)

    def actions(self, s):
        _, ks, perm, ts = s
        n = len(ks)
        for i in range(n - 1):
            if not any(ts) and ks[perm[i]] != ks[perm[i + 1]] and (n <= 4 or sum(a > b for a, b in itertools.combinations(perm, 2)) < 3):
                p = list(perm)
                p[i], p[i + 1] = p[i + 1], p[i]
                yield ("swap", i), ("A", ks, tuple(p), ts)
        if perm == tuple(range(n)) and sum(t != 0 for t in ts) < 2:
            for i in range(n):
                if ts[i] == 0:
                    for d in (1, -1, -2):
                        yield ("turn", i, d), ("A", ks, perm, ts[:i] + (d,) + ts[i + 1:])

    def check(self, s):
        _, ks, perm, ts = s
        b = base(self.m, 1, ks)
        al = S.seq_angles(("S", self.m, 1, tuple(ks[i] for i in perm), tuple(ts[i] for i in perm)))
        g = full(al, None)
        tol = 1e-8 / max(float(b["r"][1]), 1e-3) if b else 1e-8
        if b and any(ts):
            # nearly tied mean deviations may be split by the rounding of the turns
            for k in ("median_deviation", "median_count", "quantile", "median_ci"):
                pass
        return (len(ks), round(float(b["r"][1]), 4) if b else None), diff(b, g, "rearranged" if not any(ts) else f"full turns {ts}", tol)


class PatOrders(Space):
    name = "pattern-arrangements"
    bounds = "deterministic samples n=6..200 x 4 shapes x 3 concentrations; reversed, rotated, sorted, interleaved order and 3 patterns of full turns"

    def roots(self, tier):
        ns = (6, 9, 13, 16, 17, 24, 30, 45, 60, 120, 200) if tier == "quick" else tuple(range(6, 80)) + (120, 200, 500)
        for p in S.pats(ns, kinds=("vm", "bi", "skew", "ties"), concs=(1, 2, 4), mus=(0, 5)):
            for v in range(7):
                yield p + (v,)

    def check(self, s):
        al = S.pat_angles(s[:6])
        n = len(al)
        b = full(al, None)
        v = s[6]
        if v == 0:
            x = al[::-1]
        elif v == 1:
            x = np.sort(al)
        elif v == 2:
            x = np.roll(al, n // 3)
        elif v == 3:
            x = np.concatenate([al[::2], al[1::2]])
        elif v == 4:
            x = al + O.TAU * (np.arange(n) % 3 - 1)
        elif v == 5:
            x = al - O.TAU
        else:
            x = al + 10 * O.TAU * (np.arange(n) == n // 2)
        g = full(x, None)
        tol = 1e-8 / max(float(b["r"][1]), 1e-3) if b else 1e-8
        return (s[1], round(float(b["r"][1]), 3) if b else None), diff(b, g, f"variant {v}", tol)


class Frequencies(Space):
    name = "frequencies"
    bounds = "every multiset of <=4 points of an 8-lattice with frequencies in 1..3 (0 for one cell), x frequency multiples, expanded against weighted; patterns with n=10..40"

    def roots(self, tier):
        for n in (2, 3, 4):
            for ks in itertools.combinations(range(8), n):
                for ws in itertools.product((0, 1, 2, 3) if n < 4 else (0, 1, 3), repeat=n):
                    if any(ws):
                        yield ("F", ks, ws)
        for p in S.pats((10, 17, 30), concs=(1, 2, 3, 4), kinds=("vm", "bi", "skew")):
            yield p

    def check(self, s):
        if s[0] == "F":
            al = np.array([O.TAU * k / 8 + 0.137 for k in s[1]])
            w = np.array(s[2])
        else:
            al = S.pat_angles(s)
            w = (np.arange(len(al)) * 5) % 4
        e = np.repeat(al, w)
        m, r = O.mean_r(list(e))
        if r < 1e-6:
            return "uniform", []
        f = []
        tol = 1e-8 / r
        for wv, nm in ((w, "int"), (w.astype(float), "float")):
            if not close(D.circ_r(al, wv), D.circ_r(e)):
                f.append(f"circ_r weighted({nm}) != expanded")
            if not aclose(D.circ_mean(al, wv), D.circ_mean(e), tol):
                f.append(f"circ_mean weighted({nm}) != expanded")
            a, b = D.circ_mean_and_r(al, wv), D.circ_mean_and_r(e)
            if not (aclose(a[0], b[0], tol) and close(a[1], b[1])):
                f.append(f"circ_mean_and_r weighted({nm}) {a} != expanded {b}")
            for p in (1, 2, 3):
                for c in (False, True):
                    if abs(D.circ_moment(al, wv, p=p, centered=c) - D.circ_moment(e, p=p, centered=c)) > 1e-8:
                        f.append(f"circ_moment p={p} centered={c} weighted({nm}) != expanded")
            if not close(D.circ_dispersion(al, wv), D.circ_dispersion(e), rtol=1e-7):
                f.append(f"circ_dispersion weighted({nm}) != expanded")
            if r < 0.999:
                if not close(D.circ_skewness(al, wv), D.circ_skewness(e), 1e-6, 1e-7):
                    f.append(f"circ_skewness weighted({nm}) != expanded")
                if not close(D.circ_kurtosis(al, wv), D.circ_kurtosis(e), 1e-6, 1e-7):
                    f.append(f"circ_kurtosis weighted({nm}) != expanded")
                v = D.circ_var(al, wv, bin_size=0)
                if not close(v, D.circ_var(e)):
                    f.append(f"circ_var(bin_size=0) weighted({nm}) {v} != expanded")
                if not close(D.circ_std(al, wv, bin_size=0), D.circ_std(e)):
                    f.append(f"circ_std(bin_size=0) weighted({nm}) != expanded")
            if len(set(w.tolist())) > 1:
                n = len(al)
                for nm2, fn in (("circ_var", D.circ_var), ("circ_std", D.circ_std), ("angular_var", D.angular_var), ("angular_std", D.angular_std)):
                    ref = fn(al, wv)
                    if not math.isfinite(ref):
                        continue
                    for how, x, y in (("backwards", al[::-1], wv[::-1]), ("from another class", np.roll(al, 1 + n // 2), np.roll(wv, 1 + n // 2)),
                                      ("a turn further", al + O.TAU * (np.arange(n) % 2), wv), ("from another origin", (al + 3.3) % O.TAU, wv),
                                      ("with one class listed in two parts", np.append(al, al[0]), np.append(wv, 0) if s[0] != "F" or wv[0] < 2 else np.append(np.r_[wv[0] - 1, wv[1:]], 1))):
                        if len(set(y.tolist())) > 1 and not close(fn(x, y), ref, 1e-6, 1e-7):
                            f.append(f"{nm2} of a frequency table read {how}: {fn(x, y)}, expected {ref}")
            for meth in ("approximate", "dispersion"):
                for ci in (0.5, 0.95, 0.99):
                    a = trycall(D.circ_mean_ci, al, wv, method=meth, ci=ci)
                    b = trycall(D.circ_mean_ci, e, method=meth, ci=ci)
                    if not same("arc", a, b, 0, 0, tol):
                        f.append(f"circ_mean_ci {meth} {ci} weighted({nm}) {a} != expanded {b}")
        return (len(e), round(r, 5)), f


def spaces(tier):
    return [Orders(tier), PatOrders(), Frequencies()]
