"""Frequencies and repetition are the same data for every test that accepts both."""
import itertools
import math

import numpy as np

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.hypothesis as H
from pycircstat2 import Circular


def circ(al, w):
    return Circular(np.array(al), w=np.array(w), unit="radian", kwargs_median=dict(method=None), kwargs_mean_ci=dict(method=None))


class OneW(Space):
    """all frequency vectors on 5 (6) cells, grown one observation at a time"""
    name = "one-sample-frequencies"
    chunk = 16

    def __init__(self, tier):
        self.m = 5 if tier == "quick" else 6
        self.max_depth = 6 if tier == "quick" else 7
        self.bounds = f"all frequency vectors of total <= {self.max_depth} on {self.m} cells x 2 offsets, frequencies as int and float arrays and as floats a rounding error below the counts"

    def roots(self, tier):
        for o in (0, 1):
            yield (self.m, o, (0,) * self.m)

    def actions(self, s):
        m, o, w = s
        for k in range(m):
            yield ("count", k), (m, o, w[:k] + (w[k] + 1,) + w[k + 1:])

    def check(self, s):
        m, o, w = s
        n = sum(w)
        if n == 0:
            return None, []
        al = np.array([O.TAU * k / m + (0.0, 0.37)[o] for k in range(m)])
        ex = np.repeat(al, w)
        f = []
        for typ in ("int", "float", "computed"):
            W = np.array(w, dtype=int if typ == "int" else float)
            if typ == "computed":           # 0.29 * 100: a rounding error below the count
                W = np.nextafter(W, 0.0)
            r, q = H.rayleigh_test(alpha=al, w=W), H.rayleigh_test(alpha=ex)
            if not close((r.r, r.z, r.pval), (q.r, q.z, q.pval), 1e-7, 1e-7):
                f.append(f"rayleigh_test {r} vs expanded {q}")
            r, q = H.rayleigh_test(alpha=al, w=W, B=9, seed=2), H.rayleigh_test(alpha=ex, B=9, seed=2)
            if abs(r.bootstrap_pval - q.bootstrap_pval) > 0.11:
                f.append(f"rayleigh_test bootstrap {r} vs {q}")
            for t in (0.2, 3.3):
                r, q = H.V_test(t, alpha=al, w=W), H.V_test(t, alpha=ex)
                if not close((r.V, r.u, r.pval), (q.V, q.u, q.pval), 1e-7, 1e-7):
                    f.append(f"V_test {r} vs {q}")
            r, q = H.rao_spacing_test(alpha=al, w=W, n_simulation=2, seed=1), H.rao_spacing_test(alpha=ex, n_simulation=2, seed=1)
            if not close(r.statistic, q.statistic, 1e-9, 1e-9):
                f.append(f"rao_spacing_test {r} vs {q}")
            if r.mode != "grouped" or q.mode != "ungrouped":
                f.append("rao_spacing_test mode")
            for rep in (1, 3, 11):          # (intervals need eight observations)
                x = T.call(H.one_sample_test, 0.4, alpha=al, w=W * rep)
                y = T.call(H.one_sample_test, 0.4, alpha=np.repeat(ex, rep))
                if isinstance(x, tuple) != isinstance(y, tuple) or (not isinstance(x, tuple) and not close(x.ci, y.ci, 1e-7, 1e-6)):
                    f.append(f"one_sample_test {x} vs {y}")
        return (n, max(w)), f


class MultiW(Space):
    name = "multi-sample-frequencies"
    chunk = 16

    def __init__(self, tier):
        self.m = 4
        self.n = 4 if tier == "quick" else 5
        self.bounds = f"all pairs (and a third fixed group) of frequency vectors of total 2..{self.n} on {self.m} cells"

    def roots(self, tier):
        ws = [w for w in itertools.product(range(self.n + 1), repeat=self.m) if 2 <= sum(w) <= self.n]
        for a in ws:
            for b in ws[:: 3 if tier == "quick" else 1]:
                yield (a, b)

    def check(self, s):
        a, b = s
        m = self.m
        al = np.array([O.TAU * k / m + 0.37 for k in range(m)])
        al2 = al + 0.11
        G = [circ(al, a), circ(al2, b)]
        E = [np.repeat(al, a), np.repeat(al2, b)]
        f = []
        for name in ("watson_williams_test", "watson_u2_test", "wheeler_watson_test", "wallraff_test", "angular_randomisation_test"):
            if name == "watson_williams_test" and (min(max(a) == sum(a), max(b) == sum(b)) or
                                                   max(O.mean_r(list(map(float, e)))[1] for e in E) < 1e-6):
                continue                      # no dispersion, or no direction, within any group: F is 0/0 or x/0
            x, y = T.call(T.MULTI[name], G, 0.9), T.call(T.MULTI[name], E, 0.9)
            if x[0] == "ValueError" or y[0] == "ValueError":
                if x[0] != y[0]:
                    f.append(f"{name}: grouped {x}, expanded {y}")
                continue
            if not close(x, y, 1e-6, 1e-7):
                f.append(f"{name}: grouped {x}, expanded {y}")
            if name in ("watson_williams_test", "wheeler_watson_test"):
                g3 = G + [circ(al + 0.05, (1, 2, 0, 1))]
                e3 = E + [np.repeat(al + 0.05, (1, 2, 0, 1))]
                x, y = T.call(T.MULTI[name], g3, 0.9), T.call(T.MULTI[name], e3, 0.9)
                if not (x[0] == y[0] == "ValueError") and not close(x, y, 1e-6, 1e-7):
                    f.append(f"{name} (3 groups): grouped {x}, expanded {y}")
        p, q = H.angular_randomisation_test(G, n_simulation=7, seed=3), H.angular_randomisation_test(E, n_simulation=7, seed=3)
        if p != q:
            f.append(f"angular_randomisation_test: grouped {p}, expanded {q}")
        return (sum(a), sum(b)), f


def spaces(tier):
    return [OneW(tier), MultiW(tier)]
