"""Angular distances and the mean deviation."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D
from pycircstat2.utils import angular_distance

METRICS = ("center", "geodesic", "angularseparation", "chord")


def ref(metric, a, b):
    d = O.adiff(a, b)
    return {"center": d, "geodesic": abs(d), "angularseparation": 1 - math.cos(d), "chord": 2 * abs(math.sin(d / 2))}[metric]


def eq(metric, got, exp, tol=1e-7):
    if metric == "center":        # +pi and -pi are the same turn
        return abs(math.remainder(float(got) - exp, O.TAU)) <= tol and -math.pi - tol <= float(got) <= math.pi + tol
    return abs(float(got) - exp) <= tol


class Pairs(Space):
    name = "pairs"
    max_depth = None
    bounds = "every pair of points of a 24-lattice (+offset pairs) reached by single lattice steps, each on turns -2..2"

    def roots(self, tier):
        yield (0, 0, 0, 0)

    def actions(self, s):
        a, b, ta, tb = s
        if ta == 0 and tb == 0:
            yield "a+", ((a + 1) % 24, b, 0, 0)
            yield "b+", (a, (b + 1) % 24, 0, 0)
        for d in (1, -1):
            if abs(ta + d) <= 2:
                yield f"ta{d}", (a, b, ta + d, tb)
            if abs(tb + d) <= 2:
                yield f"tb{d}", (a, b, ta, tb + d)

    def ang(self, s):
        return O.TAU * s[0] / 24 + O.TAU * s[2], O.TAU * s[1] / 24 + 0.05 + O.TAU * s[3]

    def check(self, s):
        a, b = self.ang(s)
        f = []
        a0 = O.TAU * s[0] / 24
        for x, y in ((a, b), (b, a), (a, a0 + O.TAU * s[3]), (a, a + math.pi)):
            for mt in METRICS:
                g = D.circ_dist(x, y, metric=mt)
                e = ref(mt, x, y)
                if not eq(mt, g, e, 3e-7):
                    f.append(f"circ_dist({x:.4f},{y:.4f},{mt})={g} expected {e}")
                if mt != "center" and not (-1e-9 <= float(g) <= {"geodesic": math.pi, "angularseparation": 2, "chord": 2}[mt] + 1e-9):
                    f.append(f"{mt} distance {g} out of range")
            g = float(np.asarray(D.circ_mean_deviation(np.array([x]), np.array([y])))[0])
            if abs(g - O.arc(x, y)) > 1e-5:
                f.append(f"circ_mean_deviation([{x:.4f}],[{y:.4f}])={g} expected {O.arc(x, y)}")
            g = float(np.asarray(angular_distance(np.array([x]), y))[0])
            if abs(g - O.arc(x, y)) > 1e-9:
                f.append(f"angular_distance({x:.4f},{y:.4f})={g} expected {O.arc(x, y)}")
            g = float(np.asarray(angular_distance(x, y)).ravel()[0])
            if abs(g - O.arc(x, y)) > 1e-9:
                f.append(f"scalar angular_distance({x:.4f},{y:.4f})={g} expected {O.arc(x, y)}")
        return (s[0] - s[1], s[2], s[3]), f


class Triples(Space):
    name = "triples"
    bounds = "every triple of a 12-lattice on turns 0 and 1: triangle inequality for the geodesic and chord metrics"

    def roots(self, tier):
        for t in itertools.product(range(12), repeat=3):
            for u in ((0, 0, 0), (1, 0, 0), (0, 0, 2)):
                yield t + u

    def check(self, s):
        x, y, z = [O.TAU * s[i] / 12 + O.TAU * s[3 + i] for i in range(3)]
        f = []
        for mt in ("geodesic", "chord"):
            d = lambda p, q: float(D.circ_dist(p, q, metric=mt))
            if d(x, z) > d(x, y) + d(y, z) + 1e-7:
                f.append(f"triangle inequality fails for {mt}")
        return None, f


class Arrays(Space):
    name = "arrays"

    def __init__(self, tier):
        self.bounds = "pairs of samples with n,m<=7 (every n,m), 3 shapes; pairwise matrices, broadcasting, sums, deviation with every chunk size 1..m+1"

    def roots(self, tier):
        for n in range(1, 8):
            for m in range(1, 8):
                for k in range(4):
                    yield (n, m, k)

    def check(self, s):
        n, m, k = s
        i = np.arange(n)
        j = np.arange(m)
        x = (i * 1.7 + k) % O.TAU + (O.TAU * (i % 3 - 1) if k >= 2 else 0)
        y = (j * 2.3 + 0.4 * k) % O.TAU - (O.TAU * (j % 2) if k == 3 else 0)
        f = []
        for mt in METRICS:
            R = np.array([[ref(mt, a, b) for b in y] for a in x])
            G = np.asarray(D.circ_pairdist(x, y, metric=mt))
            if G.shape != (n, m) or not all(eq(mt, G[a, b], R[a, b], 3e-7) for a in range(n) for b in range(m)):
                f.append(f"circ_pairdist {mt} wrong for shapes {n},{m}")
            if not close(D.circ_pairdist(x, y, metric=mt, return_sum=True), G.sum(), 1e-9, 1e-9):
                f.append(f"circ_pairdist {mt} return_sum wrong")
            G = np.asarray(D.circ_pairdist(x, metric=mt))
            if G.shape != (n, n) or not all(eq(mt, G[a, b], ref(mt, x[a], x[b]), 3e-7) for a in range(n) for b in range(n)):
                f.append(f"circ_pairdist(x) {mt} wrong")
            for b in range(m):
                g = np.atleast_1d(np.asarray(D.circ_dist(x, y[b], metric=mt)))
                if not all(eq(mt, g[a], R[a, b], 3e-7) for a in range(n)):
                    f.append(f"circ_dist(x, scalar) {mt} wrong")
                if not close(D.circ_dist(x, y[b], metric=mt, return_sum=True), g.sum()):
                    f.append(f"circ_dist(x, scalar, return_sum) {mt} wrong")
            if n == m:
                g = np.asarray(D.circ_dist(x, y, metric=mt))
                if not all(eq(mt, g[a], R[a, a], 3e-7) for a in range(n)):
                    f.append(f"circ_dist elementwise {mt} wrong")
            elif n > 1 and m > 1:
                try:
                    D.circ_dist(x, y, metric=mt)
                    f.append(f"circ_dist accepted shapes {n},{m}")
                except ValueError:
                    pass
        dev = np.array([math.fsum(O.arc(a, b) for a in x) / n for b in y])
        g = np.asarray(D.circ_mean_deviation(x, y))
        if g.shape != (m,) or not np.all(np.abs(g - dev) < 1e-5):
            f.append(f"circ_mean_deviation {g} expected {dev}")
        for ch in list(range(1, m + 2)) + [1000]:
            g = np.asarray(D.circ_mean_deviation_chunked(x, y, chunk_size=ch))
            if g.shape != (m,) or not np.all(np.abs(g - dev) < 1e-5):
                f.append(f"circ_mean_deviation_chunked(chunk_size={ch}) {g} expected {dev}")
        if not np.all(np.abs(np.asarray(D.circ_mean_deviation_chuncked(x, y, 2)) - dev) < 1e-5):
            f.append("circ_mean_deviation_chuncked alias wrong")
        for ch in (0, -1):
            try:
                D.circ_mean_deviation_chunked(x, y, chunk_size=ch)
                f.append(f"chunk_size={ch} accepted")
            except ValueError:
                pass
        try:
            D.circ_dist(x, x, metric="bogus")
            f.append("unknown metric accepted")
        except ValueError:
            pass
        g = np.asarray(angular_distance(list(x), float(y[0])))
        if not all(abs(g[a] - O.arc(x[a], y[0])) < 1e-9 for a in range(n)):
            f.append("angular_distance(list) wrong")
        return (n, m), f


class Pat(Space):
    name = "patterns"
    bounds = "mean deviation of samples n=2..100,1500 around a 24-lattice of references, both implementations, several chunk sizes"

    def roots(self, tier):
        yield from S.pats((2, 5, 10, 33, 64, 100, 1500), kinds=("vm", "bi", "skew"), concs=(0, 1, 3))

    def check(self, s):
        al = S.angles(s)
        f = []
        ref = np.arange(24) * O.TAU / 24 + 0.01
        dev = np.abs((al[None, :] - ref[:, None] + math.pi) % O.TAU - math.pi).mean(1)
        for nm, g in [("plain", D.circ_mean_deviation(al, ref))] + [(f"chunk{c}", D.circ_mean_deviation_chunked(al, ref, c)) for c in (1, 5, 7, 23, 24, 25)]:
            if not np.all(np.abs(np.asarray(g) - dev) < 1.01e-5):
                f.append(f"mean deviation ({nm}) differs from the mean arc length")
        if len(al) <= 100:
            a = D.circ_mean_deviation(al, al)
            if not np.all(np.abs(np.asarray(a) - np.asarray(D.circ_mean_deviation_chunked(al, al, 9))) < 1.01e-5):
                f.append("chunked mean deviation differs")
        return len(al), f


def spaces(tier):
    return [Pairs(), Triples(), Arrays(tier), Pat()]
