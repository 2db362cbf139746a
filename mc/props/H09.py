"""Change-point test: the reported split maximises the statistics over every split of the sequence."""
import math

import numpy as np

from mc import hyp as T
from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close

import pycircstat2.hypothesis as H
from pycircstat2.utils import A1inv
from scipy.special import ive


def Rl(a):
    return math.hypot(math.fsum(map(math.cos, a)), math.fsum(map(math.sin, a)))


def phi(x):
    k = O.kappa_ml(x)
    return x * k - (math.log(float(ive(0, k))) + k)


def ref(a):
    n = len(a)
    R = Rl(a)
    dif = [Rl(a[:k]) + Rl(a[k:]) - R for k in range(1, n)] + [0.0]
    V = [k / n * phi(Rl(a[:k]) / k) + (n - k) / n * phi(Rl(a[k:]) / (n - k)) for k in range(2, n - 1)]
    return R / n, dif, V


class CP(Space):
    name = "change-point-sequences"
    chunk = 16

    def __init__(self, tier):
        self.tier = tier
        self.m = 4 if tier == "quick" else 5
        self.nmax = 6
        self.bounds = f"all sequences of length 4..{self.nmax} over {self.m} directions (with a small deterministic jitter); shifted patterns of length 8..40 with a change at every position; four sequences of 101 to 200 observations"
        self.max_depth = self.nmax - 4

    def roots(self, tier):
        import itertools
        for ks in itertools.product(range(self.m), repeat=4):
            yield ("J", self.m, ks)
        for n, cut in ((101, 40), (120, 90), (120, 3), (200, 150)):
            yield ("C", n, cut, 2.0, 3)
        for n in (8, 15, 30) if tier == "quick" else (8, 11, 15, 22, 30, 40):
            for cut in range(1, n):
                for d in (0.5, 2.0, 3.1):
                    for c in (2, 3, 5):
                        yield ("C", n, cut, d, c)

    def actions(self, s):
        if s[0] == "J":
            for k in range(s[1]):
                yield ("append", k), ("J", s[1], s[2] + (k,))

    def check(self, s):
        if s[0] == "J":
            a = [O.TAU * k / s[1] + 0.17 + 0.13 * math.sin(2.3 * i * i + i) for i, k in enumerate(s[2])]
        else:
            _, n, cut, d, c = s
            b = S.pat_angles(("P", "vm", n, c, 3, 1))
            a = [float(x + (d if i >= cut else 0)) % O.TAU for i, x in enumerate(b)]
        n = len(a)
        f = []
        rho, dif, V = ref(a)
        arr = np.array(a)
        keep = arr.copy()
        r = H.change_point_test(arr)
        if not np.array_equal(arr, keep):
            f.append("input modified")
        ok = lambda x, y: close(x, y, 1e-5, 1e-7)
        if not ok((r.rho, r.rmax, r.rave), (rho, max(dif), math.fsum(dif) / n)) or r.n != n:
            f.append(f"{r}; expected rho={rho} rmax={max(dif)} rave={math.fsum(dif) / n}")
        # reported positions are 0-based indices of the last observation before the change
        if not (0 <= r.k_r < n) or dif[r.k_r] < max(dif) - 1e-9:
            f.append(f"k_r={r.k_r} does not maximise the resultant statistic {dif}")
        if not ok((r.tmax, r.tave), (max(V), math.fsum(V) / len(V))):
            f.append(f"{r}; expected tmax={max(V)} tave={math.fsum(V) / len(V)}")
        if not (1 <= r.k_t <= n - 3) or V[r.k_t - 1] < max(V) - 1e-7 * (1 + max(V)):
            f.append(f"k_t={r.k_t} does not maximise the likelihood statistic")
        # orbit: rotation, reflection, whole turns; reversal mirrors the split
        i = np.arange(n)
        for what, b in (("rotation", (arr + 2.1) % O.TAU), ("reflection", -arr), ("turns", arr + O.TAU * ((i % 3) - 1))):
            q = H.change_point_test(b)
            if not ok((q.rho, q.rmax, q.rave, q.tmax, q.tave), (r.rho, r.rmax, r.rave, r.tmax, r.tave)):
                f.append(f"{what}: {q} instead of {r}")
        q = H.change_point_test(arr[::-1].copy())
        if not ok((q.rho, q.rmax, q.rave, q.tmax, q.tave), (r.rho, r.rmax, r.rave, r.tmax, r.tave)):
            f.append(f"reversal: {q} instead of {r}")
        return (r.k_r, r.k_t, n), f


def spaces(tier):
    return [CP(tier)]
