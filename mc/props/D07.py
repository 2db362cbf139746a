"""Concentration estimates: circ_kappa, A1, A1inv, bandwidth."""
import math

import numpy as np
from scipy.special import ive

from mc import oracle as O
from mc.engine import Space, close

from pycircstat2 import descriptive as D
from pycircstat2 import Circular
from pycircstat2 import utils as U


def small(k, r, n):
    if n <= 15 and r < 0.7:
        if k < 2:
            return max(k - 2 / (n * k), 0.0) if k > 0 else 0.0
        return (n - 1) ** 3 * k / (n ** 3 + n)
    return k


class RN(Space):
    name = "r-n-grid"
    bounds = "r = i/400 for i=0..400 (plus breakpoints +-1e-9) x n = None,1..20,50,1000; one transition per step of r (monotonicity)"
    BR = (0.53 - 1e-9, 0.53, 0.53 + 1e-9, 0.7 - 1e-9, 0.7, 0.85 - 1e-9, 0.85, 0.85 + 1e-9, 1 - 1e-6, 1 - 1e-12)
    NS = (None,) + tuple(range(1, 21)) + (50, 1000)

    def grid(self):
        return sorted({i / 400 for i in range(401)} | set(self.BR))

    def roots(self, tier):
        self.g = self.grid()
        for j in range(len(self.NS)):
            yield (0, j)

    def actions(self, s):
        if s[0] + 1 < len(self.grid()):
            yield "r+", (s[0] + 1, s[1])

    def check_edge(self, s, l, t):
        g = self.grid()
        n = self.NS[s[1]]
        r0, r1 = g[s[0]], g[t[0]]
        if r1 == 1.0:
            return []
        if n is None or n > 15:
            a, b = D.circ_kappa(r0, n), D.circ_kappa(r1, n)
            if not b > a - 3e-4:
                return [f"circ_kappa not increasing: kappa({r0})={a}, kappa({r1})={b}"]
            a, b = U.A1inv(r0), U.A1inv(r1)
            if not b > a - 3e-4:
                return [f"A1inv not increasing at {r0},{r1}"]
        return []

    def check(self, s):
        r = self.grid()[s[0]]
        n = self.NS[s[1]]
        f = []
        for rr in (r, np.float64(r)):
            g = float(D.circ_kappa(rr) if n is None else D.circ_kappa(rr, n))
            if r == 1.0:
                if not g > 1e6:
                    f.append(f"circ_kappa(r=1,n={n})={g}: perfect concentration must be the limit r->1, not zero")
                for q in (1.0, float(np.nextafter(1.0, 2.0)), 1 + 4e-16):
                    g = float(U.A1inv(q))
                    if not g > 1e6:
                        f.append(f"A1inv({q!r})={g}: not the limit R->1")
                continue
            k = O.kappa_ml(r)
            e = k if n is None else small(k, r, n)
            if not close(g, e):
                f.append(f"circ_kappa({r},{n})={g} expected {e}")
            if n is not None and n > 1 and e > 0:
                h = float(D.compute_smooth_params(rr, n))
                if not close(h, math.sqrt(7) / math.sqrt(e) / n ** 0.2):
                    f.append(f"compute_smooth_params({r},{n})={h}")
        if n is None and r < 1:
            g = float(U.A1inv(r))
            if not close(g, O.kappa_ml(r)):
                f.append(f"A1inv({r})={g}")
            # the approximations invert A1 to about 2.5 %
            if 0.01 < r < 0.9999:
                back = ive(1, g) / ive(0, g)
                if abs(back - r) > 0.006:
                    f.append(f"A1(A1inv({r}))={back}")
        return (round(r, 3), n), f


class A1Grid(Space):
    name = "A1-grid"
    bounds = "kappa = 0, 10^(i/20) for i=-80..130; scalars and arrays; monotone along the grid"

    def roots(self, tier):
        for i in range(212):
            yield (i,)

    def k(self, i):
        return 0.0 if i == 0 else 10 ** ((i - 81) / 20)

    def check(self, s):
        k = self.k(s[0])
        f = []
        e = float(ive(1, k) / ive(0, k))
        g = float(U.A1(k))
        if not close(g, e, 1e-9, 1e-12):
            f.append(f"A1({k})={g} expected {e}")
        a = U.A1(np.array([k, 1.0, k]))
        if not close(a, [e, ive(1, 1.0) / ive(0, 1.0), e], 1e-9, 1e-12):
            f.append(f"A1(array) wrong at {k}")
        if s[0] and not g >= float(U.A1(self.k(s[0] - 1))) - 1e-14:
            f.append("A1 not increasing")
        return round(e, 6), f


class Obj(Space):
    name = "object-kappa"
    bounds = "Circular(...).kappa for n=2..25 points, 40 spreads, radians and degrees, weighted: circ_kappa of its own r and n"

    def roots(self, tier):
        for n in range(2, 26):
            for i in range(1, 41):
                yield (n, i)

    def check(self, s):
        n, i = s
        al = (i * 3.0 / 40) * (np.arange(n) - (n - 1) / 2) * 2 / n + 1.0
        m, r = O.mean_r(list(al))
        if r < 1e-9 or 1 - r < 1e-9:
            return None, []
        f = []
        e = small(O.kappa_ml(r), r, n)
        if min(abs(r - b) for b in (0.53, 0.7, 0.85)) < 1e-9:
            return None, []
        for c in (Circular(np.mod(al, O.TAU), unit="radian", kwargs_mean_ci=dict(method=None)), Circular(np.mod(np.rad2deg(al), 360), kwargs_mean_ci=dict(method=None))):
            if not close(c.kappa, e, 1e-6, 1e-6):
                f.append(f"Circular.kappa={c.kappa} expected {e} (r={r}, n={n})")
        return (n, round(r, 3)), f


def spaces(tier):
    return [RN(), A1Grid(), Obj()]
