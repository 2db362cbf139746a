"""Mean direction / resultant length / trigonometric moments = weighted vector sum."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D

WALPH = (0, 1, 2, 0.5)


def judge(al, w):
    f = []
    alf = [float(a) for a in al]
    wl = None if w is None else [float(x) for x in w]
    m, r = O.mean_r(alf, wl)
    wa = None if w is None else np.asarray(w)
    near = 1e-10 < r < 1e-7        # between the library's two "is zero" cut-offs
    got = float(D.circ_r(al, wa))
    if not close(got, r, atol=1e-12):
        f.append(f"circ_r={got} expected {r}")
    if not (-1e-12 <= got <= 1 + 1e-12):
        f.append(f"circ_r={got} outside [0,1]")
    gm = D.circ_mean(al, wa)
    if not near and not aclose(gm, m, 1e-9 / max(r, 1e-6)):
        f.append(f"circ_mean={gm} expected {m}")
    if not math.isnan(gm) and not (0 <= gm < O.TAU):
        f.append(f"circ_mean={gm} outside [0,2pi)")
    gm2, gr2 = D.circ_mean_and_r(al, wa)
    if not near and not aclose(gm2, m, 1e-9 / max(r, 1e-6)):
        f.append(f"circ_mean_and_r mean={gm2} expected {m}")
    if not math.isnan(gm2) and not (0 <= gm2 < O.TAU):
        f.append(f"circ_mean_and_r mean={gm2} outside [0,2pi)")
    if not close(gr2, r, atol=1e-12):
        f.append(f"circ_mean_and_r r={gr2} expected {r}")
    for p in (0, 1, 2, 3, 5, -1):
        z = O.moment(alf, wl, p)
        g = complex(D.circ_moment(al, wa, p=p))
        if abs(g - z) > 1e-11 * max(1, abs(p)):
            f.append(f"circ_moment(p={p})={g} expected {z}")
        C, Sn = D.compute_C_and_S(al, np.ones_like(al) if wa is None else wa, p, 0.3)
        z = O.moment(alf, wl, p, 0.3)
        if abs(complex(C, Sn) - z) > 1e-11 * max(1, abs(p)):
            f.append(f"compute_C_and_S(p={p},mean=.3)={(C, Sn)} expected {z}")
        for mu, cen in ((0.3, False), (0.3, True), (0.0, False), (0.0, True), (-2.5, True)):
            z = O.moment(alf, wl, p, mu)
            g = complex(D.circ_moment(al, wa, p=p, mean=mu, centered=cen))
            if abs(g - z) > 1e-11 * max(1, abs(p)):
                f.append(f"circ_moment(p={p},mean={mu},centered={cen})={g} expected {z}")
        if r > 1e-6:
            z = O.moment(alf, wl, p, m)
            g = complex(D.circ_moment(al, wa, p=p, centered=True))
            if abs(g - z) > 1e-8:
                f.append(f"circ_moment(p={p},centered)={g} expected {z}")
            g = complex(D.circ_moment(al, wa, p=p, mean=m, centered=True))
            if abs(g - z) > 1e-8:
                f.append(f"circ_moment(p={p},mean,centered)={g} expected {z}")
    z = O.moment(alf, wl, 2)
    u, rr = D.convert_moment(z)
    if not close(rr, abs(z), atol=1e-12) or (abs(z) > 1e-9 and not aclose(u, math.atan2(z.imag, z.real), 1e-9)):
        f.append(f"convert_moment({z})={(u, rr)}")
    Cb, Sb = O.CS(alf, wl)
    if not close(float(D.circ_r(Cbar=Cb, Sbar=Sb)), r, atol=1e-12):
        f.append("circ_r(Cbar,Sbar) differs from circ_r(alpha)")
    return (round(r, 6), "nan" if math.isnan(m) else round(m, 3)), f


class Lattice(Space):
    name = "lattice-sequences"

    def __init__(self, tier):
        self.m = 12 if tier == "quick" else 16
        self.max_depth = 4
        self.bounds = f"every sequence of <=4 angles on a {self.m}-point lattice, each element on turn 0, plus one element moved by +1/-1/-3 turns"

    def roots(self, tier):
        for o in (0, 1):
            for k in range(self.m):
                yield ("S", self.m, o, (k,), (0,))

    def actions(self, s):
        if any(s[4]):
            return
        if len(s[3]) < 4 and (s[2] == 0 or len(s[3]) < 3):
            yield from S.g_append(s)
        if len(s[3]) <= 3:
            yield from S.g_turn(s)

    def check(self, s):
        return judge(S.angles(s), None)


class Weighted(Space):
    name = "lattice-weights"

    def __init__(self, tier):
        self.m = 8
        self.n = 3
        self.bounds = "every sequence of <=3 angles on an 8-point lattice x every weight vector over {0,1,2,0.5} with positive sum (4 elements at multiples of 90 degrees)"

    def roots(self, tier):
        for n in (1, 2, 3):
            for ks in itertools.product(range(self.m), repeat=n):
                for ws in itertools.product(range(4), repeat=n):
                    if any(WALPH[i] for i in ws):
                        yield ("W", 8, ks, ws)
        for ks in itertools.combinations_with_replacement(range(4), 4):
            for ws in itertools.product(range(4), repeat=4):
                if any(WALPH[i] for i in ws):
                    yield ("W", 4, ks, ws)

    def check(self, s):
        _, m, ks, ws = s
        al = np.array([O.TAU * k / m for k in ks])
        w = np.array([WALPH[i] for i in ws])
        return judge(al, w)


class Patterns(Space):
    name = "patterns"
    bounds = "deterministic samples of n=2..60,97,500 points x 5 shapes x 6 concentrations x 3 locations; unweighted and with three weight patterns"

    def roots(self, tier):
        ns = list(range(2, 61, 1 if tier == "thorough" else 3)) + [97, 500]
        for p in S.pats(ns, mus=(0, 5, 9)):
            for w in (0, 1, 2, 3):
                yield p + (w,)

    def check(self, s):
        al = S.pat_angles(s[:6])
        n = len(al)
        w = [None, np.arange(n) % 3 + 1, (np.arange(n) % 4) * 1.0 + (np.arange(n) == 0), np.full(n, 0.25)][s[6]]
        return judge(al, w)


class IntegerInput(Space):
    name = "integer-radians"
    bounds = "every sequence of <=3 integer radians in -4..7 as an int array, with int weights"

    def roots(self, tier):
        for n in (1, 2, 3):
            for ks in itertools.product(range(-4, 8), repeat=n):
                yield ("I", ks)

    def check(self, s):
        al = np.array(s[1])
        sig, f = judge(al, None)
        sig2, f2 = judge(al, np.arange(1, len(al) + 1))
        return (sig, sig2), f + f2


class OfMeans(Space):
    name = "mean-of-means"
    bounds = "every set of <=3 (mean on 12-lattice, r in 0.2/0.7/1) pairs, via ms/rs and via objects"

    def roots(self, tier):
        for n in (1, 2, 3):
            for ks in itertools.product(range(12), repeat=n):
                for rs in itertools.product((0.2, 0.7, 1.0), repeat=n):
                    yield ("M", ks, rs)

    def check(self, s):
        _, ks, rs = s
        ms = np.array([O.TAU * k / 12 for k in ks])
        X = math.fsum(r * math.cos(m) for m, r in zip(ms, rs)) / len(ks)
        Y = math.fsum(r * math.sin(m) for m, r in zip(ms, rs)) / len(ks)
        r = math.hypot(X, Y)
        m = float("nan") if r < 1e-11 else O.wrap(math.atan2(Y, X))
        f = []

        class Ob:
            def __init__(self, m, r):
                self.mean, self.r = m, r
        for g in (D.circ_mean_and_r_of_means(ms=ms, rs=np.array(rs)), D.circ_mean_and_r_of_means(circs=[Ob(a, b) for a, b in zip(ms, rs)])):
            if not close(g[1], r, atol=1e-12):
                f.append(f"r={g[1]} expected {r}")
            if not aclose(g[0], m, 1e-9 / max(r, 1e-6)):
                f.append(f"mean={g[0]} expected {m}")
        return (round(r, 6),), f


def spaces(tier):
    return [Lattice(tier), Weighted(tier), Patterns(), IntegerInput(), OfMeans()]
