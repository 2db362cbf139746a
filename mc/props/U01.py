"""Angle arithmetic: unit conversion, wrapping, rotation, range membership."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc.engine import Space, aclose, close

from pycircstat2 import utils as U

CYC = (360, 24, O.TAU, 12, 7, 365.25, 400.0)


class Convert(Space):
    name = "conversions"
    bounds = "values k/24 of a cycle for k=-50..50 x 7 cycle lengths (int/float, scalar/array): conversions are inverse and linear"

    def roots(self, tier):
        for c in range(len(CYC)):
            for k in range(-50, 51):
                yield (c, k)

    def check(self, s):
        K = CYC[s[0]]
        x = K * s[1] / 24
        f = []
        a = U.data2rad(x, k=K)
        if not close(float(a), O.TAU * s[1] / 24, 1e-12, 1e-12):
            f.append(f"data2rad({x},{K})={a}")
        if not close(float(U.rad2data(a, k=K)), x, 1e-12, 1e-12):
            f.append(f"rad2data(data2rad({x}),{K})={U.rad2data(a, k=K)}")
        if U.rad2data(1.25, k=None) != 1.25:
            f.append("rad2data(k=None) must return radians")
        v = np.array([x, 0, 2 * x])
        if not close(U.data2rad(v, k=K), [O.TAU * s[1] / 24, 0, 2 * O.TAU * s[1] / 24], 1e-12, 1e-12):
            f.append("data2rad(array)")
        if not close(U.rad2data(U.data2rad(v, k=K), k=K), v, 1e-12, 1e-12):
            f.append("rad2data(array)")
        if K == 360 and not close(float(U.data2rad(x)), math.radians(x)):
            f.append("default cycle of data2rad is not 360")
        if K == 360 and not close(float(U.rad2data(a)), x, 1e-12, 1e-12):
            f.append("default cycle of rad2data is not 360")
        return s, f


BND = ((0, O.TAU), (-math.pi, math.pi), (0, math.pi), (-math.pi / 2, math.pi / 2), (1.0, 1.0 + O.TAU), (-180, 180), (5, 17), (2.0, 3.0), (128.0, 129.0), (-1e3, -999.0))


class Wrap(Space):
    name = "angmod"
    bounds = "10 target ranges x 240 values over 10 spans, incl. both ends and 1 ulp around them; scalar, 0-d, array, int"

    def roots(self, tier):
        for b in range(len(BND)):
            for k in range(-120, 121):
                yield (b, k, 0)
            for k in range(-3, 4):
                for d in (-1, 1):
                    yield (b, 24 * k, d)

    def check(self, s):
        lo, hi = BND[s[0]]
        span = hi - lo
        x = lo + span * s[1] / 24
        if s[2]:
            x = float(np.nextafter(x, x + s[2]))
        f = []
        for v, nm in ((x, "float"), (np.float64(x), "np.float64"), (np.array([x, x + span]), "array"), (np.array([[x], [x - span]]), "2d")):
            src = np.array(v)
            g = np.atleast_1d(np.asarray(U.angmod(v, bounds=[lo, hi]), dtype=float)).ravel()
            if isinstance(v, np.ndarray) and not np.array_equal(src, v):
                f.append("angmod changed its argument")
            if isinstance(v, np.ndarray) and np.shape(U.angmod(v, bounds=[lo, hi])) != v.shape:
                f.append("angmod changed the shape")
            for gg in g:
                if not (lo <= gg < hi):
                    f.append(f"angmod({x!r},{lo},{hi}) {nm} = {gg!r} outside [{lo},{hi})")
                d = math.remainder(gg - x, span)
                if abs(d) > 1e-9 * max(1, abs(x)):
                    f.append(f"angmod({x!r},{lo},{hi}) = {gg!r} is not congruent")
                if abs(float(U.angmod(gg, bounds=[lo, hi])) - gg) > 1e-9:
                    f.append("angmod not idempotent")
        if s[0] == 0:
            if not aclose(float(U.angmod(x)), x, 1e-9) or not 0 <= float(U.angmod(x)) < O.TAU:
                f.append("default bounds are not [0,2pi)")
            i = s[1]
            if not aclose(float(U.angmod(i)), i, 1e-8) or not 0 <= float(U.angmod(i)) < O.TAU:
                f.append(f"angmod(int {i})")
            gi = U.angmod(np.array([i, i + 1]))
            if not all(aclose(float(a), b, 1e-8) for a, b in zip(gi, (i, i + 1))):
                f.append(f"angmod(int array {i}) = {gi}")
        for bad in ([hi, lo], [lo, lo], [lo], [lo, hi, 3]):
            try:
                U.angmod(1.0, bounds=bad)
                f.append(f"bounds {bad} accepted")
            except ValueError:
                pass
        if not math.isnan(float(U.angmod(np.nan, bounds=[lo, hi]))):
            f.append("angmod(nan)")
        return (s[0], round(float(g[0]), 3)), f


class Rotate(Space):
    name = "rotations"
    bounds = "three units x 8-point samples x rotation by every multiple of 1/24 cycle (both signs, > 1 turn); composing two rotations = one"
    max_depth = 2

    def roots(self, tier):
        for u in ("degree", "radian", "hour"):
            yield (u, ())

    def actions(self, s):
        for k in range(-30, 31):
            yield k, (s[0], s[1] + (k,))

    def check(self, s):
        u, ks = s
        K = {"degree": 360, "radian": O.TAU, "hour": 24}[u]
        base = np.array([0.0, 0.11, 0.25, 0.49, 0.5, 0.83, 0.99, 1.3]) * K
        x = base.copy()
        f = []
        for k in ks:
            y = U.rotate_data(x, K * k / 24, unit=u)
            x = np.asarray(y)
            if np.any(x < 0) or np.any(x >= K * (1 + 1e-12)):
                f.append(f"rotate_data result outside the cycle: {x}")
        tot = sum(ks) * K / 24
        if ks:
            d = (x - base - tot) / K
            if np.max(np.abs(d - np.round(d))) > 1e-9:
                f.append(f"rotating {u} by {ks}/24 cycle gives {x}")
        if u == "radian" and len(ks) == 1 and not close(U.rotate_data(base, tot), x):
            f.append("default unit of rotate_data is not radian")
        if len(ks) == 0:
            try:
                U.rotate_data(base, 1, unit="grad")
                f.append("unknown unit accepted")
            except ValueError:
                pass
        return (u, sum(ks) % 24), f


class Within(Space):
    name = "ranges"
    bounds = "all (value, lower, upper) triples of a 24-lattice (value off the lattice by +-.01 or on it), each also moved by whole turns"

    def roots(self, tier):
        for l in range(24):
            for u in range(24):
                for v in range(24):
                    yield (v, l, u)

    def check(self, s):
        v, l, u = s
        h = O.TAU / 24
        f = []
        for dv in (-0.01, 0, 0.01):
            span = (u - l) % 24
            pos = (v - l) % 24 + dv / h
            if dv == 0:
                # end points: exact only if both computed the same way (turn 0)
                exp = pos <= span
                g = bool(U.is_within_circular_range(v * h, l * h, u * h))
                if g != exp:
                    f.append(f"is_within({v},{l},{u})={g}")
                continue
            pos %= 24
            exp = pos <= span
            for t in ((0, 0, 0), (1, 0, 0), (0, -1, 0), (0, 0, 2), (-2, 1, 1)):
                # ends moved by a turn may round: keep them off the boundary 0
                off = 1e-6
                g = bool(U.is_within_circular_range(v * h + dv + off + O.TAU * t[0], l * h + off + O.TAU * t[1], u * h + off + O.TAU * t[2]))
                if l == u and t[1] != t[2]:
                    continue
                if g != exp:
                    f.append(f"is_within({v}{dv:+},{l},{u}) turns {t} = {g} expected {exp}")
        return exp, f


class Text(Space):
    name = "times-and-stars"
    bounds = "every hh:mm of a day (two separators, scalar and array); significance codes on a 2000-point p grid with the cut-offs"

    def roots(self, tier):
        for hh in range(24):
            yield ("t", hh)
        for i in range(0, 2001, 50):
            yield ("p", i)

    def check(self, s):
        f = []
        if s[0] == "t":
            ts = [f"{s[1]:02d}:{m:02d}" for m in range(60)]
            if not close(U.time2float(ts), [s[1] + m / 60 for m in range(60)], 1e-12, 1e-12):
                f.append(f"time2float wrong at {s[1]}h")
            if not close(U.time2float(np.array([t.replace(":", ".") for t in ts]), sep="."), [s[1] + m / 60 for m in range(60)], 1e-12, 1e-12):
                f.append(f"time2float(sep='.') wrong at {s[1]}h")
            if not close(float(U.time2float(ts[7])), s[1] + 7 / 60):
                f.append("time2float scalar")
            return s, f
        for i in range(s[1], min(s[1] + 50, 2001)):
            p = i / 2000
            e = "***" if p < .001 else "**" if p < .01 else "*" if p < .05 else "." if p < .1 else ""
            if U.significance_code(p) != e:
                f.append(f"significance_code({p})={U.significance_code(p)!r}")
        return s, f


def spaces(tier):
    return [Convert(), Wrap(), Rotate(), Within(), Text()]
