"""Circular-circular regression is the least-squares trigonometric polynomial, with its tests and invariances."""
import itertools
import math

import numpy as np
from scipy.special import gammaincc

from mc import oracle as O
from mc.engine import Space
from pycircstat2.regression import CCRegression

TAU = 2 * math.pi
OFF = 0.137
ERR = (-0.7, 0.1, 0.9)
SHAPES = ((0.0, 0.0), (1.0, 0.0), (0.5, 0.8))


def data(m, xs, sh, e):
    """xs: one tuple of cells per predictor"""
    x = np.column_stack([TAU * np.array(c) / mm + OFF * (j + 1) for j, (c, mm) in enumerate(zip(xs, m))])
    a, b = SHAPES[sh]
    th = 0.4 + a * x[:, 0] + b * np.sin(x[:, -1] + 0.3) + np.array([ERR[i] for i in e])
    return th, x


def harmonics(x, order):
    n, p = x.shape
    return np.column_stack([np.ones(n)] + [np.cos(k * x[:, j]) for j in range(p) for k in range(1, order + 1)] + [np.sin(k * x[:, j]) for j in range(p) for k in range(1, order + 1)])


def basis(M):
    """orthonormal basis of the column space"""
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    k = int(np.sum(s > 1e-8 * s[0]))
    return u[:, :k]


def ref(th, x, order):
    n, p = x.shape
    X = harmonics(x, order)
    Q = basis(X)
    W = np.column_stack([np.cos((order + 1) * x), np.sin((order + 1) * x)])
    QA = basis(np.column_stack([X, W]))
    df = QA.shape[1] - Q.shape[1]
    fit, pv = [], []
    for y in (np.cos(th), np.sin(th)):
        f0 = Q @ (Q.T @ y)
        e0, e1 = y - f0, y - QA @ (QA.T @ y)
        fit.append(f0)
        s0 = math.fsum(e0 * e0)
        if df == 0:
            pv.append(math.nan)
        elif s0 < 1e-9:
            pv.append(None)       # perfect fit: the test is rounding
        else:
            pv.append(float(gammaincc(df / 2, max(n - Q.shape[1], 1) * (max(s0 - math.fsum(e1 * e1), 0.0)) / s0 / 2)))
    return fit[0], fit[1], pv, df, Q.shape[1]


def verify(th, x, order, level, r):
    f = []
    R = r.result
    c, s, pv, df, rank = ref(th, x, order)
    X = harmonics(x, order)
    for nm, w in (("cos", c), ("sin", s)):
        b = np.asarray(R["coefficients"][nm], float)
        if b.shape != (X.shape[1],):
            f.append(f"{nm} coefficients of shape {b.shape}, {X.shape[1]} terms")
        elif np.abs(X @ b - w).max() > 1e-7:
            f.append(f"{nm} coefficients {b} are not the least-squares fit")
    L = [(j, k) for j in range(x.shape[1]) for k in range(1, order + 1)]
    if [tuple(v) for v in R["cos_labels"]] != L or [tuple(v) for v in R["sin_labels"]] != L:
        f.append(f"labels {R['cos_labels']} {R['sin_labels']}")
    fit, res = np.asarray(R["fitted"], float), np.asarray(R["residuals"], float)
    if fit.shape != th.shape or res.shape != th.shape:
        return f + [f"shapes {fit.shape} {res.shape}"]
    if fit.min() < 0 or fit.max() > TAU or np.abs(res).max() > math.pi + 1e-12:
        f.append("fitted or residuals outside their range")
    for i in range(len(th)):
        l = math.hypot(c[i], s[i])
        if l > 1e-5 and O.arc(fit[i], math.atan2(s[i], c[i])) > 1e-9 / l + 1e-9:
            f.append(f"fitted {fit[i]} expected {O.wrap(math.atan2(s[i], c[i]))}")
            break
        if O.arc(res[i] + fit[i], th[i]) > 1e-9:
            f.append(f"residual {res[i]} is not theta - fitted = {th[i] - fit[i]}")
            break
    rho = math.sqrt(math.fsum(c * c + s * s) / len(th))
    if not abs(R["rho"] - min(rho, 1)) < 1e-9 or not 0 <= R["rho"] <= 1:
        f.append(f"rho {R['rho']} expected {rho}")
    g = np.asarray(R["p_values"], float)
    if g.shape != (2,):
        return f + [f"p_values {g}"]
    sure = True
    for a, b in zip(g, pv):
        if b is None:
            sure = False
        elif not (math.isnan(a) and math.isnan(b) or abs(a - b) < 1e-7 or min(a, b) > 1 - 1e-5):
            f.append(f"p_values {g} expected {pv} (df {df}, rank {rank})")
            break
    if sure and not f:
        if df == 0:
            w = "No additional harmonics"
        else:
            w = "are not significant" if min(pv) > level else "are significant"
        if df and min(abs(v - level) for v in pv) < 1e-9:
            w = ""
        if w not in R["message"] or (df and f"{level}" not in R["message"]):
            f.append(f"message {R['message']!r} at p {pv}, level {level}")
    return f


def cells(m, n, tier):
    """x sequences up to order, first cell 0 occupied"""
    for q in itertools.combinations_with_replacement(range(m), n):
        if q[0] == 0 and len(set(q)) >= 2:
            yield q


ONE = ((3, 5), (4, 5), (5, 6), (6, 6), (8, 7))
TWO = (((4, 3), ((0, 1, 2, 3, 0, 1, 2, 3), (0, 0, 1, 1, 2, 2, 0, 1))), ((5, 5), ((0, 1, 2, 3, 4, 0, 2, 4, 1), (0, 2, 4, 1, 3, 1, 4, 2, 0))), ((7, 9), ((0, 1, 2, 3, 4, 5, 6, 0, 3), (0, 4, 8, 3, 7, 2, 6, 1, 5))),
       ((6, 6), ((0, 1, 2, 3, 4, 5, 1, 4), (0, 1, 2, 3, 4, 5, 1, 4))))


def fams(tier):
    """(cells per circle, one tuple of cells per predictor, n)"""
    k = 0
    for m, n in ONE:
        for q in cells(m, n, tier):
            for e in itertools.product(range(3), repeat=n):
                k += 1
                if k % (331 if tier == "quick" else 23) == 0:
                    yield (m,), (q,), e
    for m, xs in TWO:
        for e in itertools.product(range(3), repeat=len(xs[0])):
            k += 1
            if k % (31 if tier == "quick" else 5) == 0:
                yield m, xs, e


class Fit(Space):
    name = "fit"
    chunk = 32
    max_depth = 0
    bounds = "one predictor: every sequence of directions up to order on 3..8 cells, n=5..7; two predictors: 4 designs (one collinear), n=8, 9; a strided enumeration of all sequences of 3 scripted errors x 3 regression curves; orders 1..4; levels 0.05, 0.3, 0.9"

    def roots(self, tier):
        for j, (m, xs, e) in enumerate(fams(tier)):
            for o in (1, 2, 3, 4):
                yield (m, xs, e, j % 3, o, (j + o) % 3)

    def check(self, s):
        m, xs, e, sh, order, lv = s
        th, x = data(m, xs, sh, e)
        level = (0.05, 0.3, 0.9)[lv]
        r = CCRegression(theta=th, x=x if len(m) > 1 or sum(e) % 2 else x[:, 0], order=order, level=level)
        f = verify(th, x, order, level, r)
        return (order, len(m), round(r.result["rho"], 2)), f


MOVES = ("turn-x", "turn-theta", "rot-x", "rot-theta", "quarter-theta", "reflect-x", "reflect-theta", "order", "swap")


def moved(th, x, w):
    n = len(th)
    for m in w:
        if m == "turn-x":
            x = x + TAU * ((np.arange(n)[:, None] + np.arange(x.shape[1])) % 3 - 1)
        elif m == "turn-theta":
            th = th + TAU * (np.arange(n) % 3 - 1)
        elif m == "rot-x":
            x = x + 0.77
        elif m == "rot-theta":
            th = th + 1.234
        elif m == "quarter-theta":
            th = th + math.pi / 2
        elif m == "reflect-x":
            x = -x
        elif m == "reflect-theta":
            th = -th
        elif m == "order":
            th, x = th[::-1], x[::-1]
        elif m == "swap":
            x = x[:, ::-1]
    return th, x


class Moves(Space):
    name = "transformations"
    chunk = 8
    bounds = "states: (data, order) x words of up to 2 (thorough 3) of 9 transformations of predictor and response; each edge compares fitted directions, residuals, rho and p-values"

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3
        self.memo = {}

    def roots(self, tier):
        for j, (m, xs, e) in enumerate(fams(tier)):
            if j % (29 if tier == "quick" else 197) == 0:
                yield (m, xs, e, (j // 9) % 3, 1 + (j // 27) % 2, ())

    def actions(self, s):
        for m in MOVES:
            if m in s[5] or (m == "swap" and len(s[0]) < 2):
                continue
            yield m, s[:5] + (s[5] + (m,),)

    def get(self, s):
        if s not in self.memo:
            if len(self.memo) > 3000:
                self.memo.clear()
            th, x = moved(*data(s[0], s[1], s[3], s[2]), s[5])
            self.memo[s] = CCRegression(theta=th, x=x, order=s[4]).result
        return self.memo[s]

    def check(self, s):
        th, x = moved(*data(s[0], s[1], s[3], s[2]), s[5])
        r = CCRegression(theta=th, x=x, order=s[4])
        return (len(s[5]), round(r.result["rho"], 2)), verify(th, x, s[4], 0.05, r)

    def check_edge(self, s, m, t):
        A, B = self.get(s), self.get(t)
        f = []
        if abs(A["rho"] - B["rho"]) > 1e-8:
            f.append(f"{m}: rho {A['rho']} becomes {B['rho']}")
        th, x = moved(*data(s[0], s[1], s[3], s[2]), s[5])
        c, sn, pv, _, _ = ref(th, x, s[4])
        ok = np.hypot(c, sn) > 1e-4
        fa, ra = A["fitted"], A["residuals"]
        if m == "order":
            fa, ra, ok = fa[::-1], ra[::-1], ok[::-1]
        d = {"rot-theta": 1.234, "quarter-theta": math.pi / 2}.get(m, 0.0)
        g = -1 if m == "reflect-theta" else 1
        if np.any(np.abs(np.angle(np.exp(1j * (g * fa + d - B["fitted"]))))[ok] > 1e-7):
            f.append(f"{m}: fitted {A['fitted']} becomes {B['fitted']}")
        if np.any(np.abs(np.angle(np.exp(1j * (g * ra - B["residuals"]))))[ok] > 1e-7):
            f.append(f"{m}: residuals {A['residuals']} become {B['residuals']}")
        if None not in pv and m != "rot-theta":
            w = A["p_values"][::-1] if m == "quarter-theta" else A["p_values"]
            if not np.allclose(w, B["p_values"], rtol=0, atol=1e-5, equal_nan=True):
                f.append(f"{m}: p_values {A['p_values']} become {B['p_values']}")
        return f


class Exact(Space):
    name = "exact-curves"
    chunk = 4
    bounds = "responses that are trigonometric curves of the predictor: theta = c + j x (j up to the order is recovered exactly: rho=1, residuals 0), m=5..12 directions, orders 1..4, also as a formula"

    def roots(self, tier):
        for m in range(5, 13):
            for order in range(1, 5):
                for j in range(0, 5):
                    for sg in (1, -1):
                        yield (m, order, j, sg)

    def check(self, s):
        import pandas as pd
        m, order, j, sg = s
        x = TAU * np.arange(m) / m + OFF
        th = 0.3 + sg * j * x
        f = []
        for how in ("arrays", "formula"):
            if how == "arrays":
                R = CCRegression(theta=th, x=x, order=order).result
            else:
                R = CCRegression(formula="y ~ a", data=pd.DataFrame({"a": x, "y": th}), order=order).result
            if j <= order or 2 * order + 1 >= m:
                if abs(R["rho"] - 1) > 1e-9 or np.abs(R["residuals"]).max() > 1e-7:
                    f.append(f"{how}: rho {R['rho']}, residuals up to {np.abs(R['residuals']).max()} for an exact curve")
            elif all((j - k) % m and (j + k) % m for k in range(0, order + 1)):
                if R["rho"] > 1e-7:
                    f.append(f"{how}: rho {R['rho']} for a response orthogonal to every term")
        return (order, j, round(float(R["rho"]), 3)), f


def spaces(tier):
    return [Fit(), Moves(tier), Exact()]
