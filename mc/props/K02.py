"""Circular-linear correlation = multiple correlation of x on (cos a, sin a)."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc.engine import Space
from pycircstat2 import Circular
from pycircstat2.correlation import circ_corrcl

TAU = 2 * math.pi


def gauss(M, v):
    n = len(v)
    A = [list(r) + [x] for r, x in zip(M, v)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if abs(A[p][c]) < 1e-7:
            return None
        A[c], A[p] = A[p], A[c]
        for i in range(n):
            if i != c:
                k = A[i][c] / A[c][c]
                A[i] = [x - k * y for x, y in zip(A[i], A[c])]
    return [A[i][n] / A[i][i] for i in range(n)]


def ref(a, x):
    """R of the regression of x on cos a, sin a (None when undefined)"""
    n = len(a)
    c, s = [math.cos(v) for v in a], [math.sin(v) for v in a]
    mean = lambda v: math.fsum(v) / n
    C, S, Xc = ([u - mean(v) for u in v] for v in (c, s, x))
    dot = lambda u, v: math.fsum(p * q for p, q in zip(u, v))
    sx = dot(Xc, Xc)
    if sx < 1e-9 or dot(C, C) < 1e-9 or dot(S, S) < 1e-9:
        return None
    b = gauss([[dot(C, C), dot(C, S)], [dot(C, S), dot(S, S)]], [dot(C, Xc), dot(S, Xc)])
    if b is None or 1 - dot(C, S) ** 2 / dot(C, C) / dot(S, S) < 1e-7:
        return None
    ss = b[0] * dot(C, Xc) + b[1] * dot(S, Xc)
    return math.sqrt(min(max(ss / sx, 0), 1))


def verify(a, x):
    e = ref(a, x)
    try:
        with np.errstate(all="ignore"):
            t = circ_corrcl(np.array(a), np.array(x))
    except ValueError as ex:
        return [] if e is None else [f"refused: {ex}"]
    if e is None:
        return []
    f = []
    n = len(a)
    if not abs(t.r - e) < 1e-6:
        f.append(f"r={t.r}, the multiple correlation is {e}")
    if not abs(t.p_value - math.exp(-n * t.r ** 2 / 2)) < 1e-9:
        f.append(f"p={t.p_value}, chi-squared(2) tail of n r^2 is {math.exp(-n * t.r ** 2 / 2)}")
    if not (0 <= t.r <= 1 + 1e-9 and 0 <= t.p_value <= 1):
        f.append(f"r={t.r}, p={t.p_value}")
    return f


class Def(Space):
    name = "definition"
    chunk = 16
    max_depth = 0
    bounds = "every sample of (angle, value) pairs up to reordering: n=3, 4 on 6 angles x 3 values, n=5 on 5 x 2 (thorough n=4 on 8 x 3, n=5 on 5 x 3)"

    def roots(self, tier):
        for m, v, n in [(6, 3, 3), (6, 3, 4), (5, 2, 5)] if tier == "quick" else [(8, 4, 3), (8, 3, 4), (5, 3, 5), (4, 2, 6)]:
            for c in itertools.combinations_with_replacement(list(itertools.product(range(m), range(v))), n):
                yield (m, tuple(k for k, _ in c), tuple(x for _, x in c))

    def check(self, s):
        m, ks, xs = s
        a = [TAU * k / m + 0.137 for k in ks]
        x = [(0.0, 1.0, 2.7, -1.1)[v] for v in xs]
        return (len(ks), len(set(ks)), len(set(xs))), verify(a, x)


class Moves(Space):
    name = "invariance"
    chunk = 16
    bounds = "irregular samples of 4..9 pairs; every sequence of up to 2 (thorough 3) moves: rotate, reflect, full turn, scale x by 3, -0.01, 1e4, shift x, reorder, list, Circular"
    OPS = ("rot", "refl", "turn", "x3", "x-", "xbig", "x+", "perm", "list", "circ")

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3

    def roots(self, tier):
        for n in range(4, 10):
            for j in range(8 if tier == "quick" else 16):
                yield (n, j, ())

    def actions(self, s):
        for op in self.OPS:
            yield op, s[:2] + (s[2] + (op,),)

    def check(self, s):
        n, j, ops = s
        a0 = [O.wrap(2.0 * j + 2.5 * math.sin(1.7 * i * i + j)) for i in range(n)]
        x0 = [math.cos(v - j) + 0.3 * (j % 4) * math.sin(5.1 * i * i) for i, v in enumerate(a0)]
        if not ops:
            return (n, j), verify(a0, x0)
        a, x, wr = list(a0), list(x0), "array"
        for op in ops:
            if op == "rot":
                a = [v + 2.2 for v in a]
            elif op == "refl":
                a = [-v for v in a]
            elif op == "turn":
                a[1] += TAU
                a[2] -= TAU
            elif op == "x3":
                x = [3 * v for v in x]
            elif op == "x-":
                x = [-0.01 * v for v in x]
            elif op == "xbig":
                x = [1e4 * v for v in x]
            elif op == "x+":
                x = [v + 7 for v in x]
            elif op == "perm":
                a, x = a[2:] + a[:2][::-1], x[2:] + x[:2][::-1]
            else:
                wr = op
        A, X = np.array(a), np.array(x)
        if wr == "list":
            A, X = list(a), tuple(x)
        elif wr == "circ":
            A = Circular(np.mod(a, TAU), unit="radian", kwargs_mean_ci=dict(method=None))
        t0, t1 = circ_corrcl(np.array(a0), np.array(x0)), circ_corrcl(A, X)
        f = []
        if not (abs(t0.r - t1.r) < 1e-7 and abs(t0.p_value - t1.p_value) < 1e-6):
            f.append(f"r={t0.r}, p={t0.p_value} become r={t1.r}, p={t1.p_value} after {', '.join(ops)}")
        return (n, len(ops)), f


class Refuse(Space):
    name = "refuse"
    max_depth = 0
    bounds = "perfect cosine dependence for n=4..12 and phases; unequal lengths, 2-D, scalars, fewer than three pairs refused; inputs unchanged"

    def roots(self, tier):
        for n in range(4, 13):
            for k in range(8):
                yield ("perfect", n, k)
        for w in ("len", "2dx", "2da", "scalar", "few", "pure"):
            yield (w, 0, 0)

    def check(self, s):
        w, n, k = s
        f = []
        if w == "perfect":
            a = np.array([2.5 * math.sin(1.7 * i * i + k) for i in range(n)])
            t = circ_corrcl(a, 4 - 2.5 * np.cos(a - 0.8 * k))
            if abs(t.r - 1) > 1e-6:
                f.append(f"r={t.r} for x = 4 - 2.5 cos(a - c)")
            return s, f
        a, x = np.array([0.1, 1.0, 2.0, 4.5]), np.array([0.3, 1.4, 2.2, 2.9])
        args = {"len": (a, x[:3]), "2dx": (a, x.reshape(2, 2)), "2da": (a.reshape(2, 2), x), "scalar": (1.0, 2.0), "few": (a[:2], x[:2])}.get(w)
        if args:
            try:
                circ_corrcl(*args)
                f.append(f"{w} accepted")
            except ValueError:
                pass
        else:
            p, q = a.copy(), x.copy()
            circ_corrcl(p, q)
            if not (np.array_equal(p, a) and np.array_equal(q, x)):
                f.append("inputs modified")
        return s, f


def spaces(tier):
    return [Def(), Moves(tier), Refuse()]
