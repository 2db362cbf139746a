"""Circular-circular correlation: definition, bounds, invariances, tests."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc.engine import Space
from pycircstat2 import Circular
from pycircstat2.correlation import CorrelationResult, circ_corrcc

TAU = 2 * math.pi
OFF = (0.137, 0.0)


def ph(z):
    return 0.5 * math.erfc(z / math.sqrt(2))


def fl(a, b):
    n = len(a)
    P = [(math.sin(a[i] - a[j]), math.sin(b[i] - b[j])) for i in range(n) for j in range(i + 1, n)]
    num = math.fsum(x * y for x, y in P)
    den = math.sqrt(math.fsum(x * x for x, _ in P) * math.fsum(y * y for _, y in P))
    return None if den < 1e-6 else num / den


def js(a, b):
    ma, ra = O.mean_r(a)
    mb, rb = O.mean_r(b)
    if ra < 1e-9 or rb < 1e-9:
        return None
    sa, sb = [math.sin(x - ma) for x in a], [math.sin(y - mb) for y in b]
    den = math.sqrt(math.fsum(x * x for x in sa) * math.fsum(y * y for y in sb))
    if den < 1e-6:
        return None
    r = math.fsum(x * y for x, y in zip(sa, sb)) / den
    n = len(a)
    l22 = math.fsum((x * y) ** 2 for x, y in zip(sa, sb)) / n
    if l22 < 1e-6:
        return r, None
    t = math.sqrt(n) * math.sqrt(math.fsum(x * x for x in sa) / n * math.fsum(y * y for y in sb) / n / l22) * r
    return r, t


def ranks(x):
    x = [round(O.wrap(v), 9) % round(TAU, 9) for v in x]
    return [sum(1 for w in x if w < v) + (sum(1 for w in x if w == v) + 1) / 2 for v in x]


def nonpar(a, b):
    n = len(a)
    ra, rb = ranks(a), ranks(b)
    f = lambda s: (math.fsum(math.cos(TAU / n * (x + s * y)) for x, y in zip(ra, rb)) ** 2 + math.fsum(math.sin(TAU / n * (x + s * y)) for x, y in zip(ra, rb)) ** 2) / n ** 2
    return f(-1) - f(1)


def call(a, b, **k):
    try:
        return circ_corrcc(a, b, **k)
    except ValueError as e:
        return e


def angles(m, ks, o):
    return [TAU * k / m + o for k in ks]


def verify(a, b, tag=""):
    f = []
    A, B = np.array(a), np.array(b)
    n = len(a)
    for method in ("fl", "js", "nonparametric"):
        g = call(A, B, method=method)
        t = call(A, B, method=method, test=True)
        if method == "fl":
            e = fl(a, b)
        elif method == "js":
            e = js(a, b)
            e, stat = e if e is not None else (None, None)
        else:
            e = nonpar(a, b) if n >= 3 else None
        if e is None:
            if isinstance(g, float) and math.isfinite(g):
                f.append(f"{tag}{method}: r={g} for a sample without one")
            continue
        if isinstance(g, Exception):
            f.append(f"{tag}{method} refused: {g}")
            continue
        if not abs(float(g) - e) < 1e-8:
            f.append(f"{tag}{method}: r={g}, the definition gives {e}")
        if not -1 - 1e-12 <= g <= 1 + 1e-12:
            f.append(f"{tag}{method}: r={g} outside [-1, 1]")
        # test results
        if method == "fl":
            jack = [fl(a[:i] + a[i + 1:], b[:i] + b[i + 1:]) if n > 2 else None for i in range(n)]
            if any(v is None for v in jack):
                if not isinstance(t, Exception) and not isinstance(t, CorrelationResult):
                    f.append(f"{tag}{method}: test returned {t}")
                continue
            mean = math.fsum(jack) / n
            s = math.sqrt(math.fsum((v - mean) ** 2 for v in jack) / (n - 1) / n) * 1.959963984540054
            c = n * e - (n - 1) * mean
            if isinstance(t, Exception):
                f.append(f"{tag}{method}: test refused: {t}")
                continue
            if abs(abs(c) - s) > 1e-9 and t.reject_null != (abs(c) > s):
                f.append(f"{tag}{method}: reject_null={t.reject_null}, the jackknife interval is {c - s}..{c + s}")
            if t.reject_null not in (True, False):
                f.append(f"{tag}{method}: reject_null={t.reject_null!r}")
        elif method == "js":
            if stat is None:
                continue
            if isinstance(t, Exception):
                f.append(f"{tag}{method}: test refused: {t}")
                continue
            if not abs(t.test_stat - stat) < 1e-7 * (1 + abs(stat)) or not abs(t.p_value - 2 * ph(abs(stat))) < 1e-9:
                f.append(f"{tag}{method}: statistic {t.test_stat}, p {t.p_value}; expected {stat}, {2 * ph(abs(stat))}")
        else:
            if isinstance(t, Exception):
                f.append(f"{tag}{method}: test refused: {t}")
                continue
            crit = 2.99 + 2.16 / n
            if abs((n - 1) * e - crit) > 1e-9 and bool(t.reject_null) != ((n - 1) * e > crit):
                f.append(f"{tag}{method}: reject_null={t.reject_null} at (n-1)r={(n - 1) * e}, critical value {crit}")
        if not isinstance(t, Exception) and not abs(t.r - g) < 1e-12:
            f.append(f"{tag}{method}: r={g} without and {t.r} with the test")
    return f


class Pairs(Space):
    name = "definition"
    chunk = 16
    max_depth = 0
    bounds = "every pair of sequences up to a common reordering: n=2..4 on 6 places, n=5 on 4 places (thorough n=4 on 8, n=5 on 5), offsets 0.137 and 0; all 3 methods with and without test"

    def roots(self, tier):
        fam = [(6, 2), (6, 3), (5, 4), (4, 5)] if tier == "quick" else [(8, 2), (8, 3), (6, 4), (5, 5), (3, 6)]
        for m, n in fam:
            cells = list(itertools.product(range(m), repeat=2))
            for j, c in enumerate(itertools.combinations_with_replacement(cells, n)):
                if tier == "quick" and n >= 4 and min(x for x, _ in c) != 0:
                    continue
                if n == 5 and min(y for _, y in c) != 0:
                    continue
                yield (m, tuple(x for x, _ in c), tuple(y for _, y in c), j % 2)

    def check(self, s):
        m, ka, kb, o = s
        a, b = angles(m, ka, OFF[o]), angles(m, kb, OFF[1 - o])
        return (len(ka), len(set(ka)), len(set(kb))), verify(a, b)


class Moves(Space):
    name = "invariance"
    chunk = 16
    bounds = "irregular samples of 5..8 pairs; every sequence of up to 2 (thorough 3) moves: rotate a / b, reflect a / b / both, full turn on one angle of a / b, reorder the pairs, swap a and b, lists, Circular objects"
    OPS = ("rot_a", "rot_b", "refl_a", "refl_b", "turn_a", "turn_b", "perm", "swap", "list", "circ")

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3

    def roots(self, tier):
        for n in (5, 6, 8):
            for j in range(6 if tier == "quick" else 12):
                yield (n, j, ())

    def actions(self, s):
        for op in self.OPS:
            yield op, s[:2] + (s[2] + (op,),)

    def base(self, n, j):
        a = [O.wrap(1.3 * j + 0.8 * math.sin(1.7 * i * i + j) * (1 + 0.1 * i)) for i in range(n)]
        b = [O.wrap((0.4 + 0.1 * j) * x * (-1) ** j + 0.5 * math.cos(2.3 * i * i + 3 * j) + 0.2 * j) for i, x in enumerate(a)]
        return a, b

    def check(self, s):
        n, j, ops = s
        a0, b0 = self.base(n, j)
        if not ops:
            return (n, j), verify(a0, b0)
        a, b, sign = list(a0), list(b0), 1
        wrapper = "array"
        for op in ops:
            if op == "rot_a":
                a = [x + 2.1 for x in a]
            elif op == "rot_b":
                b = [x - 4.4 for x in b]
            elif op == "refl_a":
                a, sign = [-x for x in a], -sign
            elif op == "refl_b":
                b, sign = [-x for x in b], -sign
            elif op == "turn_a":
                a[1] += TAU
            elif op == "turn_b":
                b[2] -= 2 * TAU
            elif op == "perm":
                a, b = a[2:] + a[:2][::-1], b[2:] + b[:2][::-1]
            elif op == "swap":
                a, b = b, a
            else:
                wrapper = op
        f = []
        if wrapper == "array":
            A, B = np.array(a), np.array(b)
        elif wrapper == "list":
            A, B = list(a), tuple(b)
        else:
            A, B = (Circular(np.mod(x, TAU), unit="radian", kwargs_mean_ci=dict(method=None)) for x in (a, b))
        for method in ("fl", "js", "nonparametric"):
            r0 = circ_corrcc(np.array(a0), np.array(b0), method=method)
            r1 = circ_corrcc(A, B, method=method, strict=False)
            if not abs(r1 - sign * r0) < 1e-9:
                f.append(f"{method}: r={r0} becomes {r1} after {', '.join(ops)} (expected sign {sign})")
            t0 = circ_corrcc(np.array(a0), np.array(b0), method=method, test=True)
            t1 = circ_corrcc(A, B, method=method, test=True, strict=False)
            if method == "js" and not abs(t0.p_value - t1.p_value) < 1e-9:
                f.append(f"js: p={t0.p_value} becomes {t1.p_value} after {', '.join(ops)}")
            if method == "fl" and bool(t0.reject_null) != bool(t1.reject_null):
                f.append(f"fl: reject={t0.reject_null} becomes {t1.reject_null} after {', '.join(ops)}")
        return (n, len(ops)), f


class Edge(Space):
    name = "edges"
    max_depth = 0
    bounds = "perfect association (b = +-a + c) for n=3..12; refusals: unequal lengths, scalars, 2-D, too few, unknown method, strict with a uniform Circular sample; inputs unchanged"

    def roots(self, tier):
        for n in range(3, 13):
            for sg in (1, -1):
                yield ("perfect", n, sg)
        for w in ("len", "scalar", "2d", "one", "two-np", "method", "strict", "pure"):
            yield ("refuse", w, 0)

    def check(self, s):
        f = []
        if s[0] == "perfect":
            _, n, sg = s
            a = [O.wrap(0.9 * math.sin(1.3 * i * i) + 2) for i in range(n)]
            b = [O.wrap(sg * x + 1.234) for x in a]
            for method in ("fl", "js", "nonparametric"):
                r = circ_corrcc(np.array(a), np.array(b), method=method)
                if method == "nonparametric":
                    if not (r * sg > 0.3 and abs(r - nonpar(a, b)) < 1e-9):
                        f.append(f"nonparametric r={r} for perfect association of sign {sg}")
                elif abs(r - sg) > 1e-9:
                    f.append(f"{method} r={r} for perfect association of sign {sg}")
            return s, f
        w = s[1]
        a, b = np.array([0.1, 1.0, 2.0, 2.5]), np.array([0.3, 1.4, 2.2, 2.9])

        def refuses(*x, **k):
            return isinstance(call(*x, **k), ValueError)
        for method in ("fl", "js", "nonparametric"):
            if w == "len" and not refuses(a, b[:3], method=method):
                f.append(f"{method}: unequal lengths accepted")
            if w == "scalar" and not refuses(1.0, 2.0, method=method):
                f.append(f"{method}: scalars accepted")
            if w == "2d" and not refuses(a.reshape(2, 2), b.reshape(2, 2), method=method):
                f.append(f"{method}: 2-D accepted")
            if w == "one" and not refuses(a[:1], b[:1], method=method):
                f.append(f"{method}: one pair accepted")
            if w == "pure":
                x, y = a.copy(), b.copy()
                circ_corrcc(x, y, method=method, test=True)
                if not (np.array_equal(x, a) and np.array_equal(y, b)):
                    f.append(f"{method} modified its input")
                if circ_corrcc(a, b, method=method.upper()) != circ_corrcc(a, b, method=method):
                    f.append(f"{method}: upper case differs")
        if w == "two-np" and not refuses(a[:2], b[:2], method="nonparametric"):
            f.append("nonparametric: two pairs accepted")
        if w == "method" and not refuses(a, b, method="pearson"):
            f.append("unknown method accepted")
        if w == "strict":
            u = Circular(np.array([10.0, 95, 170, 260, 350, 40, 130, 220]), unit="degree")
            c = Circular(np.array([10.0, 15, 17, 26, 35, 40, 13, 22]), unit="degree")
            for x, y in ((u, c), (c, u)):
                if not refuses(x, y, method="js"):
                    f.append("strict js accepted a sample without a significant mean")
                if refuses(x, y, method="js", strict=False):
                    f.append("js with strict=False refused")
        return s, f


def spaces(tier):
    return [Pairs(), Moves(tier), Edge()]
