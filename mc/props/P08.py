"""Evaluation history: the caches of a distribution object never show."""
import copy
import math
import pickle

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.props.P05 import ALT

TAU = 2 * math.pi
X = np.array([0.0, 0.3, 1.9, 3.3, 4.4, 6.2])
Q = np.array([0.01, 0.2, 0.5, 0.93])


def params(name):
    """two vectors, the first one turned, and the first one with its last shape parameter nudged"""
    D = M.BY[name]
    A, B = ALT[name]
    out = [D.args(0.7, A), D.args(4.0, B)]
    if D.loc:
        out.append(D.args(0.7001, A))
    if A:
        out.append(D.args(0.7, A[:-1] + (A[-1] - 1e-4,)))
    if name == "wrapnorm":
        out += [(0.7, 0.02), (0.7, 0.98)]
    if name in ("vonmises_flattopped", "jonespewsey", "inverse_batschelet"):
        out.append(D.args(0.7, (A[0] * 1.0003,) + A[1:]))
    return out[:3] if QUICK and name in ("inverse_batschelet", "wrapstable") else out


def ev(d, fn, a):
    if fn == "moment":
        return np.array([complex(d.trig_moment(1, *a))])
    if fn == "rvs":
        return np.asarray(d.rvs(*a, size=2, random_state=3) if d.name != "vonmises" else d.rvs(mu=a[0], kappa=a[1], size=2, random_state=3))
    if fn == "fit":
        try:
            d.fit(np.array([0.1, 0.5, 0.9, 1.3, 2.2, 6.0]), **({"method": "moments"} if d.name not in ("circularuniform",) else {}))
        except (ValueError, TypeError, NotImplementedError):
            pass
        return np.zeros(1)
    if fn == "pdf1":
        return np.array([float(d.pdf(2.0, *a))])
    return np.asarray(getattr(d, fn)(Q if fn == "ppf" else X, *a), dtype=float)


FNS = ("pdf", "cdf", "ppf", "moment", "rvs", "pdf1")
_ref = {}
QUICK = True


def fresh(name, k, fn):
    key = (name, k, fn)
    if key not in _ref:
        _ref[key] = ev(M.BY[name].fresh(), fn, params(name)[k])
    return _ref[key]


class Caches(Space):
    name = "caches"
    chunk = 4
    bounds = "14 distributions x every sequence of <= 2 (thorough: 3) evaluations (6 functions at up to 6 parameter vectors, a fit, a pickled and a deep copy) on one object"

    def __init__(self, tier):
        global QUICK
        QUICK = tier == "quick"
        self.max_depth = 2 if tier == "quick" else 3

    def roots(self, tier):
        for d in M.DISTS:
            yield (d.name,)

    def actions(self, s):
        name = s[0]
        for k in range(len(params(name))):
            for fn in FNS:
                if fn == "moment" and k and QUICK:
                    continue
                yield f"{fn}{k}", s + ((fn, k),)
        if len(s) < self.max_depth and (len(s) == 1 or self.max_depth > 2):
            for fn in ("fit", "pickle", "copy"):
                yield fn, s + ((fn, 0),)
        if len(s) == 2:
            for fn in ("pickle", "copy"):
                yield fn, s + ((fn, 0),)

    def check(self, s):
        name = s[0]
        d = M.BY[name].fresh()
        out = None
        last = None
        for fn, k in s[1:]:
            if fn == "pickle":
                d = pickle.loads(pickle.dumps(d))
            elif fn == "copy":
                d = copy.deepcopy(d)
            else:
                out = ev(d, fn, params(name)[k])
                last = (fn, k)
        if len(s) > 1 and s[-1][0] in ("pickle", "copy"):
            fn, k = last or ("pdf", 0)
            if fn == "fit":
                fn, k = "cdf", 0
            last = (fn, k)
            out = ev(d, fn, params(name)[k])
        if last is None or last[0] == "fit":
            return (name,), []
        want = fresh(name, last[1], last[0])
        if not np.allclose(out, want, rtol=1e-10, atol=1e-12):
            return "dep", [f"{last[0]}{params(name)[last[1]]} after {s[1:-1]} is {out.tolist()}, on a fresh object {want.tolist()}"]
        return (name, last), []


class Neighbours(Space):
    name = "neighbours"
    chunk = 2
    max_depth = 0
    bounds = ("14 distributions x every pair of parameter vectors that differ in one coordinate only (by a third, by 0.003, to another value; 6 values per coordinate in thorough) "
              "x every ordered pair of 5 functions (in quick the same function and the change by 0.003 only for the costly laws): the second evaluation equals that of a fresh object")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for D in M.DISTS:
            A, B = ALT[D.name]
            base = D.args(0.7, A)
            for i, v in enumerate(base):
                other = [v * 2 / 3, v + 0.003] + ([v * 1.15, v - 0.02, v * 0.9999, v + 1e-6] if tier != "quick" else [])
                other.append(D.args(4.0, B)[i])
                if self.tier == "quick" and D.name in M.SLOW:
                    other = other[1:2]
                for o in other:
                    b = base[:i] + (o,) + base[i + 1:]
                    if D.name == "katojones" and not D.obj._argcheck(*b):
                        continue
                    for first, second in ((base, b), (b, base)):
                        yield (D.name, first, second)

    def check(self, s):
        name, a, b = s
        fns = ("pdf", "cdf", "ppf", "rvs", "moment")
        slow = name in M.SLOW
        f = []
        want = {}
        for g in fns:
            if slow and self.tier == "quick" and g in ("ppf", "moment"):
                continue
            want[g] = self.ev(M.BY[name].fresh(), g, b)
        for g in want:
            for h in fns if not slow else (g,):
                d = M.BY[name].fresh()
                self.ev(d, h, a)
                got = self.ev(d, g, b)
                if not np.allclose(got, want[g], rtol=1e-10, atol=1e-12):
                    f.append(f"{g}{b} after {h}{a} is {got.tolist()}, on a fresh object {want[g].tolist()}")
        return (name, tuple(x == y for x, y in zip(a, b))), f

    @staticmethod
    def ev(d, fn, a):
        if fn == "rvs":
            return np.asarray(d.rvs(*a, size=12, random_state=3) if d.name != "vonmises" else d.rvs(mu=a[0], kappa=a[1], size=12, random_state=3))
        return ev(d, fn, a)


class Close(Space):
    name = "close"
    chunk = 4
    max_depth = 0
    bounds = ("14 distributions x 2 parameter vectors x every coordinate moved by 1e-3, 1e-5, 3e-7, 1e-9, 1e-11 (relative) either way x pdf, logpdf, cdf (the costly laws: pdf, logpdf): "
              "evaluated after the unmoved vector, the moved one gives the value of a fresh object to 1e-13")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for D in M.DISTS:
            for j in range(2):
                base = D.args((0.7, 4.0)[j], ALT[D.name][j])
                for i in range(len(base)):
                    for e in (1e-3, 1e-5, 3e-7, 1e-9, 1e-11):
                        yield (D.name, base, i, e)

    def check(self, s):
        name, a, i, e = s
        f = []
        for sg in (1, -1):
            b = a[:i] + (a[i] * (1 + sg * e) if a[i] else sg * e,) + a[i + 1:]
            if not np.all(M.BY[name].obj._argcheck(*b)):
                continue
            for fn in ("pdf", "logpdf") + (() if name in M.SLOW else ("cdf",)):
                want = ev(M.BY[name].fresh(), fn, b)
                d = M.BY[name].fresh()
                ev(d, fn, a)
                got = ev(d, fn, b)
                if not np.allclose(got, want, rtol=1e-13, atol=1e-14):
                    f.append(f"{fn}{b} after {fn}{a} is {got.tolist()}, on a fresh object {want.tolist()}")
        return (name, i, e), f


def spaces(tier):
    return [Caches(tier), Neighbours(tier), Close(tier)]
