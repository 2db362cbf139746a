"""Integrals of the laws: entropy, expectations, equal-tail intervals, support, negative log-likelihood."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.limits import NOTE, Limits as LimitsBase, tol as near
from mc.props.P02 import tol

TAU = 2 * math.pi
FUNS = {
    "one": lambda t: 1.0 + 0 * t, "cos": np.cos, "linear": lambda t: 1.0 * t, "mixed": lambda t: 0.3 + np.sin(2 * t + 0.4) * t,
}
RANGES = ((None, None), (0.0, TAU), (1.0, 4.0), (0.0, 2.0), (3.5, TAU), (2.0, 2.0))


def integral(D, mu, par, g, lb, ub):
    """integral of g over [lb, ub] against the reference density: 16-point Gauss on the panels of its quadrature"""
    e = M._nodes(D.name, par)
    e = np.unique(np.concatenate([np.mod(e + mu, TAU), [0.0, TAU]]))
    e = np.unique(np.concatenate([[lb], e[(e > lb) & (e < ub)], [ub]]))
    h = np.diff(e)
    if not len(h) or not h.sum():
        return 0.0
    t = (e[:-1, None] + 0.5 * h[:, None] * (1 + M.GL[0])).ravel()
    w = (0.5 * h[:, None] * M.GL[1]).ravel()
    return math.fsum(w * g(t) * D.pdf(t, mu, par))


class Integrals(Space):
    name = "integrals"
    chunk = 2
    max_depth = 0
    bounds = "14 distributions x parameter lattice x 2 (thorough: 4) locations: entropy, expectations of 4 functions over 6 ranges (conditional or not), 6 equal-tail intervals, support, nnlf"

    def roots(self, tier):
        cnt = {}
        stride = {"jonespewsey": 5, "jonespewsey_sineskewed": 7, "jonespewsey_asym": 7, "vonmises_flattopped": 4, "inverse_batschelet": 9, "wrapstable": 3}
        for s in M.states(tier, mus=((0.7, 5.5) if tier == "quick" else (0.0, 0.7, math.pi, 5.5)), only=M.smooth):
            k = cnt[s[0]] = cnt.get(s[0], -1) + 1
            if tier == "quick" and k % stride.get(s[0], 1):
                continue
            yield s

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.obj
        a = D.args(mu, par)
        f = []
        lo, hi = d.support(*a)
        if not (float(lo) == 0.0 and abs(float(hi) - TAU) < 1e-12):
            f.append(f"support ({lo}, {hi})")
        want = D.entropy(par)
        got = float(d.entropy(*a))
        if not abs(got - want) < 2e-5 * (1 + abs(want)):
            f.append(f"entropy {got} expected {want}")
        # equal-tail intervals
        T = max(2 * tol(name, par), 1e-6)
        for c in (0.0, 0.3, 0.5, 0.9, 0.99, 1.0):
            if name == "inverse_batschelet" and c not in (0.5, 0.9):
                continue
            l, u = (float(v) for v in d.interval(c, *a))
            if not 0 <= l <= u + 1e-12 or not u <= TAU + 1e-12:
                f.append(f"interval({c}) = ({l}, {u})")
                continue
            cl, cu = float(D.cdf(l, mu, par)), float(D.cdf(u, mu, par))
            if abs(cl - (1 - c) / 2) > T or abs(cu - (1 + c) / 2) > T:
                f.append(f"interval({c}) = ({l:.8g}, {u:.8g}) has tails {cl:.6g}, {1 - cu:.6g}")
        # negative log-likelihood
        x = np.mod(mu + np.array([0.0, 0.31, -0.4, 1.1]), TAU)
        lp = np.log(np.maximum(D.pdf(x, mu, par), 1e-300))
        if lp.min() > -600:
            n = float(d.nnlf((*a, 0.0, 1.0), x))
            if not abs(n + lp.sum()) < 1e-5 * (1 + abs(lp.sum())):
                f.append(f"nnlf {n} expected {-lp.sum()}")
            n = float(d.nnlf((*a, 0.0, 1.0), x + TAU * np.array([1, 0, -1, 2])))
            if not abs(n + lp.sum()) < 1e-5 * (1 + abs(lp.sum())):
                f.append(f"nnlf of angles with full turns added {n} expected {-lp.sum()}")
        # expectations
        for gn, g in FUNS.items():
            for lb, ub in RANGES:
                if name in M.SLOW and (gn, lb) not in (("cos", None), ("linear", 1.0)):
                    continue
                b = (0.0 if lb is None else lb, TAU if ub is None else ub)
                w = integral(D, mu, par, g, *b)
                kw = {k: v for k, v in (("lb", lb), ("ub", ub)) if v is not None}
                got = float(d.expect(g, args=a, **kw))
                if not abs(got - w) < 1e-5 * (1 + abs(w)):
                    f.append(f"expect({gn}, lb={lb}, ub={ub}) = {got} expected {w}")
                m = integral(D, mu, par, FUNS["one"], *b)
                if lb == 1.0 and m > 1e-3 and name not in M.SLOW:
                    got = float(d.expect(g, args=a, conditional=True, **kw))
                    if not abs(got - w / m) < 1e-4 * (1 + abs(w / m)) + 2 * tol(name, par) / m:
                        f.append(f"expect({gn}, lb={lb}, ub={ub}, conditional=True) = {got} expected {w / m}")
        return (name, round(want, 4)), f


class Limits(LimitsBase):
    bounds = NOTE + ": entropy, and the expectation of a cosine, against the documented density"
    chunk = 2
    steps = (3e-2, 1e-3, 1e-5)

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        a = D.args(mu, par)
        f = []
        want, got = D.entropy(par), float(D.obj.entropy(*a))
        t = near(name, "pdf")
        if not abs(got - want) < max(t, 1e-7) * (1 + abs(want)):
            f.append(f"entropy{a} {got!r} expected {want!r}")
        g = FUNS["cos"]
        w, got = integral(D, mu, par, g, 0.0, TAU), float(D.obj.expect(g, args=a))
        if not abs(got - w) < max(t, 1e-7):
            f.append(f"expect(cos){a} {got!r} expected {w!r}")
        return (name,), f


def spaces(tier):
    return [Integrals(), Limits()]
