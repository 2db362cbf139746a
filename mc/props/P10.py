"""Frozen distributions answer like the distribution they were frozen from."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.props.P05 import ALT

TAU = 2 * math.pi
X = np.array([0.0, 0.3, 1.9, 4.4, 6.2])
Q = np.array([0.01, 0.2, 0.5, 0.93])
CALLS = {
    "pdf": (X,), "logpdf": (X,), "cdf": (X,), "logcdf": (X[1:],), "sf": (X,), "logsf": (X[:-1],), "ppf": (Q,), "isf": (Q,),
    "mean": (), "median": (), "var": (), "std": (), "r": (), "dispersion": (), "skewness": (), "kurtosis": (), "stats": (), "entropy": (),
    "trig_moment1": (1,), "trig_moment2": (2,), "trig_moment0": (0,), "trig_moment_kw": (), "interval": (0.9,), "support": (), "expect": (), "expect_cos": (), "expect_part": (),
}


CHEAP = ("pdf", "logpdf", "cdf", "sf", "ppf", "trig_moment1", "mean", "support")


def run(d, call, a, kw, frozen):
    """`a`, `kw` are empty for a frozen distribution"""
    fn = call
    x = CALLS[call]
    if call.startswith("trig_moment"):
        if call.endswith("kw"):
            return d.trig_moment(3, *a, **kw) if not frozen else d.trig_moment(p=3)
        return d.trig_moment(*x, *a, **kw)
    if call.startswith("expect"):
        g = {"expect": None, "expect_cos": np.cos, "expect_part": lambda t: t * t}[call]
        b = {"lb": 1.0, "ub": 4.0} if call == "expect_part" else {}
        if frozen:
            return d.expect(g, **b)
        return d.expect(g, args=tuple(a), **b)
    return getattr(d, fn)(*x, *a, **kw)


def flat(v):
    if isinstance(v, dict):
        return np.array([v[k] for k in sorted(v)], dtype=float), sorted(v)
    return np.asarray(v), None


def same(u, v):
    (u, ku), (v, kv) = flat(u), flat(v)
    return ku == kv and u.shape == v.shape and np.allclose(u, v, rtol=1e-12, atol=1e-14, equal_nan=True)


_memo = {}


def direct(d, c, a, name, par):
    if (name, par, c) not in _memo:
        _memo[name, par, c] = run(d, c, a, {}, False)
    return _memo[name, par, c]


class Freeze(Space):
    name = "freeze"
    chunk = 4
    max_depth = 0
    bounds = "14 distributions x 2 parameter vectors x 28 methods x (positional, keyword, mixed) freezing x (call, freeze())"

    def roots(self, tier):
        for d in M.DISTS:
            for k, par in enumerate(ALT[d.name]):
                if (d.name in M.SLOW or d.name.startswith("jones")) and k and tier == "quick":
                    continue
                for c in CALLS:
                    for form in ("pos", "kw", "mixed", "freeze"):
                        if form == "mixed" and tier == "quick" and (c not in CHEAP or d.name == "jonespewsey") or form == "freeze" and c not in CHEAP:
                            continue
                        yield (d.name, par, c, form)

    def check(self, s):
        name, par, c, form = s
        D = M.BY[name]
        d = D.obj
        a = D.args(0.7, par)
        kw = dict(zip(D.shapes, a))
        first = dict(list(kw.items())[1:])
        want = direct(d, c, a, name, par)
        fz = {"pos": lambda: d(*a), "kw": lambda: d(**kw), "mixed": lambda: d(*a[:1], **first), "freeze": lambda: d.freeze(*a)}[form]()
        f = []
        try:
            got = run(fz, c, (), {}, True)
        except Exception as e:
            return "exc", [f"{c} of the frozen distribution raised {e!r}; {c}(*{a}) = {want!r}"[:400]]
        if not same(got, want):
            f.append(f"frozen {c} = {got!r}, unfrozen {want!r}")
        if form == "kw" and not c.startswith("expect"):
            got = run(d, c, (), kw, False)
            if not same(got, want):
                f.append(f"{c} with keyword parameters = {got!r}, positional {want!r}")
        if form == "mixed" and not c.startswith("expect") and a:
            got = run(d, c, a[:1], first, False)
            if not same(got, want):
                f.append(f"{c} with mixed parameters = {got!r}, positional {want!r}")
        return (name, c), f


class Independent(Space):
    """two frozen distributions and their parent do not disturb one another"""
    name = "interplay"
    chunk = 2
    bounds = "14 distributions x every sequence of <= 3 (thorough: 4) calls, each on one of (frozen A, frozen B, parent)"

    def __init__(self, tier):
        self.max_depth = 3 if tier == "quick" else 4

    def roots(self, tier):
        for d in M.DISTS:
            yield (d.name,)

    def actions(self, s):
        for who in "ABP":
            for c in ("pdf", "cdf") if len(s) < self.max_depth else ("pdf", "cdf", "ppf"):
                yield who + c, s + ((who, c),)

    def check(self, s):
        name = s[0]
        if len(s) == 1:
            return (name,), []
        D = M.BY[name]
        a, b = D.args(0.7, ALT[name][0]), D.args(4.0, ALT[name][1])
        p = D.fresh()
        obj = {"A": (p(*a), ()), "B": (p(*b), ()), "P": (p, b)}
        for who, c in s[1:]:
            o, x = obj[who]
            out = np.asarray(getattr(o, c)(*CALLS[c], *x))
        ref = np.asarray(getattr(D.obj, c)(*CALLS[c], *(a if who == "A" else b)))
        if not np.allclose(out, ref, rtol=1e-10, atol=1e-12):
            return "dep", [f"{c} of {who} after {s[1:-1]} is {out.tolist()} expected {ref.tolist()}"]
        return (name, who, c), []


def spaces(tier):
    return [Freeze(), Independent(tier)]
