"""Inadmissible arguments never produce a number."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.props.P05 import ALT

TAU = 2 * math.pi
INF = float("inf")
LOC = ("mu", "xi", "delta")
# values outside the documented domain of each shape parameter
OUT = {
    "triangular": {"rho": (-1e-6, -0.5, 0.4053, 0.5, 3.0)},
    "cardioid": {"rho": (-1e-6, -0.3, 0.5001, 1.0, 3.0)},
    "cartwright": {"zeta": (0.0, -1e-6, -2.0, -INF)},
    "wrapnorm": {"rho": (-1e-6, -0.3, 1.0001, 3.0)},
    "wrapcauchy": {"rho": (-1e-6, -0.3, 1.0001, 3.0)},
    "vonmises": {"kappa": (-1e-6, -2.0, -INF)},
    "vonmises_flattopped": {"kappa": (-1e-6, -2.0, -INF), "nu": (-1.0001, 1.0001, 3.0)},
    "jonespewsey": {"kappa": (-1e-6, -2.0)},
    "jonespewsey_sineskewed": {"kappa": (-1e-6, -2.0), "lmbd": (-1.0001, 1.0001, 3.0)},
    "jonespewsey_asym": {"kappa": (-1e-6, -2.0), "nu": (-1e-6, -0.5, 1.0001, 3.0)},
    "inverse_batschelet": {"kappa": (-1e-6, -2.0), "nu": (-1.0001, 1.0001), "lmbd": (-1.0001, 1.0001)},
    "wrapstable": {"alpha": (0.0, -0.5, 2.0001, 3.0), "beta": (-1.0001, 1.0001), "gamma": (0.0, -0.5)},
    "katojones": {"gamma": (-1e-6, 1.0, 1.5), "rho": (-1e-6, 1.0, 1.5), "lam": (-0.1, TAU, 7.0), "pair": ((0.6, 0.5), (0.9, 0.1), (0.2, 0.9))},
}
FNS = ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf", "ppf", "isf", "rvs", "frozen_pdf", "frozen_cdf", "frozen_rvs")


def value(d, fn, a):
    if fn == "rvs":
        return d.rvs(*a, size=2, random_state=1) if d.name != "vonmises" else d.rvs(mu=a[0], kappa=a[1], size=2, random_state=1)
    if fn.startswith("frozen"):
        fz = d(*a)
        return fz.rvs(size=2, random_state=1) if fn.endswith("rvs") else getattr(fz, fn[7:])(0.4)
    return getattr(d, fn)(0.4, *a)


class Domain(Space):
    name = "domain"
    chunk = 4
    max_depth = 0
    bounds = "13 distributions x every shape parameter x (values on both sides outside the documented domain, NaN, infinities) x 12 functions"

    def roots(self, tier):
        for d in M.DISTS:
            for i, n in enumerate(d.shapes):
                vals = (float("nan"),) + ((-0.5, 7.0, INF, -INF, TAU + 1e-3, -1e-3) if n in LOC else OUT[d.name].get(n, ()))
                for v in vals:
                    for fn in FNS:
                        for alt in (0, 1):
                            yield (d.name, i, repr(v), fn, alt)
            for v in OUT.get(d.name, {}).get("pair", ()):
                for fn in FNS:
                    yield (d.name, -1, repr(v), fn, 0)

    def check(self, s):
        name, i, v, fn, alt = s
        D = M.BY[name]
        d = D.obj
        v = eval(v, {"nan": float("nan"), "inf": INF})
        a = list(D.args(0.7, ALT[name][alt]))
        if i < 0:
            a = [0.7, v[0], v[1], math.pi if v[1] > 0.4 else 0.0]
        else:
            a[i] = v
        try:
            got = np.ravel(np.asarray(value(d, fn, a), dtype=float))
        except (ValueError, TypeError) as e:
            return type(e).__name__, []
        if np.all(np.isnan(got)):
            return "nan", []
        if i >= 0 and D.shapes[i] in LOC and math.isfinite(v):
            a[i] = v % TAU
            want = np.ravel(np.asarray(value(d, fn, a), dtype=float))
            if np.allclose(got, want, rtol=1e-9, atol=1e-9):
                return "wrapped", []
        return "number", [f"{fn} with {dict(zip(D.shapes, a))} {'(' + D.shapes[i] + ' = ' + repr(v) + ')' if i >= 0 else ''} = {got.tolist()}"]


class Arguments(Space):
    """points: NaN in, NaN out; probabilities outside [0, 1] have no quantile; free loc and scale are refused"""
    name = "arguments"
    chunk = 8
    max_depth = 0
    bounds = "14 distributions x 2 parameter vectors x 8 functions x points (nan, inf, q out of range, mixed arrays); loc/scale/floc keywords x 18 methods; conflicting keywords"

    def roots(self, tier):
        for d in M.DISTS:
            for alt in (0, 1):
                for fn in FNS[:8]:
                    yield (d.name, alt, fn, "points")
            for fn in ("pdf", "logpdf", "cdf", "logcdf", "sf", "logsf", "ppf", "isf", "freeze", "mean", "median", "var", "std", "r", "stats",
                       "trig_moment", "entropy", "interval", "skewness", "kurtosis", "dispersion", "expect", "fit"):
                yield (d.name, 0, fn, "locscale")
                if d.shapes and fn not in ("fit", "expect"):
                    yield (d.name, 0, fn, "conflict")
                if d.shapes and fn not in ("fit",):
                    yield (d.name, 0, fn, "missing")

    def check(self, s):
        name, alt, fn, what = s
        D = M.BY[name]
        d = D.obj
        a = D.args(0.7, ALT[name][alt])
        f = []
        if what == "points":
            q = fn in ("ppf", "isf")
            good = 0.3
            ref = float(getattr(d, fn)(good, *a))
            bad = (float("nan"),) + ((-0.1, 1.1, INF, -INF, -1e-12, 1 + 1e-12) if q else (INF, -INF))
            for b in bad:
                for x in (b, [b], [good, b, good]):
                    try:
                        got = np.ravel(np.asarray(getattr(d, fn)(x, *a), dtype=float))
                    except ValueError:
                        continue
                    n = 1 if not isinstance(x, list) else len(x)
                    if len(got) != n:
                        f.append(f"{fn}({x}) has {len(got)} values")
                        continue
                    k = 1 if n == 3 else 0
                    if not math.isnan(got[k]):
                        f.append(f"{fn}({x}) = {got.tolist()}")
                    if n == 3 and not (abs(got[0] - ref) < 1e-9 and abs(got[2] - ref) < 1e-9):
                        f.append(f"{fn}({x}) = {got.tolist()}, but {fn}({good}) = {ref}")
            return (name, fn), f

        def go(args, **kw):
            if fn == "freeze":
                return float(d.freeze(*args, **kw).pdf(1.1))
            if fn == "expect":
                return float(d.expect(np.cos, args=args, **kw))
            if fn == "fit":
                return d.fit(np.array([0.2, 0.5, 0.9, 6.0]), **kw)
            pre = {"trig_moment": (1,), "interval": (0.5,), "ppf": (0.3,), "isf": (0.3,)}.get(fn, () if fn in ("mean", "median", "var", "std", "r", "stats", "entropy", "skewness", "kurtosis", "dispersion") else (1.1,))
            return getattr(d, fn)(*pre, *args, **kw)

        if what == "locscale":
            for kw in ({"loc": 0.5}, {"scale": 2.0}, {"loc": -1e-3}, {"loc": 1e-6}, {"loc": [0.0, 0.5]}, {"scale": np.array([2.0, 1.0])}, {"scale": 0.5}, {"loc": 0.5, "scale": 2.0}, {"floc": 0.5}, {"fscale": 2.0}):
                if "f" in "".join(kw)[:1] and fn not in ("fit",):
                    continue
                try:
                    got = go(a, **kw)
                except (TypeError, ValueError, NotImplementedError):
                    continue
                f.append(f"{fn} accepted {kw} and returned {got!r}")
            return (name, fn), f
        if what == "missing":
            try:
                got = go(a[:-1])
            except (TypeError, ValueError):
                return "refused", []
            return "acc", [f"{fn} without {D.shapes[-1]} returned {got!r}"]
        for k, n in enumerate(D.shapes):
            try:
                got = go(a, **{n: a[k] + 0.1})
            except TypeError:
                continue
            f.append(f"{fn}(*{a}, {n}={a[k] + 0.1}) returned {got!r}")
        return (name, fn), f


def spaces(tier):
    return [Domain(), Arguments()]
