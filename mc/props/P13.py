"""Equivariance of the fits: rotation, reflection, order, full turns, weights as repetitions."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.props import P14

TAU = 2 * math.pi
ROT = (0.0, 0.7, 2.5, math.pi, 5.9)
KINDS = ("same", "permuted", "turns", "reflected", "repeated", "zero weight", "unit weights")
# how the shapes change when the circle is reflected
SIGN = {"jonespewsey_sineskewed": (1, 1, -1), "inverse_batschelet": (1, -1, -1), "wrapstable": (1, -1, 1)}
UNREFLECTED = ("jonespewsey_asym",)      # nu in [0, 1) only: the mirror image is not in the family


class Equivariance(Space):
    name = "fit_equivariance"
    chunk = 1
    max_depth = 0
    bounds = ("13 families x 2 quantile samples (n=24) x 2 methods x rotations (0, 0.7, 2.5, pi, 5.9), alone and followed by each of: permutation, added full turns, reflection, "
              "repetition against integer weights, observations of weight zero, unit weights against none")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for d in M.DISTS[1:]:
            for k in (0, 1):
                for m in P14.METHODS.get(d.name, ("moments", "mle")):
                    if d.name in P14.SLOWFIT and m == "mle" and tier == "quick":
                        continue
                    for i, r in enumerate(ROT):
                        if r and not d.loc:
                            continue
                        for j, kind in enumerate(KINDS):
                            if r == 0 and kind == "same" or kind == "reflected" and d.name in UNREFLECTED:
                                continue
                            if d.name in P14.SLOWFIT and m == "mle" and (k or i not in (0, 4)):
                                continue
                            yield (d.name, k, m, i, kind)

    def check(self, s):
        name, k, method, i, kind = s[:5]
        n = s[5] if len(s) > 5 else 24
        D = M.BY[name]
        x = P14.sample(name, 0.4, P14.TRUE[name][k], n, 1)
        w = np.where(np.arange(n) % 3 == 0, 2.0, np.where(np.arange(n) % 4 == 1, 3.0, 1.0)) if kind in ("repeated", "zero weight", "permuted") else None
        kw = {} if w is None else {"weights": w}
        est, info = P14.fit(D.fresh(), name, x, method, **kw)
        r = ROT[i]
        y, v = x + r, w
        if kind == "permuted":
            p = (np.arange(n) * 5) % n
            y, v = y[p], w[p]
        elif kind == "turns":
            y = y + TAU * ((np.arange(n) % 3) - 1)
        elif kind == "reflected":
            y = -x + r
        elif kind == "repeated":
            y, v = np.repeat(y, w.astype(int)), None
        elif kind == "zero weight":
            y, v = np.append(y, [0.123, 3.0, r + 1.9]), np.append(w, [0.0, 0, 0])
        elif kind == "unit weights":
            v = np.ones(n)
        if kind not in ("turns",):
            y = np.mod(y, TAU)
        kw = {} if v is None else {"weights": v}
        est2, info2 = P14.fit(D.fresh(), name, y, method, **kw)
        m1, p1 = P14.split(name, est)
        m2, p2 = P14.split(name, est2)
        f = []
        p1, p2 = list(p1), list(p2)
        if kind == "reflected":
            m1 = -m1
            if name in SIGN:
                p1 = [a * b for a, b in zip(SIGN[name], p1)]
            if name == "katojones":
                p1[2] = (-p1[2]) % TAU
        m1 += r if D.loc else 0
        wy = np.ones(len(y)) if v is None else v
        tight = method == "moments" or kind in ("unit weights",) and r == 0
        a, b = P14.loglik(name, y, wy, m1 % TAU, tuple(p1)), P14.loglik(name, y, wy, m2, tuple(p2))
        if not abs(a - b) < (1e-6 if tight else 1e-3):
            f.append(f"{method} {est2} after the rearrangement, expected {m1 % TAU, *p1}: log-likelihoods {b}, {a}")
        if tight:
            for u, z in zip(p1, p2):
                c = abs((u - z + math.pi) % TAU - math.pi) if name == "katojones" else abs(u - z)
                if c > 1e-6 * (1 + abs(u)):
                    f.append(f"{method} {est2} after the rearrangement, expected {m1 % TAU, *p1}")
                    break
        # (a reflected arc statistic may move on a flat likelihood)
        if D.loc and abs((m1 - m2 + math.pi) % TAU - math.pi) > (1e-6 if tight else 2e-2):
            f.append(f"{method} location {m2}, expected {m1 % TAU}")
        n1, n2 = info.get("n_effective"), info2.get("n_effective")
        if kind != "repeated" and n1 is not None and abs(n1 - n2) > 1e-9:
            f.append(f"n_effective {n2}, expected {n1}")
        l1, l2 = info.get("loglik"), info2.get("loglik")
        if l1 is not None and l2 is not None and abs(l1 - l2) > (1e-6 if tight else 1e-3):
            f.append(f"reported log-likelihood {l2}, expected {l1}")
        return (name, k, method, kind) + s[5:], f


class Few(Equivariance):
    name = "few"
    bounds = "the same rearrangements of 6 and 9 observations (up to 12 and 16 with repetitions) for the moment fits and the von Mises likelihood fit, where small-sample corrections apply"

    def roots(self, tier):
        for d in M.DISTS[1:]:
            if "moments" not in P14.METHODS.get(d.name, ("moments", "mle")) or d.name == "wrapstable":
                continue
            for k in (0, 1):
                for m in ("moments", "mle") if d.name == "vonmises" else ("moments",):
                    for i in (0, 2, 4) if d.loc else (0,):
                        for kind in KINDS:
                            if i == 0 and kind == "same":
                                continue
                            for n in (6, 9) if self.tier != "quick" or d.name in P14.VMLIKE else (6 + 3 * k,):
                                yield (d.name, k, m, i, kind, n)


ALIAS = {"moments": ("MOMENTS", "analytical"), "mle": ("MLE", "numerical"), "two-step": ("Two-Step", "twostep", "two_step")}
ALIASED = ("vonmises", "wrapnorm", "wrapcauchy", "jonespewsey")


class Spellings(Space):
    name = "spellings"
    chunk = 1
    max_depth = 0
    bounds = ("13 families x methods (n=16): list, column, tuple, table and read-only containers of data and weights, return_info off, "
              "upper case and the documented aliases of the method, a second call on the same object; and refusal (ValueError) of unknown methods, empty data, "
              "weights of another length, negative weights and weights that are all zero")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for d in M.DISTS[1:]:
            for m in P14.METHODS.get(d.name, ("moments", "mle")):
                if d.name in P14.SLOWFIT and m == "mle" and tier == "quick":
                    continue
                yield (d.name, m)

    def check(self, s):
        name, method = s
        D = M.BY[name]
        x = P14.sample(name, 0.4, P14.TRUE[name][0], 16, 1)
        w = np.where(np.arange(16) % 3 == 0, 2.0, 1.0)
        d = D.fresh()
        asym = name == "jonespewsey_asym"

        def call(x, w=None, m=method, **kw):
            if w is not None:
                kw["weights"] = w
            if not asym:
                kw["method"] = m
            return np.atleast_1d(np.asarray(d.fit(x, **kw), float))

        f = []
        r0, rw = call(x), call(x, w)
        ro = x.copy()
        ro.flags.writeable = False
        wo = w.copy()
        wo.flags.writeable = False
        ways = [("again", lambda: call(x), r0), ("list", lambda: call(x.tolist()), r0), ("column", lambda: call(x[:, None]), r0),
                ("table", lambda: call(x.reshape(4, 4)), r0), ("read-only", lambda: call(ro), r0), ("tuple", lambda: call(tuple(x)), r0),
                ("weights as a list", lambda: call(x, w.tolist()), rw), ("integer weights", lambda: call(x, w.astype(int)), rw),
                ("read-only weights", lambda: call(ro, wo), rw),
                ("with information", lambda: np.atleast_1d(np.asarray(d.fit(x, return_info=True, **({} if asym else {"method": method}))[0], float)), r0)]
        if not asym:
            for a in ALIAS[method] if name in ALIASED or method == "two-step" else ALIAS[method][:1]:
                ways.append((f"method={a!r}", lambda a=a: call(x, m=a), r0))
        for how, g, r in ways:
            try:
                v = g()
            except Exception as e:
                if not (how == f"method={method.upper()!r}" and isinstance(e, ValueError)):     # (capitals may be refused, not misread)
                    f.append(f"{how}: {type(e).__name__} {e}")
                continue
            if v.shape != r.shape or not np.array_equal(v, r):
                f.append(f"{how}: {v}, otherwise {r}")
        if not np.array_equal(x, P14.sample(name, 0.4, P14.TRUE[name][0], 16, 1)):
            f.append("the data were changed")
        bad = [("empty data", lambda: call(np.array([]))), ("weights of another length", lambda: call(x, w[:-1])),
               ("negative weights", lambda: call(x, np.where(np.arange(16) == 3, -1.0, w))), ("weights all zero", lambda: call(x, 0 * w))]
        if not asym:
            bad.append(("unknown method", lambda: call(x, m="median")))
        for how, g in bad:
            try:
                f.append(f"{how}: {g()} instead of an error")
            except ValueError:
                pass
            except Exception as e:
                f.append(f"{how}: {type(e).__name__} {e} instead of ValueError")
        return (name, method), f


def spaces(tier):
    return [Equivariance(tier), Few(tier), Spellings(tier)]
