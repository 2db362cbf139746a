"""Fitted parameters: admissible, with the reported likelihood, and not improvable on a lattice around them."""
import itertools
import math

import numpy as np

from mc import dist as M
from mc import oracle as O
from mc.engine import Space
from mc.props.D07 import small

TAU = 2 * math.pi
# parameter vectors the data are quantiles of
TRUE = {
    "triangular": ((0.05,), (0.3,)), "cardioid": ((0.1,), (0.4,)), "cartwright": ((0.5,), (0.1,)), "wrapnorm": ((0.3,), (0.8,)),
    "wrapcauchy": ((0.3,), (0.8,)), "vonmises": ((0.5,), (8.0,)), "vonmises_flattopped": ((1.0, 0.4), (3.0, -0.5)),
    "jonespewsey": ((0.8, 1.0), (2.0, -0.5)), "jonespewsey_sineskewed": ((1.0, 0.5, 0.4), (2.0, -0.5, -0.6)),
    "jonespewsey_asym": ((1.0, 0.5, 0.3), (2.0, -0.5, 0.7)), "inverse_batschelet": ((1.0, 0.2, 0.4), (3.0, -0.3, -0.5)),
    "wrapstable": ((1.5, 0.3, 0.5), (0.9, -0.4, 0.6)), "katojones": ((0.4, 0.3, 0.1), (0.5, 0.3, 0.6)),
}
METHODS = {"jonespewsey_sineskewed": ("two-step", "mle"), "jonespewsey_asym": ("mle",)}
# bounds of the optimisers
BOX = {"rho": {"triangular": (0.0, 4 / math.pi ** 2), "cardioid": (0.0, 0.5), "wrapnorm": (1e-9, 1 - 1e-9), "wrapcauchy": (1e-9, 1 - 1e-9), "katojones": (0.0, 1 - 1e-9)},
       "zeta": (1e-6, 1e6), "kappa": (1e-6, 700.0), "nu": {"vonmises_flattopped": (-0.99, 0.99), "inverse_batschelet": (-0.99, 0.99), "jonespewsey_asym": (0.0, 0.99)},
       "psi": (-4.0, 4.0), "lmbd": (-0.99, 0.99), "alpha": (1e-3, 2.0), "beta": (-0.99, 0.99), "gamma": {"wrapstable": (1e-6, 10.0), "katojones": (0.0, 1 - 1e-9)}, "lam": (0.0, TAU)}


def box(name, shape):
    b = BOX[shape]
    return b[name] if isinstance(b, dict) else b


def fit(d, name, x, method, **kw):
    if name == "jonespewsey_asym":
        return d.fit(x, return_info=True, **kw)
    return d.fit(x, method=method, return_info=True, **kw)


def split(name, est):
    return (0.0, (float(est),)) if name == "triangular" else (float(est[0]), tuple(float(v) for v in est[1:]))


def loglik(name, x, w, mu, par):
    if name == "katojones":
        if not M.BY[name].obj._argcheck(mu % TAU, *par):
            return -math.inf
    with np.errstate(all="ignore"):
        p = M.BY[name].pdf(x, mu, par)
        return float(np.sum(w * np.log(np.maximum(p, 1e-300))))


def sample(name, mu, par, n, kind):
    """quantiles of the law; `kind` 1: unevenly placed probabilities"""
    q = (np.arange(n) + 0.5) / n
    if kind == 1:
        q = np.clip(q + 0.35 / n * np.sin(7 * np.arange(n)), 1e-3, 1 - 1e-3)
    g = np.linspace(-math.pi, math.pi, 2001)
    D = M.BY[name]
    if name == "triangular":
        return np.asarray(D.obj.ppf(q, *par))
    c = D.cdf(np.linspace(0, TAU, 4001), 0.0, par)
    return np.mod(np.interp(q, c, np.linspace(0, TAU, 4001)) + mu, TAU)


def estimate(name, mu, k, n, kind, method, **kw):
    x = sample(name, mu, TRUE[name][k], n, kind)
    est, info = fit(M.BY[name].fresh(), name, x, method, **kw)
    return x, est, info


VMLIKE = ("vonmises", "vonmises_flattopped", "jonespewsey", "inverse_batschelet")
SLOWFIT = ("inverse_batschelet",)


class Fits(Space):
    name = "fits"
    chunk = 1
    max_depth = 0
    bounds = ("13 families x 2 parameter vectors x locations (0.02, 1, 3.2, 6.26) x 2 quantile samples x 2 methods; the estimate is compared with every point of a lattice of "
              "+-(0.01, 0.05, 0.3) steps in every pair of coordinates, the moment estimate and the generating parameters")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for d in M.DISTS[1:]:
            for k in (0, 1):
                for i, mu in enumerate((0.02, 1.0, 3.2, 6.26) if d.loc else (0.0,)):
                    for kind in (0, 1):
                        for m in METHODS.get(d.name, ("moments", "mle")):
                            if d.name in SLOWFIT and m == "mle" and (tier == "quick" or kind == 0 or k == 0):
                                continue
                            yield (d.name, k, mu, kind, m)

    def check(self, s):
        name, k, mu, kind, method = s[:5]
        D = M.BY[name]
        x, est, info = estimate(name, mu, k, s[5] if len(s) > 5 else 24, kind, method)
        w = np.ones(len(x))
        m, par = split(name, est)
        f = []
        if not (0 <= m < TAU + 1e-9):
            f.append(f"location estimate {m}")
        for sh, v in zip(D.shapes[1:] if D.loc else D.shapes, par):
            lo, hi = box(name, sh)
            if name == "vonmises":
                lo, hi = 1e-9, 1e6
            if not lo - 1e-9 * abs(lo) - 1e-12 <= v <= hi + 1e-9:
                f.append(f"estimate {sh}={v} outside [{lo}, {hi}]")
        if not np.all(np.isfinite(np.asarray(D.obj.pdf(x, *D.args(m, par))))):
            f.append(f"the estimates {est} are not admissible")
        ll = loglik(name, x, w, m, par)
        T = 1e-2 if name == "inverse_batschelet" and method == "mle" else 2e-3      # (its likelihood is interpolated)
        if "loglik" in info and not abs(info["loglik"] - ll) < T:
            f.append(f"reported log-likelihood {info['loglik']}, of the documented density at the estimates {ll}")
        if info.get("converged", True) is not True:
            f.append(f"converged={info['converged']}")
        if abs(info["n_effective"] - len(x)) > 1e-9:
            f.append(f"n_effective={info['n_effective']} for {len(x)} unweighted observations")
        if method == "mle":
            best = (ll, None)
            t = loglik(name, x, w, mu, TRUE[name][k])
            if t > ll + T:
                f.append(f"log-likelihood {ll:.6g} at the estimates {est}, {t:.6g} at {(mu,) + TRUE[name][k]}")
            co = [m] + list(par)
            names = list(D.shapes) if D.loc else ["", *D.shapes]
            idx = [i for i, n in enumerate(names) if n]
            for ij in itertools.combinations(idx, 2) if len(idx) > 1 else [(idx[0],)]:
                for st in itertools.product((0, 0.01, -0.01, 0.05, -0.05, 0.3, -0.3), repeat=len(ij)):
                    c = list(co)
                    for i, h in zip(ij, st):
                        n = names[i]
                        if i == 0:
                            c[0] = c[0] + h
                        else:
                            lo, hi = box(name, n)
                            v = c[i] * (1 + h) if n in ("kappa", "zeta", "gamma") else c[i] + h
                            c[i] = v % TAU if n == "lam" else min(max(v, lo), hi)
                    l = loglik(name, x, w, c[0], tuple(c[1:]))
                    if l > best[0]:
                        best = (l, c)
            if best[1] is not None and best[0] > ll + T:
                f.append(f"log-likelihood {ll:.7g} at the estimates {est}, {best[0]:.7g} at {best[1]}")
        else:
            f += self.moments(name, x, m, par)
        return (name, k, method) + s[5:], f

    def moments(self, name, x, m, par, w=None):
        D = M.BY[name]
        f = []
        w = np.ones(len(x)) if w is None else w
        if name in VMLIKE:
            # mean direction, the standard approximation of A1^-1 with its small-sample correction
            z = (w * np.exp(1j * x)).sum() / w.sum()
            k = small(O.kappa_ml(abs(z)), abs(z), max(1, round(w.sum())))
            lo, hi = box(name, "kappa") if name != "vonmises" else (1e-9, 1e6)
            k = min(max(k, lo), hi)
            if abs(M.ang(m - np.angle(z))) > 1e-9 or abs(par[0] - k) > 1e-9 * (1 + k):
                f.append(f"moment estimate {(m,) + tuple(par)}, expected direction {np.angle(z) % TAU} and kappa {k}")
            return f
        for p in (1, 2):
            if p == 2 and name not in ("katojones", "wrapstable"):
                continue
            if name in ("jonespewsey_sineskewed", "jonespewsey_asym"):
                continue
            z = (w * np.exp(1j * p * x)).sum() / w.sum()
            if name == "katojones" and p == 2:
                z1 = (w * np.exp(1j * x)).sum() / w.sum()
                g = abs(z1)
                if abs(z * g / z1 ** 2 - g) > 0.995 * (1 - g):
                    continue      # no member of the family has these two moments
            u = D.moment(p, m, par)
            if name == "triangular":
                z = z.real
            if name == "triangular" and (z < 0 or z > 4 / math.pi ** 2) or name == "cardioid" and abs(z) > 0.5:
                continue
            if name in ("katojones", "wrapstable") and (abs(par[1]) >= 0.98 or par[0] >= 1.999):
                continue          # clipped to the admissible region
            if abs(u - z) > 1e-6 and not (name == "triangular" and abs(u.real - z) < 1e-6):
                f.append(f"moment {p} of the fitted law {u}, of the data {z}")
        return f


class Small(Fits):
    name = "small"
    bounds = "the same claims for samples of 9 and 14 observations (thorough: 7, 9, 11, 14, 17), where small-sample corrections move the starting values; not wrapstable, whose likelihood is unbounded as alpha falls to 0"

    def roots(self, tier):
        for d in M.DISTS[1:]:
            for k in (0, 1):
                for n in (9, 14) if tier == "quick" else (7, 9, 11, 14, 17):
                    for m in METHODS.get(d.name, ("moments", "mle")):
                        if d.name == "wrapstable" or d.name in SLOWFIT and m == "mle":
                            continue
                        yield (d.name, k, (1.0, 6.26)[n % 2] if d.loc else 0.0, 1, m, n)


def wts(kind, n):
    i = np.arange(n)
    return {"int": 1.0 + (i * 7 % 3), "frac": 0.2 + 0.1 * (i * 5 % 4), "big": 1e3 * (1.0 + (i * 3 % 4)), "scalar": np.full(n, 2.5)}[kind]


class Weighted(Fits):
    name = "weighted"
    chunk = 1
    max_depth = 0
    bounds = ("13 families x methods x samples of 24 x four weight patterns (integers, fractions, thousands, one scalar for all): reported log-likelihood and effective size are those "
              "of the weights, moment estimates match the weighted moments, a constant factor in the weights changes no estimate")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for j, d in enumerate(M.DISTS[1:]):
            for m in METHODS.get(d.name, ("moments", "mle")):
                if d.name in SLOWFIT and m == "mle":
                    continue
                for i, kind in enumerate(("int", "frac", "big", "scalar")):
                    if tier == "quick" and m == "mle" and d.name in M.SLOW and i != j % 4:
                        continue
                    for k, mu in ((0, 1.0), (1, 6.2)) if tier != "quick" else (((i + j) % 2, 1.0),):
                        yield (d.name, k, mu, kind, m)

    def check(self, s):
        name, k, mu, kind, method = s
        D = M.BY[name]
        x = sample(name, mu if D.loc else 0.0, TRUE[name][k], 24, 1)
        w = wts(kind, len(x))
        src = (x.copy(), w.copy())
        est, info = fit(D.fresh(), name, x, method, weights=2.5 if kind == "scalar" else w)
        f = []
        if not (np.array_equal(src[0], x) and np.array_equal(src[1], w)):
            f.append("fit changed the caller's arrays")
        m, par = split(name, est)
        ll = loglik(name, x, w, m, par)
        T = 2e-3 * max(1.0, w.sum() / len(x))
        if "loglik" in info and not abs(info["loglik"] - ll) < T:
            f.append(f"weights {kind}: reported log-likelihood {info['loglik']}, weighted log-likelihood of the documented density {ll}")
        ne = w.sum() ** 2 / (w ** 2).sum()
        if abs(info["n_effective"] - ne) > 1e-9 * ne:
            f.append(f"weights {kind}: n_effective={info['n_effective']}, expected {ne}")
        est2, info2 = fit(D.fresh(), name, x, method, weights=w * 0.5)
        m2, par2 = split(name, est2)
        if method == "moments":
            f += self.moments(name, x, m, par, w)
            big = name not in VMLIKE or w.sum() > 31        # no small-sample correction on either side
            if big and abs(M.ang(m - m2)) > 1e-7 or big and not np.allclose(par, par2, rtol=1e-6, atol=1e-7):
                f.append(f"halving the weights moves the moment estimate from {est} to {est2}")
        else:
            l2 = loglik(name, x, w, m2, par2)
            # the three-parameter likelihoods have several local maxima and the
            # start depends on the total weight (small-sample correction)
            if not name.startswith("jonespewsey") and abs(ll - l2) > T:
                f.append(f"halving the weights moves the estimate from {est} (log-likelihood {ll}) to {est2} ({l2})")
        return (name, kind, method), f


# options of the likelihood fits
UB = {"vonmises_flattopped": {"kappa": (.3, .9), "nu": (.1, .4)}, "jonespewsey": {"kappa": (.3, .9), "psi": (.1, .6)},
      "jonespewsey_sineskewed": {"kappa": (.3, .9), "psi": (.1, .6), "lmbd": (-.2, -.1)},
      "jonespewsey_asym": {"kappa": (.3, .9), "psi": (.1, .6), "nu": (.3, .6)},
      "inverse_batschelet": {"kappa": (.3, .9), "nu": (.1, .4), "lmbd": (-.3, .1)},
      "wrapstable": {"alpha": (1.2, 1.5), "beta": (-.2, .1), "gamma": (.2, .6)}}
UB2 = {"vonmises_flattopped": {"kappa": (2., 5.), "nu": (-.4, -.1)}, "jonespewsey": {"kappa": (2., 4.), "psi": (-2., -.5)},
       "jonespewsey_sineskewed": {"kappa": (2., 4.), "psi": (-2., -.5), "lmbd": (.1, .5)},
       "jonespewsey_asym": {"kappa": (2., 4.), "psi": (-2., -.5), "nu": (0., .2)},
       "wrapstable": {"alpha": (.5, .9), "beta": (.1, .4), "gamma": (.7, 2.)}}
OPTS = (None, "L-BFGS-B", "Nelder-Mead", "Powell", "TNC", "SLSQP", "trust-constr", "COBYLA")
# the optimisers that give up early are owed less
ROUGH = {"trust-constr": 5e-3, "COBYLA": 5e-3, "TNC": 1e-2}
EXTRA = {
    "vonmises_flattopped": ({"nu_grid": (0.5,)}, {"nu_grid": (-0.5, 0.0, 0.5)}, {"options": {"maxiter": 500}}, {"tol": 1e-10}),
    "jonespewsey": ({"options": {"maxiter": 500}}, {"tol": 1e-10}),
    "jonespewsey_sineskewed": ({"base_kwargs": {"options": {"maxiter": 500}}}, {"base_kwargs": {"tol": 1e-10}}, {"refine": True}),
    "jonespewsey_asym": ({"base_kwargs": {"options": {"maxiter": 500}}}, {"base_kwargs": {"tol": 1e-10}}),
    "wrapstable": ({"options": {"maxiter": 500}}, {"tol": 1e-10}),
    "katojones": ({"options": {"maxiter": 500}}, {"initial": (0.8, 0.3, 0.2, 0.5)}, {"initial": (2.0, 0.6, 0.5, 6.0)}),
    "cardioid": ({"tol": 1e-10},), "cartwright": ({"tol": 1e-10},), "wrapnorm": ({"tol": 1e-10},), "wrapcauchy": ({"tol": 1e-10},),
    "vonmises": ({"tol": 1e-10},),
}
PTS = ((.3, .5, .8, 1., 1.05, 1.2, 1.3, 1.5, 1.7, 2.0, 2.4, 2.9, 0.1, 6.1, 5.5, 4.2, 1.1, 0.9, 1.4, 3.6, .7, 1.15, 1.9, 1.25),
       (6.2, 6.0, 5.9, 5.95, 0.1, 0.2, 5.5, 5.2, 4.9, 5.8, 6.1, 6.15, 6.25, 0.5, 0.9, 2.6, 4.4, 5.75, 5.98, 6.05))


class Options(Space):
    name = "options"
    chunk = 1
    max_depth = 0
    bounds = ("12 families x two data sets x every optimiser of the documented interface, with the default bounds and with two sets of narrow ones (six "
              "families), and the starting grids, starting points, tolerances and refinement switches of each: the estimate lies inside the bounds that were "
              "asked for, its reported likelihood is its own, and no step of +-(0.01, 0.05, 0.3) in any pair of coordinates inside those bounds improves it")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for d in sorted(M.DISTS[1:], key=lambda d: d.name not in SLOWFIT):
            if d.name == "triangular":
                continue
            for i in (0, 1):
                for o in OPTS:
                    if d.name == "cartwright" and o == "TNC":     # scales its steps by the width of the bounds, 1e6
                        continue
                    if tier == "quick" and (o in ("trust-constr", "COBYLA") and d.name.startswith("jonespewsey_") or i == 1 and o not in (None, "Nelder-Mead")):
                        continue
                    for b, ub in ((0, None), (1, UB), (2, UB2)):
                        if ub is not None and d.name not in ub:
                            continue
                        if o is None and b == 0 or o == "L-BFGS-B" and b:
                            continue
                        # lines across the whole range of kappa find the unbounded likelihood of |psi| > 2
                        if o == "Powell" and d.name.startswith("jonespewsey") and b == 0:
                            continue
                        if d.name in SLOWFIT and (tier == "quick" and (b == 0 or i == 1 or o is not None) or o not in (None, "Nelder-Mead")):
                            continue
                        yield (d.name, i, o, b, -1)
                if d.name == "jonespewsey_sineskewed":
                    yield (d.name, i, None, 1, -2)
                    yield (d.name, i, None, 2, -2)
                for e in range(len(EXTRA.get(d.name, ()))):
                    yield (d.name, i, None, 0, e)

    def check(self, s):
        name, i, o, b, e = s
        D = M.BY[name]
        x = np.array(PTS[i])
        kw = {} if o is None else {"optimizer": o}
        ub = {} if b == 0 else (None, UB, UB2)[b][name]
        kw.update({f"{k}_bounds": v for k, v in ub.items()})
        if e >= 0:
            kw.update(EXTRA[name][e])
        before = repr(kw)
        est, info = fit(D.fresh(), name, x, "two-step" if "refine" in kw or e == -2 else "mle", **kw)
        f = []
        if repr(kw) != before:
            f.append(f"the options {before} were changed to {kw}")
        m, par = split(name, est)
        T = max(1e-2 if name in SLOWFIT else 2e-3, ROUGH.get(o, 0.0), ROUGH.get(info.get("optimizer"), 0.0))
        if not 0 <= m < TAU + 1e-9:
            f.append(f"location estimate {m}")
        lim = {}
        for sh, v in zip(D.shapes[1:], par):
            lo, hi = ub.get(sh, (1e-6, 1e3) if sh == "kappa" and name != "inverse_batschelet" else box(name, sh) if name != "vonmises" else (1e-9, 1e6))
            lim[sh] = (lo, hi)
            if not lo - 1e-9 * abs(lo) - 1e-12 <= v <= hi + 1e-9:
                f.append(f"{kw}: estimate {sh}={v} outside [{lo}, {hi}]")
        ll = loglik(name, x, np.ones(len(x)), m, par)
        if "loglik" in info and not abs(info["loglik"] - ll) < max(2e-3, 1e-2 if name in SLOWFIT else 0):
            f.append(f"{kw}: reported log-likelihood {info['loglik']}, of the documented density at the estimates {ll}")
        if o is not None and info.get("optimizer", o) not in (o, "Nelder-Mead", "Powell"):      # (the two fallbacks)
            f.append(f"{kw}: optimizer reported as {info['optimizer']}")
        if e == -2 or "Powell" in (o, info.get("optimizer")):      # its line searches stop early at a bound
            return (name, o, b, e), f
        co = [m] + list(par)
        names = list(D.shapes)
        best = (ll, None)
        for ij in itertools.combinations(range(len(co)), 2):
            for st in itertools.product((0, 0.05, -0.05) if name in SLOWFIT else (0, 0.01, -0.01, 0.05, -0.05, 0.3, -0.3), repeat=2):
                c = list(co)
                for j, h in zip(ij, st):
                    if j == 0:
                        c[0] += h
                        continue
                    lo, hi = lim[names[j]]
                    v = c[j] * (1 + h) if names[j] in ("kappa", "zeta", "gamma") else c[j] + h
                    c[j] = v % TAU if names[j] == "lam" else min(max(v, lo), hi)
                l = loglik(name, x, np.ones(len(x)), c[0], tuple(c[1:]))
                if l > best[0]:
                    best = (l, c)
        if best[0] > ll + T:
            f.append(f"{kw}: log-likelihood {ll:.7g} at the estimates {est}, {best[0]:.7g} at {best[1]} inside the bounds")
        return (name, o, b, e), f


def spaces(tier):
    return [Fits(tier), Small(tier), Weighted(tier), Options(tier)]
