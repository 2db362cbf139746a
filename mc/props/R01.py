"""Circular-linear regression: reported fit, stationarity, standard errors, transformations."""
import itertools
import math

import numpy as np
from scipy.special import i0e, ive

from mc import oracle as O
from mc.engine import Space
from pycircstat2.regression import CLRegression

TAU = 2 * math.pi
TYPES = ("mean", "kappa", "mixed")
DESIGNS = {
    5: (((-1.0,), (-0.4,), (0.1,), (0.6,), (1.1,)),),
    6: (((-1.0,), (-0.7,), (-0.1,), (0.3,), (0.6,), (1.2,)), ((0.0,), (1.0,), (2.0,), (3.0,), (4.0,), (5.0,)),
        ((0.0,), (0.0,), (0.0,), (1.0,), (1.0,), (1.0,)), ((-1.0, 0.2), (-0.7, -0.9), (-0.1, 0.8), (0.3, -0.3), (0.6, 1.0), (1.2, -0.6))),
    8: (((-1.0,), (-0.8,), (-0.5,), (-0.1,), (0.3,), (0.6,), (0.9,), (1.2,)),
        ((-1.0, 0.2), (-0.7, -0.9), (-0.1, 0.8), (0.3, -0.3), (0.6, 1.0), (1.2, -0.6), (0.2, 0.1), (-0.4, 0.5))),
}
NOISE = (-0.45, 0.05, 0.5)
SLOPES = (0.0, 0.7, -0.4)


def a1(k):
    return ive(1, k) / i0e(k)


def a1p(k):
    a = a1(k)
    return 1 - a / k - a * a


def data(n, dj, sl, e, mu0=0.3, wide=False):
    """response: mu0 + 2 atan(slope) + scripted errors (wide: the errors grow along the first predictor)"""
    X = np.array(DESIGNS[n][dj])
    b = np.array([SLOPES[sl], -0.3][: X.shape[1]])
    if SLOPES[sl] == 0.0:
        b = 0 * b
    e = np.array([NOISE[i] for i in e])
    if wide:
        e = e * np.exp(0.5 * X[:, 0])
    return mu0 + 2 * np.arctan(X @ b) + e, X


def run(th, X, mt, **k):
    try:
        return CLRegression(theta=th, X=X, model_type=mt, **k)
    except ValueError as ex:
        if "zero derivative" in str(ex):
            return None
        raise


def reported(th, X, mt, r):
    """everything the result states, recomputed from its own coefficients"""
    f = []
    n, p = X.shape
    R = r.result
    b, al, ga = np.asarray(R["beta"], float), float(R["alpha"]), np.asarray(R["gamma"], float)
    if b.shape != (p,) or ga.shape != (p,):
        return [f"coefficient shapes {b.shape} {ga.shape}"]
    kap = np.asarray(R["kappa"], float)
    mu = float(R["mu"])
    eta = 2 * np.arctan(X @ b)
    if mt == "kappa" and np.any(b != 0):
        f.append(f"beta {b} moved in a model without it")
    if mt == "mean":
        if kap.ndim or np.any(ga != 0) or al != 0:
            f.append(f"kappa {kap}, alpha {al}, gamma {ga} in a model with constant concentration")
            return f
        kv = np.full(n, float(kap))
    else:
        want = np.exp(al + X @ ga)
        if kap.shape != (n,) or np.abs(kap / want - 1).max() > 1e-9:
            f.append(f"kappa {kap} is not exp(alpha + X gamma) = {want}")
            return f
        kv = kap
    d = th - eta
    S, Cc = math.fsum(kv * np.sin(d)), math.fsum(kv * np.cos(d))
    L = math.hypot(S, Cc)
    if L > 1e-9 * kv.sum() and O.arc(mu, math.atan2(S, Cc)) > 1e-8:
        f.append(f"mu {mu} is not the weighted direction {math.atan2(S, Cc)} of the deviations")
    if mt == "mean":
        k0 = O.kappa_ml(L / kv.sum())
        if k0 < 1e6 and not abs(float(kap) - k0) < 1e-6 * (1 + k0):
            f.append(f"kappa {kap} for resultant length {L / kv.sum()} (expected {k0})")
    ll = math.fsum(kv * np.cos(d - mu) - np.log(i0e(kv)) - kv)
    if not abs(R["log_likelihood"] - ll) < 1e-7 * (1 + abs(ll) + kv.max()):
        f.append(f"log_likelihood {R['log_likelihood']}, its coefficients give {ll}")
    if kv.max() > 1e5 or kv.min() < 1e-4:
        return f
    # standard errors: inverse Fisher information at the reported coefficients
    A, Ap = a1(kv), a1p(kv)
    G = 2 * X / (1 + (X @ b) ** 2)[:, None]
    X1 = np.column_stack([np.ones(n), X])

    def se(name, want, tol=1e-4):
        got = np.asarray(R.get(name), float)
        want = np.asarray(want, float)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * want):
            f.append(f"{name} {got} expected {want}")

    def inv(M):
        w = np.linalg.eigvalsh(M)
        return np.sqrt(np.diag(np.linalg.inv(M))) if w[0] > 1e-4 and w[-1] / w[0] < 1e8 else None
    if mt != "kappa":
        v = inv(G.T @ ((kv * A)[:, None] * G))
        if v is not None:
            se("se_beta", v)
    elif "se_beta" in R:
        f.append("se_beta in the concentration model")
    if mt != "mean":
        v = inv(X1.T @ ((kv ** 2 * Ap)[:, None] * X1))
        if v is not None:
            se("se_alpha", v[0])
            se("se_gamma", v[1:])
    elif "se_gamma" in R or "se_alpha" in R:
        f.append("se_gamma in the mean direction model")
    if mt == "mean":
        if n > p:
            se("se_mu", 1 / math.sqrt((n - p) * kv[0] * A[0]))
        se("se_kappa", 1 / math.sqrt(n * Ap[0]), 1e-3)
    else:
        q = math.fsum(kv * A) - 0.5
        if q > 1e-3:
            se("se_mu", 1 / math.sqrt(q))
        se("se_kappa", 1 / np.sqrt(n * Ap), 1e-3)
    # predictions
    for Z in (X, X[:1], -2 * X):
        g = np.asarray(r.predict(Z), float)
        w = mu + 2 * np.arctan(Z @ b)
        if g.shape != (len(Z),) or np.abs(np.angle(np.exp(1j * (g - w)))).max() > 1e-9:
            f.append(f"predict {g[:3]} expected {w[:3]}")
    # criteria
    k = {"mean": p, "kappa": 1 + p, "mixed": 1 + 2 * p}[mt]
    if not abs(r.AIC() - (2 * k - 2 * ll)) < 1e-6 * (1 + abs(ll) + kv.max()) or not abs(r.BIC() - (k * math.log(n) - 2 * ll)) < 1e-6 * (1 + abs(ll) + kv.max()):
        f.append(f"AIC {r.AIC()}, BIC {r.BIC()}; expected {2 * k - 2 * ll}, {k * math.log(n) - 2 * ll}")
    return f


def decrement(th, X, mt, r):
    """squared Newton decrement of every block of coefficients (log-likelihood units)"""
    n, p = X.shape
    R = r.result
    b = np.asarray(R["beta"], float)
    kv = np.broadcast_to(np.asarray(R["kappa"], float), n)
    d = th - 2 * np.arctan(X @ b) - R["mu"]
    A, Ap = a1(kv), a1p(kv)
    out = {}
    if mt != "kappa":
        G = 2 * X / (1 + (X @ b) ** 2)[:, None]
        s = G.T @ (kv * np.sin(d))
        M = G.T @ ((kv * A)[:, None] * G)
        out["beta"] = float(s @ np.linalg.lstsq(M, s, rcond=1e-9)[0])
    if mt != "mean":
        X1 = np.column_stack([np.ones(n), X])
        s = X1.T @ (kv * (np.cos(d) - A))
        M = X1.T @ ((kv ** 2 * Ap)[:, None] * X1)
        out["gamma"] = float(s @ np.linalg.lstsq(M, s, rcond=1e-9)[0])
    return out


def fams(tier):
    for n, dj, st in ((5, 0, 1), (6, 0, 1), (6, 1, 2), (6, 2, 2), (6, 3, 1), (8, 0, 19), (8, 1, 19)):
        for j, e in enumerate(itertools.product(range(3), repeat=n)):
            if len(set(e)) == 1 or (j % st if tier == "quick" else (n == 8 and j % 7)):
                continue
            yield n, dj, e


class Fit(Space):
    name = "fit"
    chunk = 16
    max_depth = 0
    bounds = "7 designs (n=5, 6, 8; 1 or 2 predictors) x every (thorough; quick: strided) sequence of 3 scripted errors x 3 slopes x constant or growing spread x 3 model types: reported quantities, stationarity"

    def roots(self, tier):
        for n, dj, e in fams(tier):
            for sl in range(3) if tier != "quick" or n == 5 else (sum(e) % 3,):
                for mt in range(3):
                    yield (n, dj, e, sl, mt)

    def check(self, s):
        n, dj, e, sl, mt = s
        mt = TYPES[mt]
        f = []
        th, X = data(n, dj, sl, e, wide=bool(sum(e) % 2))
        r = run(th, X, mt, max_iter=400)
        if r is None:       # allowed where the concentration runs away (the likelihood is unbounded there)
            lo, hi = 1, 400
            while hi - lo > 1:
                m = (lo + hi) // 2
                lo, hi = (m, hi) if run(th, X, mt, max_iter=m) is not None else (lo, m)
            q = run(th, X, mt, max_iter=lo)
            if q is None or not (np.max(q.result["kappa"]) > 200 or np.min(q.result["kappa"]) < 1e-3):
                f.append(f"refused after {lo} iterations at kappa {q and q.result['kappa']}")
            return (mt, "refused"), f
        R = r.result
        if not math.isfinite(R["log_likelihood"]):
            return (mt, "nan"), [f"log_likelihood {R['log_likelihood']}"]
        f += reported(th, X, mt, r)
        r2 = run(th, X, mt, max_iter=401)
        conv = r2 is not None and all(np.array_equal(r2.result[k], R[k]) for k in ("beta", "alpha", "gamma", "log_likelihood"))
        if conv:
            kv = np.asarray(R["kappa"], float)
            if kv.max() < 1e4:
                for k, v in decrement(th, X, mt, r).items():
                    if not v < 1e-4:
                        f.append(f"stopped where the score of {k} is not zero (squared decrement {v})")
                # a fixed point of the fit
                q = run(th, X, mt, max_iter=400, beta0=R["beta"], alpha0=R["alpha"], gamma0=R["gamma"])
                if q is None or not abs(q.result["log_likelihood"] - R["log_likelihood"]) < 1e-5 * (1 + abs(R["log_likelihood"])):
                    f.append(f"started at its own solution it moves from {R['log_likelihood']} to {q and q.result['log_likelihood']}")
        return (mt, conv, round(float(R["log_likelihood"]), 1)), f


_C = {}


def fitted(th, X, mt, **k):
    key = (th.tobytes(), X.tobytes(), X.shape, mt, tuple(sorted((a, np.asarray(b).tobytes()) for a, b in k.items())))
    if key not in _C:
        if len(_C) > 4000:
            _C.clear()
        _C[key] = run(th.copy(), X.copy(), mt, **k)
    return _C[key]


MOVES = ("rot", "turns", "order", "reflect", "scale", "flip", "swap")


def moved(th, X, w):
    n, p = X.shape
    for m in w:
        if m == "rot":
            th = th + 1.234
        elif m == "turns":
            th = th + TAU * (np.arange(n) % 3 - 1)
        elif m == "order":
            q = (np.arange(n) * (3 if n % 3 else 5) + 1) % n
            th, X = th[q], X[q]
        elif m == "reflect":
            th = -th
        elif m == "scale":
            X = 2.5 * X
        elif m == "flip":
            X = np.column_stack([-X[:, 0]] + [X[:, j] for j in range(1, p)])
        elif m == "swap":
            X = X[:, ::-1]
    return np.ascontiguousarray(th), np.ascontiguousarray(X)


class Moves(Space):
    name = "transformations"
    chunk = 4
    bounds = "states: (design, errors, slope, model type) x words of up to 2 (thorough 3) of 7 transformations (rotation, whole turns, order, reflection, scaling, sign and order of the predictors); each edge compares the two fits"

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3

    def roots(self, tier):
        for j, (n, dj, e) in enumerate(fams(tier)):
            if j % (61 if tier == "quick" else 41):
                continue
            for mt in range(3):
                yield (n, dj, e, (j // 29) % 3, mt, ())

    def actions(self, s):
        p = len(DESIGNS[s[0]][s[1]][0])
        for m in MOVES:
            if m in s[5] or m == "swap" and p < 2:
                continue
            yield m, s[:5] + (s[5] + (m,),)

    def get(self, s):
        n, dj, e, sl, mt, w = s
        th, X = moved(*data(n, dj, sl, e, wide=bool(sum(e) % 2)), w)
        return fitted(th, X, TYPES[mt], max_iter=200)

    def check(self, s):
        r = self.get(s)
        return (TYPES[s[4]], r is None or round(float(r.result["log_likelihood"]), 2)), []

    def check_edge(self, s, m, t):
        a, b = self.get(s), self.get(t)
        if a is None or b is None:
            return [] if (a is None) == (b is None) else [f"{m}: only one of the two fits exists"]
        A, B = a.result, b.result
        ka, kb = np.atleast_1d(A["kappa"]), np.atleast_1d(B["kappa"])
        if max(ka.max(), kb.max()) > 1e4:
            return []
        f = []
        c = {"rot": 1.234}.get(m, 0.0)
        sg = -1 if m == "reflect" else 1
        if O.arc(sg * A["mu"] + c, B["mu"]) > 1e-5:
            f.append(f"{m}: mu {A['mu']} becomes {B['mu']}")
        tol = 1e-4

        def cmp(name, x, y):
            x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
            if x.shape != y.shape or not np.all(np.abs(x - y) < tol * (1 + np.abs(x))):
                f.append(f"{m}: {name} {x} becomes {y}")
        cmp("log_likelihood", A["log_likelihood"], B["log_likelihood"])
        n = s[0]
        q = (np.arange(n) * (3 if n % 3 else 5) + 1) % n
        cmp("kappa", ka[q] if m == "order" and len(ka) > 1 else ka, kb)

        def coef(v, mean, sign=True):
            v = np.array(v, float)
            if m == "scale":
                v = v / 2.5
            if m == "flip" and sign:
                v[0] = -v[0]
            if m == "swap":
                v = v[::-1]
            return -v if mean and m == "reflect" and sign else v
        cmp("beta", coef(A["beta"], True), B["beta"])
        cmp("gamma", coef(A["gamma"], False), B["gamma"])
        cmp("alpha", A["alpha"], B["alpha"])
        for k in ("se_mu", "se_alpha"):
            if (k in A) != (k in B):
                f.append(f"{m}: {k} appears or disappears")
            elif k in A:
                cmp(k, A[k], B[k])
        for k in ("se_beta", "se_gamma"):
            if k in A:
                cmp(k, coef(A[k], False, False), B[k])
        return f


class Iterates(Space):
    name = "iterates"
    chunk = 4
    bounds = "states: (design, errors, model type, start) x max_iter = 1..10 (thorough 25); every state is checked like a fit, every edge continues the shorter run from its coefficients (kappa, mixed: without losing likelihood); max_iter=1 reports the starting values"

    STARTS = ({}, {"beta0": 0.3, "alpha0": 0.5, "gamma0": 0.2}, {"beta0": -0.6, "alpha0": 1.5, "gamma0": -0.3})

    def __init__(self, tier):
        self.max_depth = 9 if tier == "quick" else 24

    def roots(self, tier):
        for j, (n, dj, e) in enumerate(fams(tier)):
            if j % (47 if tier == "quick" else 37):
                continue
            for mt in range(3):
                for st in range(3):
                    yield (n, dj, e, mt, st, 1)

    def actions(self, s):
        yield "iteration", s[:5] + (s[5] + 1,)

    def dat(self, s):
        n, dj, e, mt, st, t = s
        th, X = data(n, dj, sum(e) % 3, e)
        p = X.shape[1]
        d = self.STARTS[st]
        k = {a: (np.full(p, v) if a != "alpha0" else v) for a, v in d.items()}
        return th, X, TYPES[mt], k

    def check(self, s):
        th, X, mt, k = self.dat(s)
        r = fitted(th, X, mt, max_iter=s[5], **k)
        if r is None:
            return (mt, s[5], None), []
        if not np.all(np.isfinite(np.atleast_1d(r.result["kappa"]))) or not math.isfinite(r.result["log_likelihood"]):
            return (mt, s[5], "overflow"), []
        f = []
        if mt == "mean":
            k = {"beta0": k.get("beta0", np.zeros(X.shape[1]))}
            if s[4] and np.any(r.result["gamma"] != self.STARTS[s[4]]["gamma0"]):
                f.append("gamma changed in the mean direction model")
            r0 = fitted(th, X, mt, max_iter=s[5], **k)
        elif mt == "kappa":
            r0 = fitted(th, X, mt, max_iter=s[5], **{a: v for a, v in k.items() if a != "beta0"})
            k.pop("beta0", None)
        else:
            r0 = r
        f += reported(th, X, mt, r0)
        if s[5] == 1:
            for a, v in k.items():
                if not np.allclose(r0.result[a[:-1]], v, rtol=0, atol=1e-12):
                    f.append(f"one iteration from {a}={v} reports {r0.result[a[:-1]]}")
        return (mt, s[5], round(float(r0.result["log_likelihood"]), 1)), f

    def check_edge(self, s, l, t):
        th, X, mt, k = self.dat(s)
        a, b = fitted(th, X, mt, max_iter=s[5], **k), fitted(th, X, mt, max_iter=t[5], **k)
        if a is None:
            return [] if b is None else ["a longer run succeeds where the shorter one failed"]
        A = a.result
        c = run(th, X, mt, max_iter=2, beta0=A["beta"], alpha0=A["alpha"], gamma0=A["gamma"])
        if b is None or c is None:
            return [] if (b is None) == (c is None) or s[5] > 5 else ["continuing from the coefficients fails, or only that succeeds"]
        if not math.isfinite(A["log_likelihood"]) or np.max(A["kappa"]) > 1e4 or np.max(b.result["kappa"]) > 1e4:
            return []
        if mt != "mean" and b.result["log_likelihood"] < A["log_likelihood"] - 1e-6 * (1 + abs(A["log_likelihood"])):
            return [f"log_likelihood falls from {A['log_likelihood']} to {b.result['log_likelihood']} in one more iteration"]
        if abs(b.result["log_likelihood"] - c.result["log_likelihood"]) > 1e-6 * (1 + abs(A["log_likelihood"])):
            return [f"log_likelihood {b.result['log_likelihood']} after one more iteration, {c.result['log_likelihood']} continued from the coefficients"]
        return []


def spaces(tier):
    return [Fit(), Moves(tier), Iterates(tier)]
