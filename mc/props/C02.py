"""Every iteration of a mixture fit is one EM step, and the fit stops exactly when its rule says so."""
import math

import numpy as np

from mc import clust as C
from mc import oracle as O
from mc.engine import Space

TAU = 2 * math.pi


def comp(model, mod):
    return [dict(d) for d in mod.params_], np.asarray(mod.p_, dtype=float)


def near_par(model, a, b):
    """a: code, b: reference; tolerance follows the conditioning of the estimate"""
    for k in b:
        u, v = a[k], b[k]
        if k in ("kappa", "zeta"):
            if k == "zeta":
                u, v = 1 / max(u, 1e-300), 1 / max(v, 1e-300)
            if v > 1e6:
                if not u > 1e5:
                    return False
            elif abs(u - v) > (1e-7 + 1e-13 * v) * (1 + abs(v)):
                return False
        elif k == "mu":
            pass
        elif abs(u - v) > 1e-7:
            return False
    return True


def em_step(model, al, p, pars):
    """reference E and M step: (new weights, [(params, resultant length, weight)])"""
    L, d, R = C.post(model, al, p, pars)
    if not np.all(d > -600):      # the densities themselves underflow
        return None, None, np.full(len(al), -np.inf), R
    newp = [math.fsum(row) / len(al) for row in R]
    out = []
    for row in R:
        m, r = O.mean_r(list(al), list(row)) if math.fsum(row) > 1e-300 else (float("nan"), 0.0)
        if model == "movm":
            out.append(({"mu": m, "kappa": max(C.kappa_ref(min(r, 1 - 1e-12)), 1e-3)}, r, math.fsum(row)))
        else:
            try:
                q = getattr(C.X, model).fit(np.array(al), method="moments", weights=np.array(row), return_info=True)[0]
                names = [s.strip() for s in getattr(C.X, model).shapes.split(",")]
                out.append((dict(zip(names, (float(v) for v in q))), r, math.fsum(row)))
            except Exception:
                out.append((None, r, math.fsum(row)))
    return newp, out, d, R


def compare(model, mod, newp, ref, prev):
    f = []
    pars, p = comp(model, mod)
    if np.abs(p - np.array(newp)).max() > 1e-7:
        f.append(f"weights {p.tolist()}, EM step gives {newp}")
    for k, (q, r, w) in enumerate(ref):
        if w < 1e-5:
            continue           # an empty component: what becomes of it is not specified
        if q is None:
            continue
        got = pars[k]
        if r > 1e-7 and O.arc(got["mu"], q["mu"]) > 1e-7 + 1e-14 / r:
            f.append(f"component {k}: mean {got['mu']}, EM step gives {q['mu']}")
        if not near_par(model, got, q):
            f.append(f"component {k}: parameters {got}, EM step gives {q}")
    return f


class Steps(Space):
    chunk = 8
    tmax = {"quick": 6, "thorough": 20}

    def __init__(self, tier):
        self.tier = tier
        self.max_depth = self.tmax[tier]

    def go(self, s, T):
        model, m, ks, K, lab = s[:5]
        return C.run(model, C.angles(m, ks), K, lab, T)

    def actions(self, s):
        if s[5] < self.max_depth:
            yield "em", s[:5] + (s[5] + 1,)

    def check_edge(self, s, label, s2):
        model, m, ks, K, lab, T = s
        al = C.angles(m, ks)
        new = self.go(s, T + 1)
        f = []
        if T == 0:
            if not C.used(new):
                return []
            p = np.full(K, 1 / K)
            pars = []
            for c in range(K):
                sub = [float(a) for a, l in zip(al, lab) if l == c]
                mu, r = O.mean_r(sub)
                if r < 1e-9:
                    return []
                if model == "movm":
                    pars.append({"mu": mu, "kappa": max(C.kappa_ref(min(r, 1 - 1e-12)), 1e-3)})
                else:
                    q = getattr(C.X, model).fit(np.array(sub), method="moments", return_info=True)[0]
                    pars.append(dict(zip([v.strip() for v in getattr(C.X, model).shapes.split(",")], (float(v) for v in q))))
            first = True
        else:
            old = self.go(s, T)
            pars, p = comp(model, old)
            first = False
        if C.sharp(model, pars) > 1e8:
            if not first and np.asarray(new.nLL)[:-1].tolist() != np.asarray(old.nLL).tolist():
                f.append("the first iterations depend on how many follow")
            return f
        newp, ref, d, R = em_step(model, al, p, pars)
        h = np.asarray(new.nLL)
        if not first and h[:-1].tolist() != np.asarray(old.nLL).tolist():
            f.append("the first iterations depend on how many follow")
        ll = float(np.sum(d))
        if math.isfinite(ll) and abs(h[-1] + ll) > (1e-8 + 1e-13 * C.sharp(model, pars)) * (1 + abs(ll)):
            f.append(f"nLL[{T}] = {h[-1]}, the model entering the iteration has {-ll}")
        if newp is not None:
            f += compare(model, new, newp, ref, pars)
        if model == "movm" and len(h) > 1 and h[-1] > h[-2] + 2e-4 * len(al) + 1e-14 * C.sharp(model, pars):   # kappa is Fisher's approximation
            f.append(f"the log likelihood decreased: nLL {h[-2]} -> {h[-1]}")
        return f

    def check(self, s):
        return (s[0], s[3], s[5]), []


class Movm(Steps):
    name = "movm-steps"
    bounds = "every multiset up to rotation of 1..5 points on 6 and 7 places (6 thorough), K = 1..3 (2 for 5 points, quick), every initial labelling; transitions = EM iterations up to 6 (20 thorough)"

    def roots(self, tier):
        for m in (6, 7):
            for n in range(1, 6 if tier == "quick" else 7):
                for ks in C.multisets(m, n, rot=True):
                    for K in range(1, min(n, 3 if n < 5 or tier != "quick" else 2) + 1):
                        for lab in C.surj(n, K):
                            yield ("movm", m, ks, K, lab, 0)


class Mocd(Steps):
    name = "mocd-steps"
    bounds = "five component families, every multiset up to rotation of 2..4 points on 6 places (thorough also 7 places, 5 points), K = 1..2, every initial labelling; EM iterations up to 5 (12 thorough)"
    tmax = {"quick": 5, "thorough": 12}

    def roots(self, tier):
        for dist in C.MOCD:
            for m in (6,) if tier == "quick" else (6, 7):
                for n in range(2, 5 if tier == "quick" else 6):
                    for ks in C.multisets(m, n, rot=True):
                        for K in range(1, 3):
                            if K <= n:
                                for lab in C.surj(n, K):
                                    yield (dist, m, ks, K, lab, 0)


class Stopping(Space):
    name = "stopping"
    chunk = 4
    max_depth = 0
    bounds = "MovM, MoCD, MoKJ x samples x labellings x burnin 0, 2 x threshold 1e-12, 1e-3, 0.05 x n_iters 2, 5, 24 (thorough 3 x 5 x 3): number of iterations, converged, converged_iters and final model"
    N = 24

    def __init__(self, tier):
        self.burns = (0, 2) if tier == "quick" else (0, 1, 3)
        self.thrs = (1e-12, 1e-3, 0.05) if tier == "quick" else (1e-12, 1e-6, 1e-3, 0.05, 1.0)

    def roots(self, tier):
        for model in ("movm",) + C.MOCD:
            for ks in [k for n in (3, 4) for k in C.multisets(6, n, rot=True)][:: 1 if tier == "thorough" else 2]:
                for K in (1, 2):
                    for lab in C.surj(len(ks), K)[:: 1 if tier == "thorough" else 3]:
                        yield (model, ks, K, lab)
        for j in range(1 if tier == "quick" else 6):
            yield ("mokj", j, 2, 0)

    def check(self, s):
        model, ks, K, lab = s
        if model == "mokj":
            data = np.mod(0.6 * ks + np.concatenate([0.25 * np.sin(np.arange(5) * 1.7), 2.4 + 0.35 * np.cos(np.arange(4) * 2.3)]), TAU)
            N, lab = 8, None
        else:
            data, N = C.angles(6, ks), self.N
        mk = lambda T, **kw: C.run(model, data, K, lab, T, **kw)
        full = mk(N)
        h = np.asarray(full.nLL)
        f = []
        if full.converged or full.converged_iters is not None or len(h) != N:
            f.append(f"a fit that reached its last iteration: converged={full.converged}, converged_iters={full.converged_iters}, {len(h)} iterations")
        seen = set()
        for burn in self.burns:
            for thr in self.thrs:
                for n in ((2, 5, N) if model != "mokj" else (2, N)):
                    stop = None
                    amb = False
                    for i in range(burn + 1, n):
                        dlt = abs(h[i] - h[i - 1])
                        if abs(dlt - thr) < 1e-14:
                            amb = True
                        if dlt < thr:
                            stop = i + 1
                            break
                    if amb:
                        continue
                    mod = mk(n, burnin=burn, threshold=thr)
                    want = (stop is not None, stop, stop or n)
                    got = (bool(mod.converged), mod.converged_iters, len(mod.nLL))
                    seen.add(want[2])
                    if got != want:
                        f.append(f"burnin={burn} threshold={thr} n_iters={n}: (converged, converged_iters, iterations) = {got}, the rule gives {want}")
                    elif not np.array_equal(mod.nLL, h[:want[2]]):
                        f.append(f"burnin={burn} threshold={thr} n_iters={n}: a different nLL history")
                    else:
                        key = ("T", want[2])
                        if key not in seen:
                            seen.add(key)
                            b = mk(want[2])
                            if b.params_ != mod.params_ or not np.array_equal(b.p_, mod.p_):
                                f.append(f"burnin={burn} threshold={thr} n_iters={n}: not the model after {want[2]} iterations")
        return (model, K, len([v for v in seen if isinstance(v, int)])), f


class Mokj(Space):
    name = "mokj-steps"
    chunk = 1
    bounds = "Kato-Jones mixtures on patterned samples, K = 1..2, initial seeds; iterations 1..4 (8 thorough): weights are the mean posterior, nLL is the fitted model's likelihood"

    def __init__(self, tier):
        self.max_depth = 3 if tier == "quick" else 7

    def roots(self, tier):
        for j in range(4 if tier == "quick" else 9):
            for K in (1, 2):
                for seed in range(2 if tier == "quick" else 5):
                    yield ("mokj", j, K, seed, 1)

    def actions(self, s):
        yield "em", s[:4] + (s[4] + 1,)

    def data(self, j):
        return np.mod(0.6 * j + np.concatenate([0.25 * np.sin(np.arange(4 + j % 3) * 1.7), 2.4 + 0.1 * j + 0.35 * np.cos(np.arange(4 + j // 3) * 2.3)]), TAU)

    def check(self, s):
        return s[2:3] + s[4:], []

    def check_edge(self, s, label, s2):
        _, j, K, seed, T = s
        al = self.data(j)
        a = C.run("mokj", al, K, None, T, seed=seed)
        b = C.run("mokj", al, K, None, T + 1, seed=seed)
        f = []
        pars, p = comp("mokj", a)
        _, d, R = C.post("mokj", al, p, pars)
        if abs(np.asarray(a.nLL)[-1] + d.sum()) > 1e-7 * (1 + abs(d.sum())):
            f.append(f"nLL[-1] = {a.nLL[-1]}, the fitted model has {-d.sum()}")
        if not np.array_equal(np.asarray(b.nLL)[:-1], a.nLL):
            f.append("the first iterations depend on how many follow")
        w = np.array([math.fsum(r) / len(al) for r in R])
        if np.all(w > 1e-4) and np.abs(np.asarray(b.p_) - w).max() > 1e-6:
            f.append(f"weights {b.p_.tolist()}, mean posterior {w.tolist()}")
        return f


def spaces(tier):
    return [Movm(tier), Mocd(tier), Mokj(tier), Stopping(tier)]
