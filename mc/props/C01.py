"""A fitted mixture reports one coherent model: weights, posteriors, labels, densities, scores and BIC."""
import math

import numpy as np

from mc import clust as C
from mc.dist import ang as M_ang
from mc.engine import Space

TAU = 2 * math.pi
RANGE = {"kappa": (0.0, math.inf), "rho": (0.0, 1.0), "gamma": (0.0, 1.0), "zeta": (0.0, math.inf), "lam": (0.0, TAU), "mu": (0.0, TAU)}
UNITS = (("radian", 360), ("degree", 360), ("degree", 24), ("radian", 24))
NAMES = {"movm": ["mu", "kappa"], "mokj": ["mu", "gamma", "rho", "lam"]}


def bad(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return True
    with np.errstate(invalid="ignore"):
        same = (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))
    return not bool(np.all(same))


def coherent(mod, model, data, unit, fc, K, q, T):
    """the invariant; data: what was passed to fit, q: query points in radians"""
    f = []
    n = len(data)
    al = np.asarray(data) if unit == "radian" else TAU * np.asarray(data) / fc
    p = np.asarray(mod.p_)
    P = mod.params_
    if len(P) != K or p.shape != (K,):
        return [f"{len(P)} parameter sets and weights of shape {p.shape} for {K} clusters"]
    names = NAMES.get(model) or [s.strip() for s in mod.distribution.shapes.split(",")]
    for d in P:
        if sorted(d) != sorted(names):
            f.append(f"params_ has keys {sorted(d)}")
            return f
        for k, v in d.items():
            lo, hi = RANGE[k]
            if not (math.isfinite(v) and lo <= v <= hi):
                f.append(f"parameter {k}={v} outside [{lo}, {hi}]")
    if f:
        return f
    for k, arr in {"movm": (("mu", "m_"), ("kappa", "kappa_")), "mokj": (("mu", "mu_"), ("gamma", "gamma_"), ("rho", "rho_"), ("lam", "lam_"))}.get(model, ()):
        if bad(getattr(mod, arr), [d[k] for d in P], 0):
            f.append(f"{arr} and params_ disagree")
    if model not in NAMES and bad(mod.param_matrix_, [[d[k] for k in names] for d in P], 0):
        f.append("param_matrix_ and params_ disagree")
    if not (np.all(p >= 0) and abs(p.sum() - 1) < 1e-12):
        f.append(f"weights {p} are not a probability vector")
    G = np.asarray(C.resp(mod))
    if G.shape != (K, n):
        return f + [f"responsibilities of shape {G.shape}, expected {(K, n)}"]
    L, d, R = C.post(model, al, p, P)
    s = C.sharp(model, P)
    tol = (1e-6 if model == "cartwright" else 1e-8) + 1e-15 * s
    ok = d > -600        # beyond that the densities themselves underflow
    if tol < 1e-4:
        if not np.all(np.isfinite(G[:, ok])) or np.abs(G[:, ok].sum(0) - 1).max(initial=0) > 1e-9:
            f.append(f"responsibilities do not sum to 1: {G.sum(0)}")
        elif bad(G[:, ok], R[:, ok], tol):
            f.append(f"responsibilities {G.tolist()} differ from the posterior {R.tolist()}")
        lab = np.asarray(mod.labels_)
        if lab.shape != (n,):
            f.append(f"labels_ of shape {lab.shape}")
        else:
            for i in np.flatnonzero(ok):
                if not (0 <= lab[i] < K and R[lab[i], i] >= R[:, i].max() - tol):
                    f.append(f"point {i} is labelled {lab[i]} but its posterior is {R[:, i].tolist()}")
        # prediction for new points, in the model's own unit
        x = C.to_unit(q, unit, fc)
        Lq, dq, Rq = C.post(model, q, p, P)
        okq = dq > -600
        pp = np.asarray(mod.predict_proba(x))
        if pp.shape != (K, len(q)) or bad(pp[:, okq], Rq[:, okq], tol):
            f.append("predict_proba is not the posterior of new points")
        else:
            pl = np.asarray(mod.predict(x))
            if pl.shape != (len(q),) or any(not Rq[pl[i], i] >= Rq[:, i].max() - tol for i in np.flatnonzero(okq)):
                f.append("predict is not the most probable component")
        if not np.array_equal(np.asarray(mod.predict_proba(data))[:, ok], G[:, ok]) and bad(np.asarray(mod.predict_proba(data))[:, ok], G[:, ok], tol):
            f.append("predict_proba of the training data differs from the responsibilities")
        ref = np.exp(dq)
        if bad(mod.predict_density(x), ref, tol):
            f.append(f"predict_density {np.asarray(mod.predict_density(x)).tolist()} expected {ref.tolist()}")
        # explicit unit / cycle override the model's
        for u2, fc2 in UNITS:
            y = C.to_unit(q, u2, fc2)
            if bad(mod.predict_density(y, unit=u2, full_cycle=fc2), ref, tol):
                f.append(f"predict_density(unit={u2}, full_cycle={fc2}) is not the density")
            if model in NAMES and bad(np.asarray(mod.predict_proba(y, unit=u2, full_cycle=fc2))[:, okq], Rq[:, okq], tol):
                f.append(f"predict_proba(unit={u2}, full_cycle={fc2}) is not the posterior")
            if model in NAMES and np.asarray(mod.predict(y, unit=u2, full_cycle=fc2)).shape != (len(q),):
                f.append("predict with a unit has the wrong length")
        # default grid: one value per point of an equidistant grid over one full cycle
        g = np.asarray(mod.predict_density())
        gr = np.arange(len(g)) * TAU / max(len(g), 1)
        gd = np.exp(C.post(model, gr, p, P)[1])
        if model == "cartwright":      # the density has an infinitely steep zero opposite to the mean
            near = np.min([np.abs(M_ang(gr - d_["mu"] - math.pi)) for d_ in P], axis=0) < 1e-6
            gd = np.where(near, g, gd) if g.shape == gd.shape else gd
        if len(g) < 100 or bad(g, gd, tol):
            f.append("predict_density() is not the density on an equidistant grid of the full cycle")
        if s < 400 and model not in ("mokj", "cartwright") and abs(g.sum() * TAU / len(g) - 1) > 1e-3:
            f.append(f"predict_density() integrates to {g.sum() * TAU / len(g)}")
        ll = float(d.sum())
        if math.isfinite(ll):
            npar = K * len(names) + K - 1
            ref = -2 * ll + math.log(n) * npar
            b = [mod.compute_BIC()] + ([mod.bic()] if hasattr(mod, "bic") else [])
            if any(abs(v - ref) > (1e-7 + n * 1e-14 * s) * (1 + abs(ref)) for v in b):
                f.append(f"BIC {b}, expected {ref}")
            if hasattr(mod, "score"):
                if bad(mod.score_samples(data), d, tol) or abs(mod.score(data) - ll / n) > tol * (1 + abs(ll)):
                    f.append(f"score {mod.score(data)}, expected {ll / n}")
            if hasattr(mod, "compute_gamma"):
                if bad(mod.compute_gamma(al, p, mod.m_, mod.kappa_), R, tol):
                    f.append("compute_gamma is not the posterior")
            if hasattr(mod, "compute_nLL") and abs(mod.compute_nLL(al, p, mod.m_, mod.kappa_) + ll) > n * tol * (1 + abs(ll)):
                f.append("compute_nLL is not minus the log likelihood")
    h = np.asarray(mod.nLL)
    if h.shape != (T,):
        f.append(f"nLL has {h.shape} entries after {T} iterations")
    return f


class Mix(Space):
    chunk = 8
    max_depth = 0
    Q = np.array([0.05, 1.0, 2.7, 3.9, 5.5, 6.9, -0.4])
    only = ()

    def check(self, s):
        model, m, ks, K, lab, T, ui = s
        unit, fc = UNITS[ui]
        al = C.angles(m, ks)
        data = C.to_unit(al, unit, fc)
        mod = C.run(model, data, K, lab, T, unit=unit, fc=fc)
        f = coherent(mod, model, data, unit, fc, K, self.Q, T)
        kmax = C.sharp(model, mod.params_) if mod.params_ else 0
        return (model, K, len(ks), T, len(set(mod.labels_)), int(math.log10(kmax)) if math.isfinite(kmax) else -1), f


class Movm(Mix):
    name = "movm"
    bounds = "every multiset of 1..4 points on 6 places (5 thorough), K = 1..3, every initial labelling up to renaming, after 1, 3 and 25 iterations; units rotate over 4 unit/cycle pairs"

    def roots(self, tier):
        i = 0
        for n in range(1, 5 if tier == "quick" else 6):
            for ks in C.multisets(6, n):
                for K in range(1, min(n, 3) + 1):
                    for lab in C.surj(n, K):
                        for T in (1, 3, 25):
                            i += 1
                            yield ("movm", 6, ks, K, lab, T, i % 4)


class Mocd(Mix):
    name = "mocd"
    bounds = "five component families; every multiset up to rotation of 2..4 points on 6 places (5 thorough), K = 1..2 (3 thorough), every initial labelling up to renaming, after 1 and 12 iterations"

    def roots(self, tier):
        i = 0
        for dist in C.MOCD:
            for n in range(2, 5 if tier == "quick" else 6):
                for ks in C.multisets(6, n, rot=True):
                    for K in range(1, min(n, 2 if tier == "quick" else 3) + 1):
                        for lab in C.surj(n, K):
                            for T in (1, 12):
                                i += 1
                                yield (dist, 6, ks, K, lab, T, i % 4)


class Mokj(Mix):
    name = "mokj"
    chunk = 1
    bounds = "Kato-Jones mixtures: 9 patterned samples of 8-12 points, K = 1, 2, 4 initial seeds (the k-means start), after 1 and 3 iterations"

    def roots(self, tier):
        for j in range(4 if tier == "quick" else 9):
            for K in (1, 2):
                for seed in range(2 if tier == "quick" else 6):
                    for T in (1, 3):
                        yield ("mokj", j, K, seed, T, (j + K + seed) % 4)

    def check(self, s):
        model, j, K, seed, T, ui = s
        unit, fc = UNITS[ui]
        al = np.mod(0.6 * j + np.concatenate([0.25 * np.sin(np.arange(4 + j % 3) * 1.7), 2.4 + 0.1 * j + 0.35 * np.cos(np.arange(4 + j // 3) * 2.3)]), TAU)
        data = C.to_unit(al, unit, fc)
        mod = C.run(model, data, K, None, T, unit=unit, fc=fc, seed=seed)
        f = coherent(mod, model, data, unit, fc, K, self.Q, T)
        return (K, T, len(set(mod.labels_))), f


class Floor(Mokj):
    name = "floor"
    bounds = "the same samples with min_comp_weight 0.2, 0.45 (weights held up and components refitted by moments), K = 2, 3, after 1 and 3 iterations"

    def roots(self, tier):
        for j in range(3 if tier == "quick" else 9):
            for K in (2, 3):
                for w in (0.2, 0.45):
                    for T in (1, 3):
                        yield ("mokj", j, K, w, T, (j + K + T) % 4)

    def check(self, s):
        model, j, K, w, T, ui = s
        unit, fc = UNITS[ui]
        al = np.mod(0.6 * j + np.concatenate([0.25 * np.sin(np.arange(6 + j % 3) * 1.7), 2.4 + 0.1 * j + 0.35 * np.cos(np.arange(2 + j // 3) * 2.3)]), TAU)
        data = C.to_unit(al, unit, fc)
        mod = C.run(model, data, K, None, T, unit=unit, fc=fc, min_comp_weight=w)
        return (K, w, T, len(set(mod.labels_))), coherent(mod, model, data, unit, fc, K, self.Q, T)


class Options(Mix):
    name = "options"
    chunk = 4
    bounds = "MoCD: five families, 4 samples of 6-9 points, K = 1, 2, every spelling of the fitting method (positional name, capitals, list, tuple, fit_kwargs, default) and of the parameter order against the canonical one, after 3 iterations"
    SAME = {
        "moments": ({"fit_method": "Moments"}, {"fit_method": ["moments"]}, {"fit_method": ("MOMENTS",)}, {"fit_method": "mle", "fit_kwargs": {"method": "moments"}},
                    {"fit_method": ["nonsense", "moments"]}, {"fit_method": "auto"}, {}),
        "mle": ({"fit_method": "MLE"}, {"fit_method": ["mle"]}, {"fit_kwargs": {"method": "MLE"}}, {"fit_method": ["nonsense", "mle"]}),
    }

    def roots(self, tier):
        for dist in C.MOCD:
            for j in range(2 if tier == "quick" else 4):
                for K in (1, 2):
                    yield (dist, j, K, (j + K) % 4)

    def check(self, s):
        dist, j, K, ui = s
        unit, fc = UNITS[ui]
        al = np.mod(0.7 * j + np.concatenate([0.3 * np.sin(np.arange(3 + j) * 1.7), 2.6 + 0.4 * np.cos(np.arange(3) * 2.3)]), TAU)
        lab = tuple((np.arange(len(al)) >= 3 + j).astype(int)) if K == 2 else (0,) * len(al)
        data = C.to_unit(al, unit, fc)
        f = []

        def fit(**kw):
            mod = C.run(dist, data, K, lab, 3, unit=unit, fc=fc, **kw)
            f.extend(f"{kw}: {g}" for g in coherent(mod, dist, data, unit, fc, K, self.Q, 3))
            return mod
        for method, others in self.SAME.items():
            ref = fit(fit_method=method)
            for kw in others:
                kw = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
                keep = repr(kw)
                mod = fit(**kw)
                if repr(kw) != keep:
                    f.append(f"{keep}: the caller's options were modified to {kw}")
                if bad(mod.p_, ref.p_, 1e-12) or any(bad(a[k], b[k], 1e-12) for a, b in zip(mod.params_, ref.params_) for k in b):
                    f.append(f"{kw}: model {mod.params_} differs from fit_method={method!r}: {ref.params_}")
            names = [t.strip() for t in ref.distribution.shapes.split(",")]
            mod = C.run(dist, data, K, lab, 3, unit=unit, fc=fc, fit_method=method, param_names=names)
            if mod.params_ != ref.params_ or not np.array_equal(mod.param_matrix_, ref.param_matrix_):
                f.append("naming the parameters explicitly changes the model")
        mod = fit(fit_method=None)       # the family's own default
        # one component: the model is the family's own (weighted) fit
        if K == 1:
            fam = getattr(C.X, dist)
            for kw in ({"fit_method": "moments"}, {"fit_method": "mle"}, {"fit_method": None}):
                a = C.run(dist, data, 1, lab, 3, unit=unit, fc=fc, **kw).params_[0]
                kk = {} if kw["fit_method"] is None else {"method": kw["fit_method"]}
                b = fam.fit(al, weights=np.ones(len(al)), **kk)
                if bad(list(a.values()), b, 1e-5):
                    f.append(f"one component {a} is not the family's fit {b} ({kw})")
        for kw in ({"fit_method": ["nonsense"]}, {"param_names": ["mu"]}):
            try:
                C.run(dist, data, K, lab, 1, unit=unit, fc=fc, **kw)
                f.append(f"{kw} accepted")
            except (RuntimeError, ValueError, TypeError):
                pass
        return (dist, K), f


class Refuse(Space):
    name = "refuse"
    max_depth = 0
    bounds = "invalid constructor arguments and more clusters than points are refused; unfitted models refuse to predict"
    CASES = (("burnin", -1), ("n_clusters", 0), ("n_clusters", -2), ("n_iters", 0), ("threshold", 0), ("threshold", -1e-3), ("unit", "grad"))

    def roots(self, tier):
        for model in ("movm", "mokj") + C.MOCD:
            for c in self.CASES:
                yield (model,) + c
            for what in ("few", "empty", "unfitted"):
                yield (model, what, 0)

    def check(self, s):
        model, what, v = s
        kw = dict(n_clusters=2, n_iters=3, burnin=1, threshold=1e-6, unit="radian")
        mk = (lambda **k: C.CL.MovM(**k)) if model == "movm" else (lambda **k: C.CL.MoKJ(**k)) if model == "mokj" else (lambda **k: C.CL.MoCD(getattr(C.X, model), **k))

        def refuses(fn, *exc):
            try:
                fn()
            except exc:
                return True
            return False
        if what == "few":
            m = mk(**{**kw, "n_clusters": 4})
            return s, [] if refuses(lambda: m.fit(np.array([0.1, 2.0, 3.0])), ValueError) else ["4 clusters for 3 points accepted"]
        if what == "empty":
            return s, [] if refuses(lambda: mk(**kw).fit(np.array([])), ValueError) else ["an empty sample accepted"]
        if what == "unfitted":
            f = []
            for name, args in (("predict", (np.array([1.0]),)), ("predict_proba", (np.array([1.0]),)), ("predict_density", ()), ("compute_BIC", ()), ("score", (np.array([1.0]),))):
                m = mk(**kw)
                if hasattr(m, name) and not refuses(lambda: getattr(m, name)(*args), ValueError, TypeError, AttributeError):
                    f.append(f"{name} of an unfitted model returned a value")
            return s, f
        return s, [] if refuses(lambda: mk(**{**kw, what: v}), ValueError) else [f"{what}={v} accepted"]


def spaces(tier):
    return [Movm(), Mocd(), Options(), Mokj(), Floor(), Refuse()]
