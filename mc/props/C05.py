"""Circular k-means: from every start every iteration is Lloyd's step, and what the model reports is consistent."""
import itertools
import math

import numpy as np

from mc import clust as C
from mc import oracle as O
from mc.engine import Space

TAU = 2 * math.pi
METRICS = ("center", "geodesic", "angularseparation", "chord")
UNITS = (("radian", 360), ("degree", 360), ("degree", 24))


def dist(metric, a, b):
    d = abs(O.adiff(a, b))
    return {"center": d, "geodesic": d, "angularseparation": 1 - math.cos(d), "chord": 2 * math.sin(d / 2)}[metric]


TOL = {"center": 1e-9, "geodesic": 1e-9, "angularseparation": 1e-12, "chord": 1e-7}


class Choice:
    """Generator stand-in: the first choice of k out of n without replacement is scripted."""
    used = 0
    script = None

    def __init__(self, *a, **k):
        self._real = REAL(*a, **k)

    def choice(self, a, *args, **kw):
        out = self._real.choice(a, *args, **kw)
        if Choice.script is not None and Choice.used == 0 and np.shape(out) == (len(Choice.script),):
            Choice.used += 1
            return np.asarray(a)[list(Choice.script)] if np.ndim(a) else np.array(Choice.script)
        return out

    def __getattr__(self, name):
        return getattr(self._real, name)


REAL = np.random.default_rng


def fit(data, K, T, init=None, unit="radian", fc=360, metric="center", seed=3, **kw):
    m = C.CL.CircKMeans(n_clusters=K, max_iter=T, metric=metric, unit=unit, full_cycle=fc, random_seed=seed, **kw)
    Choice.script, Choice.used = init, 0
    np.random.default_rng = Choice
    try:
        m.fit(data)
    finally:
        np.random.default_rng = REAL
    return m, Choice.used == 1 and init is not None


def nearest(metric, al, centers, lab, tol):
    for i, a in enumerate(al):
        d = [dist(metric, a, c) for c in centers]
        if not (0 <= lab[i] < len(d) and d[lab[i]] <= min(d) + tol):
            return f"point {i} at {a:.4f} is in cluster {lab[i]} but the distances to the centers are {d}"
    return None


class Lloyd(Space):
    name = "lloyd"
    chunk = 16
    bounds = "every multiset up to rotation of 1..6 points on 7 and 8 places, K = 1..3, 4 metrics, every choice of starting points up to order; transitions = iterations up to 4 (thorough: 7 points, all orders, 8 iterations)"

    def __init__(self, tier):
        self.max_depth = 4 if tier == "quick" else 8

    def roots(self, tier):
        for m in (7, 8):
            for n in range(1, 7 if tier == "quick" else 8):
                for ks in C.multisets(m, n, rot=True):
                    for K in range(1, min(3, n) + 1):
                        for met in METRICS if n < 5 or tier != "quick" else ("center",):
                            for init in (itertools.combinations if tier == "quick" else itertools.permutations)(range(n), K):
                                yield (m, ks, K, met, init, 0)

    def actions(self, s):
        yield "iterate", s[:5] + (s[5] + 1,)

    def check_edge(self, s, label, s2):
        m, ks, K, met, init, T = s
        al = C.angles(m, ks)
        b, used = fit(al, K, T + 1, init, metric=met)
        if T == 0:
            if not used:
                return []
            old = [float(al[i]) for i in init]
        else:
            old = [float(c) for c in fit(al, K, T, init, metric=met)[0].centers_]
        f = []
        lab = np.asarray(b.labels_)
        new = np.asarray(b.centers_)
        if lab.shape != (len(al),) or new.shape != (K,):
            return [f"labels of shape {lab.shape}, centers of shape {new.shape}"]
        e = nearest(met, al, old, lab, TOL[met])
        stuck = False
        if e and T > 0:
            # the run may have stopped before this iteration; then nothing changed
            a = fit(al, K, T, init, metric=met)[0]
            stuck = np.array_equal(a.labels_, lab) and np.array_equal(a.centers_, new) and nearest(met, al, old, lab, 1e-5) is None
        if e and not stuck:
            f.append("assignment: " + e)
        for c in range(K):
            sub = [float(a) for a, l in zip(al, lab) if l == c]
            if not sub:
                if O.arc(new[c], old[c]) > 1e-9:
                    f.append(f"the center of the empty cluster {c} moved from {old[c]} to {new[c]}")
                continue
            mu, r = O.mean_r(sub)
            if r < 1e-9:
                if not math.isfinite(new[c]):
                    f.append(f"center {c} is {new[c]}")
            elif not O.arc(new[c], mu) < 1e-9:
                f.append(f"center {c} is {new[c]}, the mean of its points is {mu}")
        want = math.fsum(dist(met, a, new[l]) for a, l in zip(al, lab))
        if not abs(b.inertia_ - want) < 1e-6:
            f.append(f"inertia {b.inertia_}, the distances sum to {want}")
        return f

    def check(self, s):
        return (s[2], s[3], len(s[1]), s[5]), []


class Final(Space):
    name = "final"
    chunk = 16
    max_depth = 0
    bounds = "the same samples run to the end, rotating over 3 unit/cycle pairs: fixed point, predict, inertia, convergence, fewer points than clusters"

    def roots(self, tier):
        i = 0
        for m in (7, 8):
            for n in range(1, 7 if tier == "quick" else 8):
                for ks in C.multisets(m, n, rot=True):
                    for K in range(1, 4):
                        for met in METRICS if n < 5 or tier != "quick" else ("chord",):
                            for init in itertools.combinations(range(n), K) if K <= n else (None,):
                                i += 1
                                yield (m, ks, K, met, init, i % 3)

    def check(self, s):
        m, ks, K, met, init, ui = s
        unit, fc = UNITS[ui]
        al = C.angles(m, ks)
        data = C.to_unit(al, unit, fc)
        keep = data.copy()
        b, used = fit(data, K, 100, init, unit=unit, fc=fc, metric=met)
        f = []
        if not np.array_equal(data, keep):
            f.append("the data were modified")
        lab, cen = np.asarray(b.labels_), np.asarray(b.centers_)
        n = len(al)
        if n < K:
            if sorted(lab) != list(range(n)) or any(O.arc(cen[l], a) > 1e-9 for l, a in zip(lab, al)) or b.inertia_ != 0:
                f.append(f"{n} points, {K} clusters: labels {lab}, centers {cen}, inertia {b.inertia_}")
        else:
            a2, _ = fit(data, K, 101, init, unit=unit, fc=fc, metric=met)
            a3, _ = fit(data, K, 102, init, unit=unit, fc=fc, metric=met)
            if np.allclose(a2.centers_, cen) and np.allclose(a3.centers_, cen):       # settled
                e = nearest(met, al, cen, lab, 1e-5)
                if e:
                    f.append("final: " + e)
        if used and n >= K and len(set(ks)) == n == K and any(len({lab[i] for i in range(n)}) != n for _ in (0,)):
            f.append(f"{n} distinct points, {K} clusters, but labels {lab}")
        q = np.concatenate([al, np.linspace(0.01, 6.9, 9)])
        p = np.asarray(b.predict(C.to_unit(q, unit, fc)))
        if p.shape != q.shape:
            f.append(f"predict returned shape {p.shape}")
        else:
            e = nearest(met, q, cen, p, TOL[met])
            if e:
                f.append("predict: " + e)
        return (K, met, n, len(set(lab))), f


class Seeds(Space):
    name = "seeds"
    chunk = 8
    max_depth = 0
    bounds = "real generator: seeds 0..7 x samples x K: equal seeds equal models, refit equal, starting centers are observations, global random state untouched"

    def roots(self, tier):
        for n in (3, 4):
            for ks in C.multisets(7, n, rot=True):
                for K in (1, 2, 3):
                    for seed in range(8):
                        yield (7, ks, K, seed)

    def check(self, s):
        m, ks, K, seed = s
        al = C.angles(m, ks)
        np.random.seed(1)
        st = np.random.get_state()[1].copy()
        mk = lambda T=100: C.CL.CircKMeans(n_clusters=K, max_iter=T, unit="radian", random_seed=seed)
        a, b = mk().fit(al), mk()
        b.fit(C.angles(m, ks[::-1]))
        b.fit(al)
        f = []
        if not (np.array_equal(a.labels_, b.labels_) and np.array_equal(a.centers_, b.centers_) and a.inertia_ == b.inertia_):
            f.append("the same seed gave another clustering, or an earlier fit left a trace")
        if not np.array_equal(np.random.get_state()[1], st):
            f.append("the global random state was advanced")
        return (K, len(set(a.labels_))), f


class Stop(Space):
    name = "stop"
    chunk = 4
    max_depth = 0
    bounds = ("samples of 200 and 1500 (thorough: also 60, 700, 4000) spread over the circle by 3 rotations, K = 2..4, 3 starts, tol 0.3, 0.01, 1e-4, default, max_iter 1, 3, 100: the run stops at the "
              "first iteration in which the centers move less than tol in total, or at max_iter, and reports that iteration")

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for n in (200, 1500) if self.tier == "quick" else (60, 200, 700, 1500, 4000):
            for g in (0.6180339887, 0.4142135624, 0.7320508076):
                for K in (2, 3, 4):
                    for st in range(3):
                        yield (n, g, K, st)

    def check(self, s):
        n, g, K, st = s
        al = TAU * ((np.arange(n) * g) % 1.0) ** (1.0, 1.6)[st % 2]
        init = tuple((st * 17 + 3 + 5 * i * (st + 1)) % n for i in range(K))
        if len(set(init)) < K:
            return None, []
        path = [al[list(init)]]
        lab, shifts = [None], []
        for it in range(100):
            d = np.abs((al[None] - path[-1][:, None] + math.pi) % TAU - math.pi)
            l = d.argmin(0)
            lab.append(l)
            new = np.array([np.angle(np.exp(1j * al[l == c]).sum()) % TAU if (l == c).any() else path[-1][c] for c in range(K)])
            shifts.append(float(np.abs((new - path[-1] + math.pi) % TAU - math.pi).sum()))
            path.append(new)
        f = []
        for tol in (0.3, 1e-2, 1e-4, None):
            for T in (1, 3, 100):
                t = 1e-6 if tol is None else tol
                if any(abs(x - t) < 1e-7 * t for x in shifts):
                    continue
                k = next((i + 1 for i, x in enumerate(shifts[:T]) if x < t), T)
                b, used = fit(al, K, T, init, **({} if tol is None else {"tol": tol}))
                if not used:
                    return None, []
                cen = np.asarray(b.centers_)
                if not np.all(np.abs((cen - path[k] + math.pi) % TAU - math.pi) < 1e-9):
                    f.append(f"tol={t} max_iter={T}: centers {cen}, after {k} iterations they are {path[k]}")
                elif np.mean(np.asarray(b.labels_) != lab[k]) > 2 / n:
                    f.append(f"tol={t} max_iter={T}: labels are not those of iteration {k}")
        return (K, n, st), f


def spaces(tier):
    return [Lloyd(tier), Final(), Seeds(), Stop(tier)]
