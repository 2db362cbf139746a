"""Hierarchical clustering: each merge joins a closest pair, and the reported tree, labels and scores describe it."""
import itertools
import math

import numpy as np

from mc import clust as C
from mc import oracle as O
from mc.engine import Space
from mc.props.C05 import METRICS, TOL, UNITS, dist, nearest

TAU = 2 * math.pi


class Rec(C.CL.CircKMeans):
    log = []

    def fit(self, X):
        r = super().fit(X)
        Rec.log.append((np.array(X, dtype=float), self.n_clusters, None if self.labels_ is None else np.array(self.labels_)))
        return r


def fit(data, K, unit="radian", fc=360, metric="center", pre=None, seed=0):
    Rec.log = []
    old = C.CL.CircKMeans
    C.CL.CircKMeans = Rec
    try:
        m = C.CL.CircHAC(n_clusters=K, n_init_clusters=pre, unit=unit, full_cycle=fc, metric=metric, random_seed=seed)
        m.fit(data)
    finally:
        C.CL.CircKMeans = old
    return m


def replay(al, K, met, start, merges):
    """walk the recorded merges through the model; returns (failures, final clusters)"""
    f = []
    cl = dict(start)
    nxt = max(cl) + 1
    for a, b, d, size in merges:
        ia, ib = int(a), int(b)
        if ia not in cl or ib not in cl or ia == ib:
            return [f"merge of {ia} and {ib}, the active clusters are {sorted(cl)}"], cl
        mean = {c: O.mean_r([float(al[i]) for i in idx]) for c, idx in cl.items()}
        if any(r < 1e-9 for _, r in mean.values()):
            # a cluster without a direction has no distance to the others
            ok = [c for c in cl if mean[c][1] >= 1e-9]
        else:
            ok = list(cl)
        pairs = {(p, q): dist(met, mean[p][0], mean[q][0]) for p, q in itertools.combinations(ok, 2)}
        if pairs:
            best = min(pairs.values())
            mine = pairs.get((ia, ib), pairs.get((ib, ia)))
            if mine is None or mine > best + TOL[met]:
                f.append(f"merged {cl[ia]} and {cl[ib]} at distance {mine}, the closest pair is {best} apart")
            elif not abs(d - mine) < TOL[met] * 2:
                f.append(f"merge distance recorded as {d}, it is {mine}")
        new = cl.pop(ia) + cl.pop(ib)
        if int(size) != len(new):
            f.append(f"merge size recorded as {size}, it is {len(new)}")
        cl[nxt] = new
        nxt += 1
    if len(cl) != K:
        f.append(f"{len(cl)} clusters remain, {K} were asked for")
    return f, cl


def silhouette(al, lab, met):
    n = len(al)
    s = []
    for i in range(n):
        own = [j for j in range(n) if lab[j] == lab[i] and j != i]
        a = math.fsum(dist(met, al[i], al[j]) for j in own) / len(own) if own else 0.0
        b = min(math.fsum(dist(met, al[i], al[j]) for j in range(n) if lab[j] == c) / sum(1 for v in lab if v == c) for c in set(lab) if c != lab[i])
        s.append((b - a) / max(a, b) if max(a, b) > 0 else 0.0)
    return s


def describe(mod, al, data, K, met, start, unit, fc):
    f, cl = replay(al, K, met, start, np.asarray(mod.merges_))
    lab, cen, r = np.asarray(mod.labels_), np.asarray(mod.centers_), np.asarray(mod.r_)
    n = len(al)
    parts = sorted(sorted(v) for v in cl.values())
    got = sorted(sorted(int(i) for i in np.flatnonzero(lab == c)) for c in set(lab.tolist()))
    if lab.shape != (n,) or set(lab.tolist()) != set(range(len(cl))):
        return f + [f"labels {lab.tolist()} for {len(cl)} clusters"]
    if parts != got:
        f.append(f"labels describe {got}, the merges lead to {parts}")
    if cen.shape != (len(cl),) or r.shape != (len(cl),):
        return f + [f"{cen.shape} centers, {r.shape} resultants for {len(cl)} clusters"]
    for c in range(len(cl)):
        mu, rr = O.mean_r([float(a) for a, l in zip(al, lab) if l == c])
        if abs(r[c] - rr) > 1e-9 or (rr > 1e-9 and not O.arc(cen[c], mu) < 1e-9):
            f.append(f"cluster {c}: center {cen[c]}, r {r[c]}; its points have {mu}, {rr}")
    if len(cl) > 1:
        single = any((lab == c).sum() == 1 for c in set(lab.tolist()))
        sc = mod.silhouette_score()
        ref = silhouette([float(a) for a in al], lab.tolist(), met)
        # a singleton scores 1 here (0 in Rousseeuw's convention); both are accepted
        alt = [0.0 if (lab == lab[i]).sum() == 1 else v for i, v in enumerate(ref)]
        if min(abs(sc - np.mean(ref)), abs(sc - np.mean(alt)) if single else 9) > 1e-6:
            f.append(f"silhouette {sc}, expected {np.mean(ref)}")
        if not -1 - 1e-9 <= sc <= 1 + 1e-9:
            f.append(f"silhouette {sc}")
    if np.all(np.isfinite(cen)):
        q = np.concatenate([al, np.linspace(0.01, 6.9, 7)])
        p = np.asarray(mod.predict(C.to_unit(q, unit, fc)))
        e = "wrong shape" if p.shape != q.shape else nearest(met, q, cen, p, TOL[met])
        if e:
            f.append("predict: " + e)
    return f


class Hac(Space):
    name = "merge"
    chunk = 16
    max_depth = 0
    bounds = "every multiset of 1..5 points on 7 places and up to rotation of 4 points on 12 places, 6 on 7, 8, 9 and 7 on 7 (thorough up to 8 points, 12 places), every K from 1 to n+1, 4 metrics, 3 unit/cycle pairs in rotation"

    def roots(self, tier):
        i = 0
        fams = [(7, n, n > 3) for n in range(1, 6)] + [(12, 4, True), (7, 6, True), (8, 6, True), (9, 6, True), (7, 7, True)]
        if tier != "quick":
            fams += [(12, 5, True), (12, 6, True), (8, 7, True), (7, 8, True), (8, 8, True), (11, 7, True)]
        for m, n, rot in fams:
            for ks in C.multisets(m, n, rot=rot):
                for K in range(1, n + 2):
                    for met in METRICS:
                        i += 1
                        yield (m, ks, K, met, i % 3)

    def check(self, s):
        m, ks, K, met, ui = s
        unit, fc = UNITS[ui]
        # the order of the points must not matter to the property: use a fixed shuffle
        n = len(ks)
        al = C.angles(m, [ks[(i * 3 + 1) % n] if n % 3 else ks[n - 1 - i] for i in range(n)])
        data = C.to_unit(al, unit, fc)
        mod = fit(data, K, unit, fc, met)
        f = []
        if len(al) <= K:
            if sorted(mod.labels_) != list(range(n)) or np.asarray(mod.merges_).shape != (0, 4) or any(O.arc(mod.centers_[l], a) > 1e-9 for l, a in zip(mod.labels_, al)):
                f.append(f"{n} points, {K} clusters: labels {mod.labels_}, merges {mod.merges_}")
            q = np.asarray(mod.predict(data))
            e = nearest(met, al, mod.centers_, q, TOL[met])
            return (met, "trivial", n), f + ([e] if e else [])
        if np.asarray(mod.merges_).shape != (n - K, 4):
            f.append(f"{np.asarray(mod.merges_).shape} merges from {n} points to {K} clusters")
        f += describe(mod, al, data, K, met, {i: [i] for i in range(n)}, unit, fc)
        return (met, K, n, int(round(float(mod.merges_[-1][2]) * 4)) if math.isfinite(mod.merges_[-1][2]) else -1), f


class Pre(Space):
    name = "pre-clustered"
    chunk = 8
    max_depth = 0
    bounds = "k-means start: samples of 4..6 points on 8 places (7 thorough), n_init_clusters 2..4, K 1..3, seeds 0..2 (0..5): the merges start from the k-means partition"

    def roots(self, tier):
        for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 7):
            for ks in C.multisets(8, n, rot=True):
                for pre in (2, 3, 4):
                    for K in range(1, pre + 1):
                        for seed in range(1 if tier == "quick" else 5):
                            yield (8, ks, pre, K, "center" if (n + K + pre) % 2 else "chord", seed)

    def check(self, s):
        m, ks, pre, K, met, seed = s
        al = C.angles(m, ks)
        mod = fit(al, K, metric=met, pre=pre, seed=seed)
        again = fit(al, K, metric=met, pre=pre, seed=seed)
        f = []
        if not np.array_equal(mod.labels_, again.labels_) or not np.array_equal(mod.merges_, again.merges_):
            f.append("the same seed gave another tree")
        n = len(al)
        if pre >= n:
            start = {i: [i] for i in range(n)}
            if K >= n:
                return None, f
        else:
            if n <= K:
                return None, f
            if len(Rec.log) != 1 or Rec.log[0][1] != pre or len(Rec.log[0][0]) != n:
                return "unobserved", f       # another way of pre-clustering: nothing to bind to
            lab = Rec.log[0][2]
            start = {}
            for c in range(pre):
                idx = [int(i) for i in np.flatnonzero(lab == c)]
                if idx:
                    start[c] = idx
        if len(start) < K:
            want = len(start)
        else:
            want = K
        f += describe(mod, al, al, want, met, start, "radian", 360)
        return (met, K, pre, len(start)), f


class Dendro(Space):
    name = "dendrogram"
    chunk = 2
    max_depth = 0
    bounds = "plot_dendrogram on 1..6 points: one bracket per merge, joining the merged ids at the merge distance"

    def roots(self, tier):
        for n in (1, 2, 3, 4, 6):
            for j, ks in enumerate(C.multisets(8, n, rot=True)):
                if j % (1 if n < 4 or tier != "quick" else 5) == 0:
                    yield (8, ks, 1)

    def check(self, s):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        m, ks, K = s
        mod = fit(C.angles(m, ks), K)
        f = []
        fig, ax = plt.subplots()
        try:
            out = mod.plot_dendrogram(ax=ax)
            if out is not ax:
                f.append("plot_dendrogram did not return the axes it was given")
            segs = []
            for ln in ax.lines:
                x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
                segs += [(x[i], y[i], x[i + 1], y[i + 1]) for i in range(len(x) - 1)]
            for a, b, d, _ in np.asarray(mod.merges_):
                if not math.isfinite(d):
                    continue
                if not any(abs(y1 - d) < 1e-9 and abs(y2 - d) < 1e-9 and sorted((x1, x2)) == sorted((a, b)) for x1, y1, x2, y2 in segs):
                    f.append(f"no bracket at height {d} between {a} and {b}")
                for c in (a, b):
                    if d > 0 and not any(x1 == x2 == c and max(y1, y2) >= d - 1e-9 and min(y1, y2) <= d for x1, y1, x2, y2 in segs):
                        f.append(f"no stem at {c} up to {d}")
        finally:
            plt.close(fig)
        return len(ks), f


def spaces(tier):
    return [Hac(), Pre(), Dendro()]
