"""Clusterings move with the data: rotation, reflection, full turns, order, cluster names and units."""
import itertools
import math

import numpy as np

from mc import clust as C
from mc import oracle as O
from mc.engine import Space
from mc.props import C05, C06

TAU = 2 * math.pi
PLACES = (0.0531, 0.3617, 0.9473, 1.7519, 2.0971, 3.3491, 4.1623, 5.3087)      # no two gaps or sub-sums alike
UNITS = (("radian", 360), ("degree", 360), ("degree", 24), ("degree", 7.5))
ROT = (1.0, 3.0, 5.2)
OPS = tuple(("rot", i) for i in range(3)) + (("refl", 0), ("turn", 0), ("turn", 1), ("perm", 0), ("perm", 1), ("rename", 0), ("unit", 1), ("unit", 2), ("unit", 3))


def transform(al, lab, ops):
    """-> (angles, labels, order, name map, sign, shift, unit)"""
    al = [float(a) for a in al]
    lab = list(lab)
    order = list(range(len(al)))
    names = list(range(max(lab) + 1)) if lab else []
    sign, shift, unit = 1, 0.0, 0
    for op, i in ops:
        if op == "rot":
            al = [a + ROT[i] for a in al]
            shift += ROT[i]
        elif op == "refl":
            al = [-a for a in al]
            sign, shift = -sign, -shift
        elif op == "turn":
            k = i % len(al)
            al[k] += TAU if i == 0 else -TAU
        elif op == "perm":
            perm = list(range(len(al)))
            if i == 0:
                perm = perm[1:] + perm[:1]
            elif len(perm) > 1:
                perm[0], perm[-1] = perm[-1], perm[0]
            al = [al[k] for k in perm]
            lab = [lab[k] for k in perm]
            order = [order[k] for k in perm]
        elif op == "rename":
            K = len(names)
            nm = [(c + 1) % K for c in range(K)]
            lab = [nm[c] for c in lab]
            names = [nm[c] for c in names]
        elif op == "unit":
            unit = i
    return np.array(al), lab, order, names, sign, shift, unit


class Base(Space):
    chunk = 16

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3

    def actions(self, s):
        ops = s[-1]
        for op in self.ops:
            if not (ops and op[0] == ops[-1][0] == "unit"):
                yield "%s%d" % op, s[:-1] + (ops + (op,),)


class Mixtures(Base):
    name = "mixtures"
    ops = OPS
    bounds = "MovM and MoCD x 5 families; samples of 3..5 points out of 8 irregular places, K = 1..2 (MovM 3), labellings, 3 iterations; every sequence of up to 2 (thorough 3) of 12 transformations"

    def roots(self, tier):
        for model in ("movm",) + C.MOCD:
            j = 0
            for n in (3, 4, 5):
                for idx in itertools.combinations(range(8), n):
                    for K in (1, 2) if model != "movm" else (1, 2, 3):
                        for lab in C.surj(n, K):
                            j += 1
                            if j % ({"movm": 61}.get(model, 97) if tier == "quick" else 61) == 1:
                                yield (model, idx, K, lab, ())

    def check(self, s):
        model, idx, K, lab, ops = s
        base = C.run(model, [PLACES[i] for i in idx], K, lab, 3)
        if not ops:
            return (model, K, len(idx)), []
        if C.sharp(model, base.params_) > 1e4 or not np.all(np.isfinite(base.p_)):
            return "sharp", []
        # a component without a direction is not determined
        for k in range(K):
            w = C.resp(base)[k]
            if w.sum() < 1e-3 or O.mean_r([PLACES[i] for i in idx], list(w))[1] < 1e-3:
                return "undirected", []
        al, lb, order, names, sign, shift, u = transform([PLACES[i] for i in idx], lab, ops)
        unit, fc = UNITS[u]
        mod = C.run(model, C.to_unit(al, unit, fc), K, lb, 3, unit=unit, fc=fc)
        if not (C.used(mod) and C.used(base)):
            return "unscripted", []
        f = []
        tol = 1e-7 * max(1.0, C.sharp(model, base.params_))
        for k in range(K):
            a, b = base.params_[k], mod.params_[names[k]]
            if abs(base.p_[k] - mod.p_[names[k]]) > tol:
                f.append(f"weight of component {k}: {base.p_[k]} -> {mod.p_[names[k]]}")
            for key in a:
                if key == "mu":
                    if O.arc(b["mu"], sign * a["mu"] + shift) > tol:
                        f.append(f"mean of component {k}: {a['mu']} -> {b['mu']}, expected {O.wrap(sign * a['mu'] + shift)}")
                elif abs(a[key] - b[key]) > tol * (1 + abs(a[key])):
                    f.append(f"{key} of component {k}: {a[key]} -> {b[key]}")
        G, H = C.resp(base), C.resp(mod)
        for k in range(K):
            d = max(abs(G[k, order[i]] - H[names[k], i]) for i in range(len(idx)))
            if d > tol:
                f.append(f"responsibilities of component {k} change by {d}")
        if abs(base.nLL[-1] - mod.nLL[-1]) > tol * 10:
            f.append(f"nLL {base.nLL[-1]} -> {mod.nLL[-1]}")
        if abs(base.compute_BIC() - mod.compute_BIC()) > tol * 100:
            f.append(f"BIC {base.compute_BIC()} -> {mod.compute_BIC()}")
        return (model, K, len(ops)), f


class Hard(Base):
    name = "kmeans-hac"
    ops = tuple(o for o in OPS if o[0] != "rename")
    bounds = "CircKMeans (every start) and CircHAC, 4 metrics, samples of 3..5 of 8 irregular places; every sequence of up to 2 (thorough 3) of 11 transformations"

    def roots(self, tier):
        j = 0
        for n in (3, 4, 5):
            for idx in itertools.combinations(range(8), n):
                for met in C05.METRICS:
                    for K in (1, 2, 3):
                        if K < n:
                            yield from [("hac", idx, K, met, None, ())] if (j := j + 1) % (13 if tier == "quick" else 5) == 1 else []
                        for init in itertools.combinations(range(n), K):
                            j += 1
                            if j % (61 if tier == "quick" else 13) == 1:
                                yield ("kmeans", idx, K, met, init, ())

    def check(self, s):
        kind, idx, K, met, init, ops = s
        n = len(idx)
        al0 = np.array([PLACES[i] for i in idx])
        al, _, order, _, sign, shift, u = transform(al0, [0] * n, ops)
        unit, fc = UNITS[u]
        x = C.to_unit(al, unit, fc)
        f = []
        if kind == "kmeans":
            a, ua = C05.fit(al0, K, 50, init, metric=met)
            b, ub = C05.fit(x, K, 50, tuple(order.index(i) for i in init), unit=unit, fc=fc, metric=met)
            if not (ua and ub):
                return "unscripted", []
            if [int(b.labels_[i]) for i in range(n)] != [int(a.labels_[order[i]]) for i in range(n)]:
                f.append(f"labels {a.labels_} -> {b.labels_} for order {order}")
            elif abs(a.inertia_ - b.inertia_) > 1e-6:
                f.append(f"inertia {a.inertia_} -> {b.inertia_}")
            for c in range(K):
                if O.arc(b.centers_[c], sign * a.centers_[c] + shift) > 1e-8:
                    f.append(f"center {c}: {a.centers_[c]} -> {b.centers_[c]}")
        else:
            a = C06.fit(al0, K, metric=met)
            b = C06.fit(x, K, unit, fc, met)
            pa = {frozenset(int(i) for i in np.flatnonzero(a.labels_ == c)) for c in set(a.labels_.tolist())}
            pb = {frozenset(order[int(i)] for i in np.flatnonzero(b.labels_ == c)) for c in set(b.labels_.tolist())}
            if pa != pb:
                f.append(f"clusters {sorted(map(sorted, pa))} -> {sorted(map(sorted, pb))}")
            if np.abs(np.asarray(a.merges_)[:, 2:] - np.asarray(b.merges_)[:, 2:]).max(initial=0) > 1e-7:
                f.append(f"merge distances and sizes {a.merges_[:, 2:].tolist()} -> {b.merges_[:, 2:].tolist()}")
            if K > 1 and abs(a.silhouette_score() - b.silhouette_score()) > 1e-6:
                f.append(f"silhouette {a.silhouette_score()} -> {b.silhouette_score()}")
        return (kind, K, met, len(ops)), f


def spaces(tier):
    return [Mixtures(tier), Hard(tier)]
