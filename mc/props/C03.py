"""A fitted clustering model depends on the last data it was fitted to and on its start, on nothing that happened before."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import clust as C
from mc.engine import Space
from mc.props import C05

TAU = 2 * math.pi
A = np.array([0.2, 0.5, 0.7, 3.0, 3.4, 3.9, 5.5])
B = np.array([1.0, 1.9, 2.1, 2.2, 5.0])
Z = np.array([0.3, 1.1, 4.0])
DATA = {"A": A, "B": B}
LAB = {"A": (0, 0, 1, 1, 1, 0, 0), "B": (0, 1, 0, 1, 1)}
MODELS = ("movm", "mokj") + C.MOCD + ("kmeans", "hac", "hac-pre")
HIDE = ("_rng", "rng", "random_state")


def snap(o):
    """comparable picture of everything a model shows"""
    if isinstance(o, np.ndarray):
        return ("arr", o.shape, o.astype(float).tobytes() if o.dtype.kind in "fiub" else repr(o))
    if isinstance(o, dict):
        return tuple((k, snap(v)) for k, v in sorted(o.items(), key=lambda t: str(t[0])))
    if isinstance(o, (list, tuple)):
        return tuple(snap(v) for v in o)
    if isinstance(o, (bool, int, float, str, type(None), np.generic)):
        return repr(o.item() if isinstance(o, np.generic) else o)
    return type(o).__name__


def public(mod):
    return {k: snap(v) for k, v in vars(mod).items() if not k.startswith("_")}


class Histories(Space):
    name = "histories"
    chunk = 4
    bounds = "10 models x 2 units; every sequence of up to 3 (thorough 4) operations out of fit A, fit B, verbose fit, predict, predict_proba, predict_density, BIC/score/silhouette"
    OPS = ("fitA", "fitB", "loudA", "predict", "proba", "density", "score")

    def __init__(self, tier):
        self.max_depth = 3 if tier == "quick" else 4

    def roots(self, tier):
        for model in MODELS:
            for unit in ("radian", "degree"):
                yield (model, unit)

    def actions(self, s):
        ops = s[2:]
        model = s[0]
        depth = self.max_depth - (1 if model == "mokj" else 0)
        if len(ops) < depth:
            for op in self.OPS:
                if op[:3] in ("fit", "lou") or any(o[:3] in ("fit", "lou") for o in ops):
                    yield op, s + (op,)

    def make(self, model, unit):
        fc = 24 if unit == "degree" else 360
        if model == "kmeans":
            return C.CL.CircKMeans(n_clusters=2, unit=unit, full_cycle=fc, random_seed=4)
        if model == "hac":
            return C.CL.CircHAC(n_clusters=2, unit=unit, full_cycle=fc, random_seed=4)
        if model == "hac-pre":
            return C.CL.CircHAC(n_clusters=2, n_init_clusters=4, unit=unit, full_cycle=fc, random_seed=4)
        return C.build(model, 2, 3 if model == "mokj" else 6, unit=unit, fc=fc, burnin=2, threshold=1e-2)

    def step(self, mod, model, unit, op, fails):
        fc = 24
        if op[:3] in ("fit", "lou"):
            key = op[-1]
            x = C.to_unit(DATA[key], unit, fc)
            keep = x.copy()
            if hasattr(mod, "_rng"):
                mod._rng = np.random.default_rng(9)
                if model not in ("mokj", "hac", "hac-pre"):
                    C.script(mod, LAB[key])
            with contextlib.redirect_stdout(io.StringIO()) as out:
                r = mod.fit(x, verbose=2) if op[:4] == "loud" and model not in ("kmeans", "hac", "hac-pre") else mod.fit(x)
            if r is not mod:
                fails.append("fit did not return the model")
            if not np.array_equal(x, keep):
                fails.append("fit modified the data it was given")
            if op[:4] != "loud" and out.getvalue():
                fails.append("a silent fit printed something")
            return isinstance(getattr(mod, "_rng", None), C.Script) and mod._rng.used == 1 or model in ("mokj", "kmeans", "hac", "hac-pre")
        z = C.to_unit(Z, unit, fc)
        keep = z.copy()
        fn = {"predict": "predict", "proba": "predict_proba", "density": "predict_density"}.get(op)
        if fn:
            if hasattr(mod, fn):
                getattr(mod, fn)(z)
                if fn == "predict_density":
                    mod.predict_density()
        else:
            for name in ("compute_BIC", "bic", "silhouette_score"):
                if hasattr(mod, name):
                    getattr(mod, name)()
            if hasattr(mod, "score"):
                mod.score(z)
        if not np.array_equal(z, keep):
            fails.append(f"{op} modified its argument")
        return True

    def check(self, s):
        model, unit = s[:2]
        ops = s[2:]
        if not ops:
            return (model,), []
        f = []
        np.random.seed(2)
        st = np.random.get_state()[1].copy()
        mod = self.make(model, unit)
        bound = True
        for op in ops:
            bound = self.step(mod, model, unit, op, f)
        last = max(i for i, o in enumerate(ops) if o[:3] in ("fit", "lou"))
        fresh = self.make(model, unit)
        b2 = self.step(fresh, model, unit, "fit" + ops[last][-1], f)
        if bound and b2:
            a, b = public(mod), public(fresh)
            diff = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            if diff:
                f.append(f"after {'; '.join(ops)} the attributes {diff} differ from a fresh model fitted to the last data")
        if not np.array_equal(np.random.get_state()[1], st):
            f.append("the global random state was advanced")
        return (model, len(ops)), f


class Seeds(Space):
    name = "seeds"
    chunk = 4
    max_depth = 0
    bounds = "10 models x real generator, seeds 0..9 and None-free: the same seed gives the same model, built and fitted twice, also when other models are fitted in between"

    def roots(self, tier):
        for model in MODELS:
            for seed in range(4 if tier == "quick" else 10):
                for other in MODELS[:3] + ("kmeans",):
                    yield (model, seed, other)

    def mk(self, model, seed):
        if model == "kmeans":
            return C.CL.CircKMeans(n_clusters=3, unit="radian", random_seed=seed)
        if model[:3] == "hac":
            return C.CL.CircHAC(n_clusters=2, n_init_clusters=3 if model != "hac" else None, unit="radian", random_seed=seed)
        return C.build(model, 2, 2 if model == "mokj" else 4, seed=seed)

    def check(self, s):
        model, seed, other = s
        np.random.seed(3)
        a = self.mk(model, seed)
        a.fit(A.copy())
        self.mk(other, seed + 1).fit(B.copy())
        np.random.seed(77)
        np.random.random(5)
        b = self.mk(model, seed)
        o = self.mk(other, seed)
        o.fit(B.copy())
        b.fit(A.copy())
        pa, pb = public(a), public(b)
        diff = [k for k in sorted(set(pa) | set(pb)) if pa.get(k) != pb.get(k)]
        return (model, other), [f"seed {seed}: attributes {diff} differ between two fits"] if diff else []


def spaces(tier):
    return [Histories(tier), Seeds()]
