"""Scripted initialisation, runners and reference definitions for the clustering models."""
import itertools
import math
from functools import lru_cache

import numpy as np
from scipy.special import betaln, ive

import pycircstat2.clustering as CL
import pycircstat2.distributions as X
from mc import dist as M
from mc import oracle as O

TAU = 2 * math.pi
OFF = 0.137
MOCD = ("vonmises", "wrapcauchy", "wrapnorm", "cardioid", "cartwright")
NPAR = {"movm": 2, "mokj": 4}


class Script:
    """Generator stand-in: the first draw of n integers returns the scripted labels, everything else is real."""

    def __init__(self, labels, real):
        self._labels = np.array(labels, dtype=int)
        self._real = real
        self.used = 0

    def integers(self, *a, **k):
        out = self._real.integers(*a, **k)
        if np.shape(out) == self._labels.shape:
            self.used += 1
            return self._labels.copy()
        return out

    def __getattr__(self, name):
        return getattr(self._real, name)


def angles(m, ks, o=OFF):
    return np.array([TAU * k / m + o for k in ks])


def to_unit(al, unit, fc):
    return al if unit == "radian" else np.asarray(al) * fc / TAU


def build(model, K, T, unit="radian", fc=360, seed=5, burnin=10**6, threshold=1e-16, **kw):
    common = dict(n_clusters=K, n_iters=T, burnin=burnin, threshold=threshold, unit=unit, full_cycle=fc, random_seed=seed)
    if model == "movm":
        return CL.MovM(**common, **kw)
    if model == "mokj":
        return CL.MoKJ(**common, **kw)
    return CL.MoCD(getattr(X, model), **common, **kw)


def script(mod, labels):
    if hasattr(mod, "_rng") and labels is not None:
        mod._rng = Script(labels, mod._rng)
    return mod


def used(mod):
    r = getattr(mod, "_rng", None)
    return isinstance(r, Script) and r.used == 1


def run(model, data, K, labels, T, **kw):
    m = script(build(model, K, T, **kw), labels)
    m.fit(np.array(data, dtype=float))
    return m


def resp(mod):
    return mod.gamma_resp_ if hasattr(mod, "gamma_resp_") else mod.gamma_


# ---- reference ----------------------------------------------------------------
def logf(model, x, par):
    """reference log density; par is the params_ dictionary of one component"""
    x = np.asarray(x, dtype=float)
    with np.errstate(all="ignore"):
        if model in ("movm", "vonmises"):
            k = par["kappa"]
            return -2 * k * np.sin((x - par["mu"]) / 2) ** 2 - math.log(TAU * ive(0, k))
        if model == "mokj":
            return np.log(np.maximum(M.d_katojones(M.ang(x - par["mu"]), par["gamma"], par["rho"], par["lam"]), 0))
        t = x - par["mu"]
        if model == "cardioid":
            return np.log(np.maximum(1 + 2 * par["rho"] * np.cos(t), 0) / TAU)
        if model == "cartwright":
            z = par["zeta"]
            c = np.abs(np.cos(t / 2))
            return 2 / z * np.log(np.where(c < 1e-8, 0.0, c)) - math.log(2) - betaln(0.5, 1 / z + 0.5)
        if model == "wrapcauchy":
            r = par["rho"]
            return np.log((1 - r) * (1 + r) / (TAU * ((1 - r) ** 2 + 4 * r * np.sin(t / 2) ** 2)))
        if model == "wrapnorm":
            r = par["rho"]
            if r < 1e-6:
                return np.log((1 + 2 * r * np.cos(t)) / TAU)
            s2 = -2 * math.log(r)
            tt = M.ang(t)
            m = int(math.ceil(8 * math.sqrt(s2) / TAU)) + 1
            return np.logaddexp.reduce([-(tt + TAU * j) ** 2 / (2 * s2) for j in range(-m, m + 1)], axis=0) - 0.5 * math.log(TAU * s2)
    raise KeyError(model)


def sharp(model, pars):
    """amplification of a rounding error of an angle in the log density"""
    s = 1.0
    for p in pars:
        if "kappa" in p:
            s = max(s, p["kappa"])
        if "rho" in p and model == "wrapnorm" and p["rho"] > 0:
            s = max(s, 1 / max(-2 * math.log(min(p["rho"], 1 - 1e-16)), 1e-16))
        if "rho" in p and model == "wrapcauchy":
            s = max(s, 1 / max(1 - p["rho"], 1e-16) ** 2)
        if "zeta" in p:
            s = max(s, 1 / max(p["zeta"], 1e-300))
    return s


def post(model, x, p, pars):
    """(log joint K x n, log density n, posterior K x n)"""
    with np.errstate(all="ignore"):
        L = np.vstack([math.log(pk) + logf(model, x, q) if pk > 0 else np.full(np.shape(x), -np.inf) for pk, q in zip(p, pars)])
        d = np.logaddexp.reduce(L, axis=0)
        return L, d, np.exp(L - d)


def kappa_ref(r):
    if r >= 1:
        return float("inf")
    return O.kappa_ml(r)


# ---- finite families ---------------------------------------------------------
@lru_cache(maxsize=None)
def surj(n, K, canonical=True):
    """labelings onto K clusters; canonical: first occurrences in increasing order"""
    out = []
    for lab in itertools.product(range(K), repeat=n):
        if len(set(lab)) != K:
            continue
        if canonical and [lab.index(c) for c in range(K)] != sorted(lab.index(c) for c in range(K)):
            continue
        out.append(lab)
    return tuple(out)


def multisets(m, n, rot=False):
    for ks in itertools.combinations_with_replacement(range(m), n):
        if rot and min(tuple(sorted((k - d) % m for k in ks)) for d in ks) != ks:
            continue
        yield ks
