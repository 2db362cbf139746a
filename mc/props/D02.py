"""Rotation / reflection equivariance of every descriptive summary."""
import math
from functools import lru_cache

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import descriptive as D
from pycircstat2.utils import rotate_data

PHIS = (0.0, 0.5, math.pi / 2, 1.9, math.pi, 4.4, 2 * math.pi - 0.25, 5 * math.pi + 0.3, -0.7, 1e-3)


def trycall(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (ValueError, AssertionError) as e:
        return ("E", type(e).__name__)


def summaries(al, w):
    """name -> (kind, value); kinds: inv invariant, ang angle, z<p> moment, arc (lb,ub), odd (sign flips)"""
    d = {}
    m, r = D.circ_mean_and_r(al, w)
    d["circ_r"] = ("inv", D.circ_r(al, w))
    d["r"] = ("inv", r)
    if 1e-9 < r < 1e-6:
        return {}
    d["circ_mean"] = ("ang", D.circ_mean(al, w))
    d["mean"] = ("ang", m)
    for p in (1, 2, 3):
        d[f"moment{p}"] = (f"z{p}", D.circ_moment(al, w, p=p))
        if r > 1e-6:
            d[f"cmoment{p}"] = ("z0", D.circ_moment(al, w, p=p, centered=True))
    if r > 1e-6:
        d["dispersion"] = ("inv", D.circ_dispersion(al, w))
        if r < 0.999:
            d["skewness"] = ("odd", D.circ_skewness(al, w))
            d["kurtosis"] = ("inv", D.circ_kurtosis(al, w))
    if w is None or np.all(w == w[0]):
        d["circ_var"] = ("inv", D.circ_var(al, w))
        d["angular_var"] = ("inv", D.angular_var(al, w))
        d["angular_std"] = ("std", D.angular_std(al, w))
        if r > 1e-6:
            d["circ_std"] = ("std", D.circ_std(al, w))
    n = len(al) if w is None else float(np.sum(w))
    if r > 1e-6:
        for ci in (0.8, 0.95):
            d[f"mean_ci_approx{ci}"] = ("arc", trycall(D.circ_mean_ci, al, w, ci=ci, method="approximate"))
            d[f"mean_ci_disp{ci}"] = ("arc", trycall(D.circ_mean_ci, al, w, ci=ci, method="dispersion"))
    if w is None:
        for meth in ("deviation", "count"):
            d[f"median_{meth}"] = ("ang", D.circ_median(al, method=meth))
        d["range"] = ("inv", D.circ_range(al))
        md = d["median_deviation"][1]
        # an observation antipodal to the median lies on the cut of the circle
        cut = math.isnan(md) or any(abs(O.arc(float(x), md) - math.pi) < 1e-6 for x in al)
        if not cut:
            d["quantile"] = ("q", D.circ_quantile(al, np.array([0.1, 0.25, 0.5, 0.75, 0.9])))
        # the library compares with the median to 5 decimals
        amb = any(1e-9 < O.arc(float(x), md) < 3e-5 for x in al) if not cut else True
        if len(al) >= 3 and not amb:
            d["median_ci"] = ("marc", (d["median_deviation"][1], D.circ_median_ci(alpha=al)))
    return d


def same(kind, a, b, phi, refl, tol):
    """is b the image of a"""
    sg = -1.0 if refl else 1.0
    if kind == "inv":
        return close(a, b, rtol=tol, atol=tol)
    if kind == "std":
        return close(a, b, rtol=max(tol, 1e-6), atol=1e-7)
    if kind == "odd":
        return close(sg * a, b, rtol=1e-6, atol=1e-6)
    if kind == "ang":
        return aclose(sg * a + phi, b, tol) if not math.isnan(a) else math.isnan(b)
    if kind[0] == "z":
        p = int(kind[1:])
        z = a.conjugate() if refl else a
        return abs(z * np.exp(1j * p * phi) - b) < max(tol, 1e-9)
    if kind == "arc":
        if isinstance(a[0], str) or isinstance(b[0], str):
            return a == b
        if refl:
            a = (-a[1], -a[0])
        return aclose(a[0] + phi, b[0], 1e-7) and aclose(a[1] + phi, b[1], 1e-7)
    if kind == "marc":
        if math.isnan(a[0]) or math.isnan(b[0]):
            return True
        a, b = a[1], b[1]
        if a[2] != b[2]:
            return False
        lo, hi = (-a[1], -a[0]) if refl else (a[0], a[1])
        if refl:
            return True       # order statistics are not reflection symmetric for even n
        return aclose(lo + phi, b[0], 1e-7) and aclose(hi + phi, b[1], 1e-7)
    if kind == "q":
        if refl:
            return all(aclose(-x + phi, y, 1e-7) for x, y in zip(a[::-1], b))
        return all(aclose(x + phi, y, 1e-7) for x, y in zip(a, b))
    raise KeyError(kind)


@lru_cache(maxsize=64)
def base(sample, wi):
    al = S.angles(sample)
    w = weights(len(al), wi)
    return summaries(al, w)


def weights(n, wi):
    return [None, np.arange(n) % 3 + 1, np.full(n, 2.0)][wi]


class Orbit(Space):
    def __init__(self, name, gen, phis, bounds):
        self.name = name
        self.gen = gen
        self.phis = phis
        self.bounds = bounds

    def roots(self, tier):
        for sample, wi in self.gen(tier):
            yield (sample, wi, 0, 0)

    def actions(self, s):
        sample, wi, j, refl = s
        if j + 1 < len(self.phis):
            yield ("rotate",), (sample, wi, j + 1, refl)
        if not refl:
            yield ("reflect",), (sample, wi, j, 1)

    def check(self, s):
        sample, wi, j, refl = s
        b = base(sample, wi)
        al = S.angles(sample)
        w = weights(len(al), wi)
        phi = self.phis[j]
        x = (-al if refl else al) + phi
        x = np.mod(x, O.TAU) if j % 2 == 0 else x
        g = summaries(x, w)
        f = []
        r = b["r"][1] if b else 1
        tol = 1e-8 / max(float(r), 1e-3)
        for k in b.keys() & g.keys():
            kind, v = b[k]
            if not same(kind, v, g[k][1], phi, refl, tol):
                f.append(f"{k}: rotate by {phi:.4g}{' after reflection' if refl else ''}: {v} -> {g[k][1]}")
        if b.keys() != g.keys() and b and g:
            f.append(f"summaries defined differ: {sorted(b.keys() ^ g.keys())}")
        if not refl and w is None and abs(phi) < 7:
            y = rotate_data(al, phi)
            if not all(aclose(p, q + phi, 1e-9) for p, q in zip(y, al)):
                f.append("rotate_data is not al+phi")
        return tuple(round(float(v[1]), 3) for k, v in sorted(b.items()) if v[0] == "inv")[:3], f


def g_lattice(tier):
    m = 7 if tier == "quick" else 9
    for s in S.seqs(m, 4 if tier == "quick" else 5, 1, offs=(0,), canonical=True):
        yield s, 0
    for s in S.seqs(5, 5, 5, offs=(1,), canonical=True):
        yield s, 0
        yield s, 1


def g_pat(tier):
    ns = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 26, 31, 40)
    if tier == "thorough":
        ns = tuple(range(2, 61)) + (101, 200)
    for s in S.pats(ns, kinds=("vm", "bi", "skew", "ties"), concs=(1, 2, 3, 4)):
        for wi in (0, 1):
            yield s, wi


def spaces(tier):
    return [Orbit("lattice-orbits", g_lattice, PHIS, "every multiset of <=4 points of a 7-lattice (5 of a 5-lattice, weighted) x 10 rotations x reflection"),
            Orbit("pattern-orbits", g_pat, PHIS if tier == "thorough" else PHIS[1::2], "deterministic samples n=2..40 x 4 shapes x 4 concentrations x weights x rotations x reflection")]
