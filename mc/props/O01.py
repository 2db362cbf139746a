"""The Circular object is a faithful front end of the functional API."""
import math
import re

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, aclose, close

from pycircstat2 import Circular
from pycircstat2.clustering import MovM
from pycircstat2 import descriptive as D
from pycircstat2 import hypothesis as H
from pycircstat2 import utils as U

UNITS = (("radian", None, O.TAU), ("degree", None, 360), ("hour", None, 24), ("custom", 100, 100), ("degree", 180, 180))
KW = (dict(), dict(kwargs_mean_ci=dict(method="approximate")), dict(kwargs_mean_ci=dict(method="dispersion")),
      dict(kwargs_median=dict(method="count")), dict(kwargs_median=dict(method=None)), dict(kwargs_median=dict(average_method="unique")),
      dict(kwargs_mean_ci=dict(method=None)), dict(kwargs_mean_ci=dict()), dict(rotate=1.0), dict(rotate=-4.0))


def text_values(c):
    """label -> text after the colon of every line of the summary"""
    return {m.group(1).strip(): m.group(2).strip() for m in re.finditer(r"^\s*([^:\n]+):(.*)$", repr(c), re.M)}


def judge(c, al, w, K, kw, f, seed=None, bin_size=0.0, grouped=False, unit="radian"):
    n = len(al) if w is None else int(np.sum(w))
    ww = np.ones(len(al), int) if w is None else np.asarray(w)
    m, r = D.circ_mean_and_r(al, ww)

    def num(nm, got, exp, rt=1e-9, at=1e-9):
        if not close(got, exp, rt, at):
            f.append(f"{nm}={got} expected {exp}")

    def ang(nm, got, exp, tol=1e-9):
        if not aclose(got, exp, tol):
            f.append(f"{nm}={got} expected {exp}")
    num("n", c.n, n)
    num("alpha", np.cos(c.alpha - al), np.ones(len(al)))
    num("w", c.w, ww)
    num("r", c.r, r)
    ang("mean", c.mean, m, 1e-8 / max(r, 1e-6))
    num("R", c.R, n * r, 1e-9, 1e-8)
    num("kappa", c.kappa, D.circ_kappa(r=r, n=n), 1e-7, 1e-7)
    num("bin_size", c.bin_size, bin_size)
    num("s", c.s, D.angular_std(r=r, bin_size=bin_size), 1e-6, 1e-7)
    if r > 1e-6:
        num("s0", c.s0, D.circ_std(r=r, bin_size=bin_size), 1e-6, 1e-7)
    if 1 - r > 1e-4 and r > 1e-6:
        num("skewness", c.skewness, D.circ_skewness(al, ww), 1e-6, 1e-6)
        num("kurtosis", c.kurtosis, D.circ_kurtosis(al, ww), 1e-6, 1e-6)
    t = H.rayleigh_test(n=n, r=r)
    num("rayleigh p", c.mean_test_result.pval, t.pval, 1e-7, 1e-12)
    if c.grouped != grouped:
        f.append(f"grouped={c.grouped}")
    km = {"method": "deviation", "average_method": "all", **kw.get("kwargs_median", {})}
    med = D.circ_median(al, w=ww, method=km["method"], average_method=km["average_method"])
    ang("median", c.median, med, 2e-5 if grouped else 1e-8)
    if not grouped and not math.isnan(med) and n >= 3:
        if not any(1e-9 < O.arc(float(x), float(med)) < 3e-5 for x in al):
            e = D.circ_median_ci(median=float(med), alpha=al)
            if not any(abs(O.arc(float(x), float(med)) - math.pi) < 1e-6 for x in al):
                ang("median_lb", c.median_lb, e[0], 1e-8)
                ang("median_ub", c.median_ub, e[1], 1e-8)
                num("median_ci_level", c.median_ci_level, e[2])
    # confidence interval of the mean
    if abs(t.pval - 0.05) > 1e-6:
        if "kwargs_mean_ci" in kw:
            meth = kw["kwargs_mean_ci"].get("method", "bootstrap")
        else:
            meth = None if t.pval > 0.05 else "dispersion" if n >= 25 else "bootstrap" if n >= 8 else None
        if (c.method_mean_ci or None) != meth:
            f.append(f"method_mean_ci={c.method_mean_ci} expected {meth}")
        if meth is None or t.pval > 0.05:
            num("mean_lb", c.mean_lb, math.nan)
            num("mean_ub", c.mean_ub, math.nan)
        else:
            np.random.seed(seed)
            e = D.circ_mean_ci(alpha=c.alpha, w=None if w is None else ww, method=meth, ci=0.95)
            ang("mean_lb", c.mean_lb, e[0], 1e-7)
            ang("mean_ub", c.mean_ub, e[1], 1e-7)
            num("mean_ci_level", c.mean_ci_level, 0.95)
    # printed summary
    tv = text_values(c)

    def shown(label, v):
        if label not in tv:
            f.append(f"summary lacks {label!r}")
            return
        got = tv[label].split()[0] if tv[label].split() else ""
        if math.isnan(v) or math.isinf(v):
            ok = got == str(float(v))
        else:
            try:
                g = float(got)
                digits = len(got.split(".")[1]) if "." in got else 0
                ok = abs(g - v) <= 0.5000001 * 10 ** -digits + 1e-9 * abs(v)
            except ValueError:
                ok = False
        if not ok:
            f.append(f"summary shows {label}: {got} but value is {v}")
    k = K / O.TAU
    shown("Sample size", n)
    shown("Angular mean", c.mean * k)
    shown("Angular deviation (s)", c.s * k)
    shown("Circular standard deviation (s0)", c.s0 * k)
    shown("Concentration (r)", c.r)
    shown("Concentration (kappa)", float(c.kappa))
    shown("Skewness", float(c.skewness))
    shown("Kurtosis", float(c.kurtosis))
    if not math.isnan(c.mean_lb):
        key = f"Angular mean CI ({c.mean_ci_level:.2f})"
        shown(key, c.mean_lb * k)
        if key in tv and abs(float(tv[key].split("-", 1)[1]) - c.mean_ub * k) > 0.00501:
            f.append("summary shows a different upper bound of the mean")
    if tv.get("Unit") != unit or tv.get("Grouped?") != ("Yes" if grouped else "No"):
        f.append(f"summary unit/grouping wrong: {tv.get('Unit')} {tv.get('Grouped?')}")
    lines = [(a.strip(), b.strip()) for a, b in re.findall(r"^  ([^:\n]+):(.*)$", repr(c), re.M)]
    got = [b for a, b in lines if a == "Angular median"]
    if len(got) != 2 or got[1] != str(km["method"]) or not (math.isnan(c.median) and got[0] == "nan" or abs(float(got[0]) - float(c.median) * k) <= 0.00501):
        f.append(f"summary shows median and its method as {got}, they are {float(c.median) * k} and {km['method']}")
    if tv.get("Angular mean CI") != str(c.method_mean_ci):
        f.append(f"summary shows the interval method {tv.get('Angular mean CI')}, it is {c.method_mean_ci}")
    lb = getattr(c, "median_lb", math.nan)
    got = [b for a, b in lines if a.startswith("Angular median CI")]
    if math.isnan(lb) != (not got):
        f.append(f"median interval {lb} but the summary shows {got}")
    elif got:
        a, b = re.fullmatch(r"(\S+) - (\S+)", got[0]).groups()
        if abs(float(a) - lb * k) > 0.00501 or abs(float(b) - c.median_ub * k) > 0.00501 or f"Angular median CI ({c.median_ci_level:.2f})" not in tv:
            f.append(f"summary shows the median interval {got}, it is {lb * k} - {c.median_ub * k} at level {c.median_ci_level}")
    if not any(a.startswith("Angular mean CI (") for a, b in lines) != math.isnan(c.mean_lb):
        f.append(f"mean interval {c.mean_lb}: shown or hidden wrongly")
    if grouped and not math.isnan(lb):
        f.append("a median interval for grouped data")
    g = getattr(c, "mixture_opt", None)
    if (g is None) != ("Unimodal?" not in tv) or g is not None and tv["Unimodal?"] != ("Yes" if len(g.m_) == 1 else f"No (n_clusters={len(g.m_)})"):
        f.append(f"summary shows Unimodal? {tv.get('Unimodal?')} for a chosen mixture of {g and len(g.m_)}")
    if str(c) != repr(c) or c.summary() != repr(c):
        f.append("str/summary/repr differ")
    return (n, round(float(r), 3), c.method_mean_ci)


class Ungrouped(Space):
    name = "ungrouped"

    def __init__(self, tier):
        self.tier = tier
        self.bounds = "samples n=1..30,60 x shapes x concentrations x 5 units/cycles x 10 keyword sets x list/array input"

    def roots(self, tier):
        ns = (1, 2, 3, 5, 7, 8, 9, 14, 15, 16, 20, 24, 25, 26, 33, 60) if tier == "quick" else tuple(range(1, 41)) + (60, 120)
        j = 0
        for p in S.pats(ns, kinds=("vm", "skew", "ties"), concs=(0, 2, 3, 4), mus=(0, 7)):
            for u in range(len(UNITS)):
                for k in range(len(KW)):
                    j += 1
                    boot = 8 <= p[2] < 25 and (KW[k].get("kwargs_mean_ci", {}) == {})
                    if boot and (u != j % 5 or p[4]) and not (k == 0 and u == 0):
                        continue
                    if tier == "quick" and (j * 7 + k) % 5 and not (u == 0 and p[4] == 0):
                        continue
                    yield p + (u, k)

    def check(self, s):
        p, u, k = s[:6], s[6], s[7]
        al = S.pat_angles(p)
        unit, fc, K = UNITS[u]
        kw = {a: (dict(b) if isinstance(b, dict) else b) for a, b in KW[k].items()}
        f = []
        n = len(al)
        meth = kw.get("kwargs_mean_ci", {}).get("method")
        r = O.mean_r(list(al))[1]
        if meth == "approximate" and n < 8 or meth == "dispersion" and n < 25:
            # documented refusal once the mean is significant
            try:
                Circular(al * K / O.TAU, unit=unit, full_cycle=fc, **kw)
            except ValueError:
                pass
            return "refused", []
        if 1e-14 < r < 1e-6:
            return None, []
        data = al * K / O.TAU
        seed = 7
        np.random.seed(seed)
        c = Circular(list(data) if s[2] % 2 else data, unit=unit, full_cycle=fc, **kw)
        exp = np.mod(al + KW[k].get("rotate", 0.0), O.TAU)
        sig = judge(c, exp, None, K, KW[k], f, seed, unit=unit)
        if not close(np.asarray(c.data, dtype=float), data):
            f.append("data attribute is not the input")
        return sig, f


class GroupedObj(Space):
    name = "grouped"
    bounds = "12/18/24 equal bins x every cyclic position of 9 frequency patterns x units, given as frequencies (also in reverse order, turned by rotate=, or as floats a rounding error below the counts) or as raw data with bins=; odd and large class numbers"

    PATS = ((1, 3, 6, 2), (5, 9, 4, 1, 1), (2, 2, 2), (1, 0, 3, 1), (10, 20, 5), (1, 1, 1, 1, 1, 1), (3,), (4, 7, 9, 3, 2, 1), (0, 1, 1))

    def roots(self, tier):
        for nb in (12, 18, 24):
            for pi in range(len(self.PATS)):
                for pos in range(0, nb, 3 if tier == "quick" else 1):
                    for u in range(4):
                        for mode in ("w", "bins", "turned", "backwards", "computed"):
                            yield (nb, pi, pos, u, mode)
        for nb in (15, 61, 122) if tier == "quick" else (7, 15, 25, 61, 122, 197):
            for pi in range(len(self.PATS)):
                for mode in ("w", "bins", "turned", "backwards", "computed"):
                    yield (nb, pi, nb - 2, pi % 4, mode)

    def check(self, s):
        nb, pi, pos, u, mode = s
        h = O.TAU / nb
        al = (np.arange(nb) + 0.5) * h
        w = np.zeros(nb, int)
        for i, x in enumerate(self.PATS[pi]):
            w[(pos + i) % nb] += x
        unit, fc, K = UNITS[u]
        f = []
        np.random.seed(5)
        kw = {} if pos == 6 and u == 1 else dict(kwargs_mean_ci=dict(method=None))
        ckw = {a: dict(b) for a, b in kw.items()}
        if mode == "turned":
            ckw["rotate"] = 2.5
            c = Circular(al * K / O.TAU, w=w, unit=unit, full_cycle=fc, **ckw)
            al = np.mod(al + 2.5, O.TAU)
        elif mode == "computed":            # frequencies a rounding error below the counts
            c = Circular(al * K / O.TAU, w=np.nextafter(w.astype(float), 0.0), unit=unit, full_cycle=fc, **ckw)
        elif mode == "backwards":
            al, w = al[::-1], w[::-1]
            c = Circular(al * K / O.TAU, w=w, unit=unit, full_cycle=fc, **ckw)
        elif mode == "w":
            c = Circular(al * K / O.TAU, w=w if pi % 2 else list(w), unit=unit, full_cycle=fc, **ckw)
        else:
            raw = np.repeat(al, w) + 0.1 * h * np.sin(np.arange(w.sum()))
            turns = (np.arange(len(raw)) % 3 - 1) * O.TAU if u == 0 else 0
            c = Circular((raw + turns) * K / O.TAU, bins=nb, unit=unit, full_cycle=fc, **ckw)
        # the interpolated grouped median rejects some degenerate histograms (see D05)
        sig = judge(c, al, w, K, kw, f, 5, bin_size=h, grouped=True, unit=unit)
        if not (close(c.alpha_lb, al - h / 2) and close(c.alpha_ub, al + h / 2)):
            f.append("bin bounds wrong")
        return sig, f


class MixtureObj(Space):
    name = "mixtures"
    chunk = 2
    bounds = "n_clusters_max 2 and 3 x samples of 6..24 (one, two directions) x units x grouped or not: the mixtures are those fitted to the expanded sample, their BICs, the best of them, and the printed verdict"

    def roots(self, tier):
        for n in (6, 10, 24):
            for kind in ("vm", "bi") + (("ties", "skew") if tier != "quick" else ()):
                for u in range(4):
                    for grouped in (False, True):
                        for K in (2, 3):
                            yield (n, kind, u, grouped, K)

    def check(self, s):
        n, kind, u, grouped, kmax = s
        unit, fc, K = UNITS[u]
        al = S.angles(("P", kind, n, 4, 2, 0))
        w = None
        kw = dict(kwargs_mean_ci=dict(method=None))
        if grouped:
            w, e = np.histogram(al, bins=12, range=(0, O.TAU))
            al = (e[1:] + e[:-1]) / 2
        f = []
        c = Circular(al * K / O.TAU, w=np.nextafter(w.astype(float), 0.0) if grouped and n == 10 else w, unit=unit, full_cycle=fc, n_clusters_max=kmax, **kw)
        x = al if w is None else np.repeat(al, w)
        if len(c.mixtures) != kmax or len(c.mixtures_BIC) != kmax:
            return None, [f"{len(c.mixtures)} mixtures, {len(c.mixtures_BIC)} criteria for n_clusters_max={kmax}"]
        ref = []
        for k in range(1, kmax + 1):
            m = MovM(n_clusters=k, full_cycle=K, unit="radian", random_seed=0)
            m.fit(np.mod(x, O.TAU))
            g = c.mixtures[k - 1]
            if not (close(g.p_, m.p_, 1e-6, 1e-8) and close(g.kappa_, m.kappa_, 1e-5, 1e-6) and close(np.cos(g.m_ - m.m_), np.ones(k), 1e-6, 1e-6)):
                f.append(f"mixture of {k}: {g.p_} {g.m_} {g.kappa_}, fitted directly {m.p_} {m.m_} {m.kappa_}")
            ref.append(m.compute_BIC())
        if not close(np.asarray(c.mixtures_BIC, float), np.asarray(ref, float), 1e-6, 1e-6):
            f.append(f"mixtures_BIC {c.mixtures_BIC}, expected {ref}")
        best = int(np.nanargmin(ref))
        gap = sorted(v for v in ref if not math.isnan(v))
        if (len(gap) < 2 or gap[1] - gap[0] > 1e-4) and c.mixture_opt is not c.mixtures[best]:
            f.append(f"mixture_opt has {len(c.mixture_opt.m_)} components, criteria {ref}")
        t = re.search(r"Unimodal\?: (.*?) *\n", repr(c)).group(1)
        if t != ("Yes" if len(c.mixture_opt.m_) == 1 else f"No (n_clusters={len(c.mixture_opt.m_)})"):
            f.append(f"summary shows Unimodal? {t} for {len(c.mixture_opt.m_)} components")
        return (n, kind, grouped, len(c.mixture_opt.m_)), f


def spaces(tier):
    return [Ungrouped(tier), GroupedObj(), MixtureObj()]
