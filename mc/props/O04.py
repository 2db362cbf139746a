"""Using an analysis object never changes it, its inputs, or any later answer."""
import copy
import math

import numpy as np

from mc import samples as S
from mc.engine import Space, close
from mc.props.V01 import norm, snapshot

import pycircstat2.hypothesis as H
import pycircstat2.descriptive as D
from pycircstat2 import Axial, Circular
from pycircstat2.correlation import circ_corrcc
from pycircstat2.regression import CLRegression


def sources(i):
    """-> (constructor kwargs built from caller-owned mutable containers)"""
    if i == 0:
        return Circular, dict(data=[350., 355, 3, 3, 3, 10, 14, 8, 359, 2], unit="degree")
    if i == 1:
        return Circular, dict(data=S.angles(("P", "skew", 26, 2, 11, 1)) * 12 / math.pi, unit="hour", kwargs_mean_ci=dict(method="dispersion"))
    if i == 2:
        return Circular, dict(data=np.arange(0, 24, 2.0), w=np.array([3, 1, 0, 0, 0, 0, 2, 9, 4, 8, 1, 5]), unit="hour")
    if i == 3:
        return Circular, dict(data=S.angles(("P", "vm", 12, 2, 0, 1)), unit="radian", kwargs_median=dict(method="count"), n_clusters_max=2)
    if i == 4:
        return Axial, dict(data=S.angles(("P", "vm", 11, 3, 2, 1)) / 2, unit="radian", kwargs_mean_ci=dict(method="bootstrap"))
    if i == 5:
        return Circular, dict(data=S.angles(("P", "vm", 30, 2, 5, 1)), unit="radian", bins=12)
    return Circular, dict(data=np.array([5., 125., 245.]), unit="degree")


def numbers(r):
    out = []
    if hasattr(r, "__dict__") and not isinstance(r, type):
        for k in sorted(vars(r)):
            v = vars(r)[k]
            if isinstance(v, (int, float, np.number)):
                out.append(float(v))
            elif isinstance(v, np.ndarray):
                out += [float(x) for x in v.ravel() if isinstance(x, (int, float, np.number))]
    return out


def seeded(cls, kw):
    np.random.seed(7)          # the bootstrap draws from the global source
    return cls(**kw)


def op(name, c):
    """-> comparable outcome (or the exception class)"""
    import matplotlib.pyplot as plt
    np.random.seed(7)
    try:
        if name == "repr":
            return repr(c)
        if name == "str":
            return str(c)
        if name == "summary":
            return c.summary()
        if name == "plot":
            ax = c.plot()
            out = [np.asarray(l.get_xdata(), float).tolist() for l in ax.lines]
            plt.close("all")
            return repr(out)
        if name == "tests":
            return repr([H.rayleigh_test(alpha=c.alpha, w=c.w).pval, H.omnibus_test(c.alpha).pval, H.rao_spacing_test(alpha=c.alpha, w=c.w, n_simulation=20).statistic])
        if name == "multi":
            r = [H.watson_u2_test([c, c]), H.wheeler_watson_test([c, c]), H.wallraff_test([c, c]), H.circ_anova([c, c]), H.equal_kappa_test([c, c])]
            return repr([float(x.pval if hasattr(x, "pval") else x.p_value) for x in r])
        if name == "desc":
            return repr([float(D.circ_mean(c.alpha, c.w)), float(D.circ_median(c.alpha, c.w)), float(D.circ_range(c.alpha)), float(np.sum(D.circ_quantile(c.alpha, np.array([.1, .5])))),
                         [float(x) for x in D.circ_mean_ci(c.alpha, c.w, method="approximate")]])
        if name == "corr":
            return repr(float(circ_corrcc(c, c)[0] if isinstance(circ_corrcc(c, c), tuple) else circ_corrcc(c, c).r))
        if name == "boot":
            return repr(D.circ_mean_ci(alpha=c.alpha, w=c.w, method="bootstrap"))
    except Exception as e:
        plt.close("all")
        return f"{type(e).__name__}: {e}"


OPS = ("repr", "summary", "plot", "tests", "multi", "desc", "corr", "boot", "again")


class Hist(Space):
    name = "object-histories"
    chunk = 4

    def __init__(self, tier):
        self.max_depth = 2 if tier == "quick" else 3
        self.bounds = f"7 objects x all sequences of <= {self.max_depth} of {len(OPS)} operations (incl. constructing again from the same containers)"

    def roots(self, tier):
        for i in range(7):
            yield (i, ())

    def actions(self, s):
        i, h = s
        for o in OPS:
            yield (o,), (i, h + (o,))

    def check(self, s):
        i, h = s
        cls, kw = sources(i)
        kw0 = copy.deepcopy(kw)
        c = seeded(cls, kw)
        f = []
        snap0 = snapshot(c)
        # reference: the same operation on a fresh object built from fresh inputs
        for o in h:
            if o == "again":
                d = seeded(cls, kw)
                a, b = snapshot(d), snap0
                bad = [k for k in b if k != "mixtures" and k != "mixture_opt" and k != "mean_test_result" and a.get(k) != b[k]]
                if bad:
                    f.append(f"constructing again from the same inputs gives different {bad}")
                continue
            r = op(o, c)
            if o != "again" and o == h[-1]:
                cls2, kw2 = sources(i)
                r2 = op(o, seeded(cls2, kw2))
                if r != r2:
                    f.append(f"{o} after {h[:-1]}: {r[:120]} differs from the answer on a fresh object {r2[:120]}")
                if r != op(o, c):
                    f.append(f"{o} is not repeatable")
        if snapshot(c) != snap0:
            n = snapshot(c)
            f.append(f"attributes changed: {[k for k in snap0 if snap0[k] != n.get(k)] + [k for k in n if k not in snap0]}")
        if norm(kw) != norm(kw0):
            f.append(f"the caller's inputs were modified: {[k for k in kw if norm(kw[k]) != norm(kw0[k])]}")
        return (i, h), f


def spaces(tier):
    return [Hist(tier)]
