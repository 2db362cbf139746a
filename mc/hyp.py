"""Adapters around the hypothesis tests: name -> callable returning plain numbers, plus guards."""
import math
import warnings

import numpy as np

from mc import oracle as O

import pycircstat2.hypothesis as H
from pycircstat2 import Circular

NSIM = 19


def f_(*xs):
    return tuple(float(x) for x in xs)


# one-sample tests; `a` angles, `t` the reference direction (rotates with the data)
def one_sample(a, t, lb=None, ub=None):
    r = H.one_sample_test(angle=t, lb=lb, ub=ub)
    return (float(r.reject),)


ONE = {
    "rayleigh_test": lambda a, t: (lambda r: f_(r.r, r.z, r.pval))(H.rayleigh_test(alpha=a)),
    "V_test": lambda a, t: (lambda r: f_(r.V, r.u, r.pval))(H.V_test(angle=t, alpha=a)),
    "omnibus_test": lambda a, t: (lambda r: f_(r.A, r.pval, r.m))(H.omnibus_test(alpha=a)),
    "batschelet_test": lambda a, t: (lambda r: f_(r.C, r.pval))(H.batschelet_test(angle=t, alpha=a)),
    "symmetry_test": lambda a, t: (lambda r: f_(r.statistic, r.pval))(H.symmetry_test(alpha=a, median=t)),
    "kuiper_test": lambda a, t: (lambda r: f_(r.V, r.pval))(H.kuiper_test(alpha=a, n_simulation=1)),
    "kuiper_test/sim": lambda a, t: (lambda r: f_(r.V, r.pval))(H.kuiper_test(alpha=a, n_simulation=NSIM, seed=5)),
    "watson_test": lambda a, t: (lambda r: f_(r.U2, r.pval))(H.watson_test(alpha=a, n_simulation=1)),
    "watson_test/sim": lambda a, t: (lambda r: f_(r.U2, r.pval))(H.watson_test(alpha=a, n_simulation=NSIM, seed=5)),
    "rao_spacing_test": lambda a, t: (lambda r: f_(r.statistic, r.pval))(H.rao_spacing_test(alpha=a, n_simulation=NSIM, seed=5)),
    "circ_range_test": lambda a, t: (lambda r: f_(r.range_stat, r.pval))(H.circ_range_test(alpha=a)),
    "binomial_test": lambda a, t: (lambda r: f_(r.pval, r.n_eff, r.n1, r.n2))(H.binomial_test(alpha=a, md=t)),
    "change_point_test": lambda a, t: (lambda r: f_(r.rho, r.rmax, r.k_r, r.rave, r.tmax, r.k_t, r.tave))(H.change_point_test(a)),
}

# multi-sample tests; `ss` list of arrays, `t` a reference direction
MULTI = {
    "watson_williams_test": lambda ss, t: (lambda r: f_(r.F, r.pval, r.df_between, r.df_within, r.k, r.N))(H.watson_williams_test(ss)),
    "watson_u2_test": lambda ss, t: (lambda r: f_(r.U2, r.pval))(H.watson_u2_test(ss)),
    "wheeler_watson_test": lambda ss, t: (lambda r: f_(r.W, r.pval, r.df))(H.wheeler_watson_test(ss)),
    "wallraff_test": lambda ss, t: (lambda r: f_(r.U, r.pval))(H.wallraff_test(ss, angle=t)),
    "circ_anova/F": lambda ss, t: (lambda r: f_(r.statistic, r.pval, r.kappa, r.R_all, *r.df))(H.circ_anova(ss, method="F-test")),
    "circ_anova/F-": lambda ss, t: (lambda r: f_(r.statistic, r.pval, r.kappa, r.R_all, *r.SS, *r.MS))(H.circ_anova(ss, method="F-test", f_mod=False)),
    "circ_anova/LRT": lambda ss, t: (lambda r: f_(r.statistic, r.pval, r.kappa, r.R_all, r.df))(H.circ_anova(ss, method="LRT")),
    "angular_randomisation_test": lambda ss, t: (lambda r: f_(r.statistic))(H.angular_randomisation_test(ss, n_simulation=2, seed=1)),
    "concentration_test": lambda ss, t: (lambda r: f_(r.f_stat, r.pval, r.df1, r.df2))(H.concentration_test(*ss)),
    "rao_homogeneity_test/disp": lambda ss, t: (lambda r: f_(r.H_disp, r.pval_disp, r.reject_disp))(H.rao_homogeneity_test(ss)),
    "rao_homogeneity_test/polar": lambda ss, t: (lambda r: f_(r.H_polar, r.pval_polar, r.reject_polar))(H.rao_homogeneity_test(ss)),
    "equal_kappa_test": lambda ss, t: (lambda r: f_(r.statistic, r.pval, r.kappa_all, r.rho_all, r.df) + (r.regime,))(H.equal_kappa_test(ss)),
    "common_median_test": lambda ss, t: (lambda r: f_(r.statistic, r.pval, r.reject))(H.common_median_test(ss)),
}
TWO_ONLY = {"watson_u2_test", "wallraff_test", "angular_randomisation_test", "concentration_test"}


def call(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn(*a, **k)
        except ValueError as e:
            return ("ValueError", str(e)[:60])


# ------------------------------------------------------------------ guards

def side_margin(a, t):
    """smallest distance of any point to t or to its antipode"""
    return min(min(O.arc(float(x), t), abs(O.arc(float(x), t) - math.pi)) for x in a)


def right_margin(a, t):
    return min(abs(O.arc(float(x), t) - math.pi / 2) for x in a)


def halfcircle_min(a):
    """exact Hodges-Ajne count and the width of the widest window of diameters attaining it"""
    br = sorted([O.wrap(float(x)) for x in a] + [O.wrap(float(x) + math.pi) for x in a])
    best, width = None, 0.0
    k = len(br)
    for i in range(k):
        lo, hi = br[i], br[(i + 1) % k] + (O.TAU if i == k - 1 else 0)
        if hi - lo < 1e-9:
            continue
        th = (lo + hi) / 2
        inside = sum(1 for x in a if 0 < (th - float(x)) % O.TAU < math.pi)
        m = len(a) - inside
        if best is None or m < best:
            best, width = m, hi - lo
        elif m == best:
            width = max(width, hi - lo)
    return best, width


def tie_gap(vals):
    v = sorted(float(x) for x in vals)
    return min((b - a for a, b in zip(v, v[1:])), default=math.inf)


def circ_gap(vals):
    v = sorted(O.wrap(float(x)) for x in vals)
    if len(v) < 2:
        return math.inf
    return min(min(b - a for a, b in zip(v, v[1:])), v[0] + O.TAU - v[-1])
