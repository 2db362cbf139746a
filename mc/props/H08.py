"""Calling a test is free of side effects: printing, repetition and order of calls change nothing."""
import contextlib
import dataclasses
import io
import itertools
import warnings

import numpy as np
import pandas as pd

from mc.engine import Space, close

import pycircstat2.hypothesis as H
from pycircstat2 import Circular

TAU = 6.283185307179586


def data(kind):
    a = np.array([0.3, 0.9, 1.4, 2.2, 0.7, 1.1, 0.2, 1.9, 3.0, 5.9])
    b = np.array([1.3, 1.9, 2.4, 2.2, 1.75, 2.1, 2.6, 3.9, 0.4])
    c = np.array([0.5, 0.25, 6.1, 5.8, 0.75, 1.25, 1.0])
    if kind == "float":
        d = dict(a=a, b=b, c=c)
    elif kind == "readonly":
        d = dict(a=a.copy(), b=b.copy(), c=c.copy())
        for v in d.values():
            v.flags.writeable = False
    elif kind == "list":
        d = dict(a=a.tolist(), b=b.tolist(), c=c.tolist())
    elif kind == "strided":
        d = {k: np.repeat(v, 2)[::2] for k, v in dict(a=a, b=b, c=c).items()}
    elif kind == "reversed-view":
        d = {k: v[::-1].copy()[::-1] for k, v in dict(a=a, b=b, c=c).items()}
    elif kind == "series":
        d = dict(a=pd.Series(a), b=pd.Series(b), c=pd.Series(c))
    d["w"] = np.array([3, 1, 0, 2, 4, 6, 2, 1, 1, 3])
    d["wa"] = np.arange(10) * TAU / 10
    d["two"] = [d["a"], d["b"]]
    d["three"] = [d["a"], d["b"], d["c"]]
    d["fa"] = np.array([1, 1, 2, 2, 1, 2, 1, 2, 2, 1])
    d["fb"] = np.array([1, 2, 1, 2, 2, 1, 1, 2, 1, 2])
    d["fn"] = ["P", "Q"]
    return d


T = {
    "rayleigh_test": lambda d, v: H.rayleigh_test(alpha=d["a"], B=19, verbose=v),
    "rayleigh_test/w": lambda d, v: H.rayleigh_test(alpha=d["wa"], w=d["w"], verbose=v),
    "chisquare_test": lambda d, v: H.chisquare_test(d["w"], verbose=v),
    "V_test": lambda d, v: H.V_test(0.7, alpha=d["a"], verbose=v),
    "one_sample_test": lambda d, v: H.one_sample_test(0.7, alpha=d["a"], verbose=v),
    "one_sample_test/reject": lambda d, v: H.one_sample_test(3.7, alpha=d["a"], verbose=v),
    "omnibus_test": lambda d, v: H.omnibus_test(d["a"], verbose=v),
    "batschelet_test": lambda d, v: H.batschelet_test(0.7, d["a"], verbose=v),
    "symmetry_test": lambda d, v: H.symmetry_test(d["a"], verbose=v),
    "watson_williams_test": lambda d, v: H.watson_williams_test(d["three"], verbose=v),
    "watson_u2_test": lambda d, v: H.watson_u2_test(d["two"], verbose=v),
    "wheeler_watson_test": lambda d, v: H.wheeler_watson_test(d["three"], verbose=v),
    "wallraff_test": lambda d, v: H.wallraff_test(d["two"], verbose=v),
    "circ_anova/F": lambda d, v: H.circ_anova(d["three"], verbose=v),
    "circ_anova/LRT": lambda d, v: H.circ_anova(d["three"], method="LRT", verbose=v),
    "angular_randomisation_test": lambda d, v: H.angular_randomisation_test(d["two"], n_simulation=19, verbose=v),
    "kuiper_test": lambda d, v: H.kuiper_test(d["a"], n_simulation=19, verbose=v),
    "watson_test": lambda d, v: H.watson_test(d["a"], n_simulation=1, verbose=v),
    "rao_spacing_test": lambda d, v: H.rao_spacing_test(d["a"], n_simulation=19, verbose=v),
    "rao_spacing_test/w": lambda d, v: H.rao_spacing_test(d["wa"], w=d["w"], n_simulation=19, verbose=v),
    "circ_range_test": lambda d, v: H.circ_range_test(d["a"], verbose=v),
    "binomial_test": lambda d, v: H.binomial_test(d["a"], md=0.7, verbose=v),
    "concentration_test": lambda d, v: H.concentration_test(d["a"], d["b"], verbose=v),
    "rao_homogeneity_test": lambda d, v: H.rao_homogeneity_test(d["three"], verbose=v),
    "change_point_test": lambda d, v: H.change_point_test(d["a"], verbose=v),
    "harrison_kanji_test": lambda d, v: H.harrison_kanji_test(d["a"], d["fa"], d["fb"], fn=d["fn"], verbose=v),
    "harrison_kanji_test/-": lambda d, v: H.harrison_kanji_test(d["a"], d["fa"], d["fb"], inter=False, fn=d["fn"], verbose=v),
    "equal_kappa_test": lambda d, v: H.equal_kappa_test(d["three"], verbose=v),
    "common_median_test": lambda d, v: H.common_median_test(d["three"], verbose=v),
}
# containers which a function documents as arrays only
ARRAYS_ONLY = {"circ_anova/F", "circ_anova/LRT", "circ_range_test", "concentration_test", "rao_homogeneity_test", "equal_kappa_test",
               "common_median_test", "change_point_test", "binomial_test"}


def snap(d):
    def one(v):
        if isinstance(v, list):
            return ("L", tuple(one(x) for x in v))
        if isinstance(v, (np.ndarray, pd.Series)):
            return (type(v).__name__, np.asarray(v).tobytes(), str(v.dtype))
        return v
    return {k: one(v) for k, v in d.items()}


def same(x, y):
    if isinstance(x, pd.DataFrame):
        return isinstance(y, pd.DataFrame) and x.equals(y)
    if isinstance(x, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, (str, type(None), bool)):
        return x == y
    return close(x, y, 1e-12, 1e-12)


def vals(r):
    return {f.name: getattr(r, f.name) for f in dataclasses.fields(r)}


def run(op, d, v):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = T[op](d, v)
    return r, buf.getvalue()


_ref = {}


def ref(op):
    if op not in _ref:
        _ref[op] = vals(run(op, data("float"), False)[0])
    return _ref[op]


class Histories(Space):
    name = "call-histories"
    chunk = 16
    max_depth = 0

    def __init__(self, tier):
        self.d = 2 if tier == "thorough" else 1
        self.bounds = f"every sequence of up to {self.d + 1} tests (quiet or verbose) on the same containers, {len(T)} calls, 6 kinds of container"

    def roots(self, tier):
        for kind in ("float", "readonly", "list", "strided", "reversed-view", "series"):
            for op in T:
                if kind in ("list", "series") and op in ARRAYS_ONLY:
                    continue
                for v in (False, True):
                    yield (kind, (), op, v)
        for d in range(1, self.d + 1):
            for hist in itertools.product(T, repeat=d):
                for hv in itertools.product((False, True), repeat=d):
                    if d > 1 and hv[0] != hv[1]:
                        continue
                    for op in T:
                        yield ("float", tuple(zip(hist, hv)), op, sum(hv) % 2 == 0)

    def traces(self, s):
        return len(s[1]) + 1

    def check(self, s):
        kind, hist, op, v = s
        d = data(kind)
        before = snap(d)
        want = ref(op)
        f = []
        for o, hv in hist:
            run(o, d, hv)
        r, out = run(op, d, v)
        if snap(d) != before:
            f.append(f"{op} changed its input")
        got = vals(r)
        if set(got) != set(want) or not all(same(got[k], want[k]) for k in got):
            f.append(f"{op} verbose={v} on {kind} after {hist}: {got} instead of {want}")
        if v and not out.strip():
            f.append(f"{op} printed nothing with verbose=True")
        if not v and out:
            f.append(f"{op} printed with verbose=False")
        # the result object
        for k in got:
            try:
                setattr(r, k, 0)
                f.append(f"result of {op} is mutable ({k})")
            except dataclasses.FrozenInstanceError:
                pass
        ad = r.asdict()
        if set(ad) != set(got) or not all(same(ad[k], got[k]) or isinstance(got[k], pd.DataFrame) for k in got):
            f.append(f"asdict() of {op}: {ad}")
        for k in ("pval", "pval_polar", "pval_disp", "bootstrap_pval"):
            if k in got and got[k] is not None:
                p = float(got[k])
                st = "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""
                if r.significance(k) != st:
                    f.append(f"{op}.significance({k!r})={r.significance(k)!r} for p={p}")
        if r.significance("no_such_field") is not None or ("pval" not in got and r.significance() is not None):
            f.append("significance() of a missing field is not None")
        return (op, str(got.get("pval", got.get("p_values", ""))), kind), f


class Legacy(Space):
    name = "positional-verbose"
    max_depth = 0
    bounds = "the deprecated positional verbose of every randomised test, B in {2, 7}"
    L = {"rayleigh_test": lambda a, s, **k: H.rayleigh_test(a, None, None, None, 7, s, **k),
         "kuiper_test": lambda a, s, **k: H.kuiper_test(a, 7, s, **k),
         "watson_test": lambda a, s, **k: H.watson_test(a, 7, s, **k),
         "rao_spacing_test": lambda a, s, **k: H.rao_spacing_test(a, None, 1000.0, 7, s, **k),
         "angular_randomisation_test": lambda a, s, **k: H.angular_randomisation_test([a, a[:4] + 0.2], 7, s, **k)}

    def roots(self, tier):
        for k in self.L:
            yield (k,)

    def check(self, s):
        fn = self.L[s[0]]
        a = data("float")["a"]
        f = []
        buf = io.StringIO()
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(buf):
            warnings.simplefilter("always")
            r = fn(a, True)
        if not any(issubclass(x.category, DeprecationWarning) for x in w):
            f.append("no DeprecationWarning for positional verbose")
        if not buf.getvalue().strip():
            f.append("positional verbose prints nothing")
        if vals(r) != vals(fn(a, 2046)):
            f.append(f"positional verbose changes the result: {r}")
        return s[0], f


def spaces(tier):
    return [Histories(tier), Legacy()]
