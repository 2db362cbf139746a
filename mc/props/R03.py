"""The regression interface: formula and arrays, refusals, printed summary, purity."""
import contextlib
import io
import itertools
import math
import re

import numpy as np
import pandas as pd

from mc.engine import Space
from mc.props import R01, R02
from pycircstat2.regression import CCRegression, CLRegression

TAU = 2 * math.pi


def same(a, b, tol=1e-5):
    """tol: another memory layout may change the rounding of every iteration"""
    if isinstance(a, dict) and isinstance(b, dict) and "error" in a and "error" in b:
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple, str)):
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def numbers(text):
    return [float(v) for v in re.findall(r"(?<![\w.])-?\d+\.\d+(?:e[+-]?\d+)?|(?<![\w.])nan(?!\w)", text)]


def table(text, prefix):
    out = []
    for line in text.splitlines():
        if line.startswith(prefix):
            out.append(numbers(line[len(prefix):]))
    return out


def printed(r):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r.summary()
    return b.getvalue()


def near(a, b, d=5):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 0.51 * 10 ** -d + 1e-9 * abs(b)


def stars(p):
    return "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""


FORMS = ("y ~ a", "y~a", "  y  ~  a ", "y ~ a + b", "y~b+a", "y ~ a+b+c", "y ~ c")


class Inputs(Space):
    name = "ways-in"
    chunk = 4
    max_depth = 0
    bounds = "scripted samples x 7 formulas x 3 linear model types and the circular model (orders 1..3) x input forms (array, list, Series, transposed view, integer columns, column vector): the same fit, inputs unchanged, repeatable"

    def roots(self, tier):
        for j, e in enumerate(itertools.product(range(3), repeat=6)):
            if len(set(e)) == 1 or j % (9 if tier == "quick" else 2):
                continue
            for fo in range(len(FORMS)):
                yield (e, fo)

    def check(self, s):
        e, fo = s
        th, X = R01.data(6, 3, sum(e) % 3, e)
        th = th + TAU * (np.arange(6) % 3 - 1)
        cols = {"a": X[:, 0], "b": X[:, 1], "c": np.array([0, 2, 1, 3, 2, 4]), "y": th}
        df = pd.DataFrame(dict(cols), index=[9, 3, 5, 1, 0, 2])
        used = [c.strip() for c in FORMS[fo].split("~")[1].split("+")]
        Z = np.column_stack([cols[c] for c in used]).astype(float)
        f = []
        before = df.copy(deep=True)
        th0, Z0 = th.copy(), Z.copy()

        def go(tag, ctor):
            try:
                return ctor().result
            except ValueError as ex:
                return {"error": "".join(c for c in str(ex))}
        forms = {"list": (th.tolist(), Z.tolist()), "Series": (df["y"], df[used]), "view": (th[::-1].copy()[::-1], np.asfortranarray(Z)), "column": (th[:, None], Z)}
        if len(used) == 1:
            forms["1-D"] = (th, Z[:, 0])
        if used == ["c"]:
            forms["integers"] = (th, cols["c"])
        for mt in R01.TYPES:
            base = go("arrays", lambda: CLRegression(theta=th, X=Z, model_type=mt))
            alt = {k: go(k, lambda v=v: CLRegression(theta=v[0], X=v[1], model_type=mt)) for k, v in forms.items()}
            alt["again"] = go("again", lambda: CLRegression(theta=th, X=Z, model_type=mt))
            alt["formula"] = go("formula", lambda: CLRegression(formula=FORMS[fo], data=df, model_type=mt))
            for k, v in alt.items():
                if not same(base, v, 0 if k == "again" else 1e-5):
                    f.append(f"{mt}: {k} gives {str(v)[:120]}, arrays {str(base)[:120]}")
        for order in (1, 2, 3):
            base = go("arrays", lambda: CCRegression(theta=th, x=Z, order=order))
            alt = {k: go(k, lambda v=v: CCRegression(theta=v[0], x=v[1], order=order)) for k, v in forms.items() if k != "column"}
            alt["again"] = go("again", lambda: CCRegression(theta=th, x=Z, order=order))
            alt["formula"] = go("formula", lambda: CCRegression(formula=FORMS[fo], data=df, order=order))
            for k, v in alt.items():
                if not same(base, v, 0 if k == "again" else 1e-6):
                    f.append(f"order {order}: {k} gives {str(v)[:120]}, arrays {str(base)[:120]}")
        if not df.equals(before) or not np.array_equal(th, th0) or not np.array_equal(Z, Z0):
            f.append("inputs changed")
        m = None
        try:
            m = CLRegression(formula=FORMS[fo], data=df, model_type="mean")
        except ValueError:
            pass
        if m is not None and list(m.feature_names) != used:
            f.append(f"feature names {m.feature_names}, expected {used}")
        if list(CCRegression(formula=FORMS[fo], data=df).feature_names) != used:
            f.append("feature names of the circular model")
        return (fo, len(f)), f


class Summary(Space):
    name = "summary"
    chunk = 4
    max_depth = 0
    bounds = "scripted samples x 3 linear model types and the circular model (orders 1..3): every number printed by summary() is the reported estimate, error, ratio, p-value, criterion; stars follow the p-value"

    def roots(self, tier):
        for j, (n, dj, e) in enumerate(R01.fams(tier)):
            if j % (7 if tier == "quick" else 3) == 0:
                for mt in range(4):
                    yield (n, dj, e, mt, (j // 37) % 3)

    def check(self, s):
        n, dj, e, mt, sl = s
        f = []
        th, X = R01.data(n, dj, sl, e, wide=bool(sum(e) % 2))
        if mt == 3:
            order = 1 + sl
            r = CCRegression(theta=th, x=X, order=order)
            return self.circ(r, X.shape[1], order)
        mt = R01.TYPES[mt]
        r = R01.run(th, X, mt)
        if r is None:
            return (mt, None), f
        R = r.result
        t = printed(r)
        if printed(r) != t:
            f.append("printing twice differs")
        rows = []
        if mt != "kappa":
            rows += [(f"β{i}", R["beta"][i], R["se_beta"][i], True) for i in range(X.shape[1])]
        if mt != "mean":
            rows += [("α", R["alpha"], R["se_alpha"], False)] + [(f"γ{i}", R["gamma"][i], R["se_gamma"][i], False) for i in range(X.shape[1])]
        for pre, c, se, ab in rows:
            g = table(t, pre)
            z = float(c) / float(se)
            p = math.erfc(abs(z) / math.sqrt(2))
            if len(g) != 1 or len(g[0]) != 4:
                f.append(f"row {pre}: {g}")
                continue
            g = g[0]
            if not (near(g[0], c) and near(g[1], se) and near(abs(g[2]), abs(z), 2) and near(g[3], p)):
                f.append(f"row {pre}: {g}, expected {c}, {se}, {z}, {p}")
            line = [l for l in t.splitlines() if l.startswith(pre)][0]
            got = re.sub(r"[^*.]*$", "", line.split()[-1]) if not re.search(r"\d$", line.strip()) else ""
            m = re.search(r"\d\s*(\*{1,3}|\.)?\s*$", line)
            got = (m.group(1) or "") if m else "?"
            if min(abs(p - q) for q in (0.001, 0.01, 0.05, 0.1)) > 1e-9 and got != stars(p):
                f.append(f"row {pre}: mark {got!r} at p={p}")
        for pre in ("β", "γ", "α"):
            if len(table(t, pre)) != sum(1 for q in rows if q[0].startswith(pre)):
                f.append(f"{len(table(t, pre))} rows {pre}")
        mu = table(t, "    μ:")
        if len(mu) != 1 or not near(mu[0][0], R["mu"]) or not near(mu[0][1], R["se_mu"]):
            f.append(f"mu printed as {mu}")
        k, sk = np.atleast_1d(R["kappa"]), np.atleast_1d(R["se_kappa"])
        if mt == "mean":
            g = table(t, "    κ:")
            if len(g) != 1 or not near(g[0][0], k[0]) or not near(g[0][1], sk[0]):
                f.append(f"kappa printed as {g}")
        else:
            for i in range(n):
                g = table(t, f"    [{i + 1}]")
                if len(g) != 1 or not near(g[0][0], k[i]) or not near(g[0][1], sk[i]):
                    f.append(f"kappa {i + 1} printed as {g}")
            g = table(t, "    Mean:")
            if len(g) != 1 or not near(g[0][0], k.mean()) or not near(g[0][1], sk.mean()):
                f.append(f"mean kappa printed as {g}")
        q = {"mean": X.shape[1], "kappa": 1 + X.shape[1], "mixed": 1 + 2 * X.shape[1]}[mt]
        for pre, w in (("nLL", -R["log_likelihood"]), ("AIC", -2 * R["log_likelihood"] + 2 * q), ("BIC", -2 * R["log_likelihood"] + q * math.log(n))):
            g = table(t, pre)
            if len(g) != 1 or not near(g[0][0], w):
                f.append(f"{pre} printed as {g}, expected {w}")
        return (mt, len(rows)), f

    def circ(self, r, p, order):
        f = []
        R = r.result
        t = printed(r)
        g = table(t, "Circular Correlation Coefficient (rho):")
        if len(g) != 1 or not near(g[0][0], R["rho"]):
            f.append(f"rho printed as {g}")
        rows = ["(Intercept)"] + [f"cos(x{j + 1},k={k})" for j in range(p) for k in range(1, order + 1)] + [f"sin(x{j + 1},k={k})" for j in range(p) for k in range(1, order + 1)]
        for i, pre in enumerate(rows):
            g = table(t, pre)
            if len(g) != 1 or not near(g[0][0], R["coefficients"]["cos"][i]) or not near(g[0][1], R["coefficients"]["sin"][i]):
                f.append(f"row {pre} printed as {g}")
        g = [l for l in t.splitlines() if l.startswith("p1:")]
        v = re.findall(r"p[12]: (\S+?),? ?(?=p2|$)", g[0]) if g else []
        if len(v) != 2 or not all(near(float(a), b) for a, b in zip(v, R["p_values"])):
            f.append(f"p-values printed as {g}")
        if R["message"] not in t:
            f.append("message not printed")
        return ("cc", order, p), f


BAD = {
    "no data": lambda C, t, x: C(theta=t),
    "nothing": lambda C, t, x: C(),
    "formula only": lambda C, t, x: C(formula="y ~ a"),
    "nan response": lambda C, t, x: C(theta=np.where(np.arange(len(t)) == 2, np.nan, t), **x),
    "inf response": lambda C, t, x: C(theta=np.where(np.arange(len(t)) == 1, np.inf, t), **x),
    "nan predictor": lambda C, t, x: C(theta=t, **{k: np.where(np.arange(len(t)) == 2, np.nan, v) for k, v in x.items()}),
    "inf predictor": lambda C, t, x: C(theta=t, **{k: np.where(np.arange(len(t)) == 0, -np.inf, v) for k, v in x.items()}),
    "short response": lambda C, t, x: C(theta=t[:-1], **x),
    "short predictor": lambda C, t, x: C(theta=t, **{k: v[:-1] for k, v in x.items()}),
    "empty": lambda C, t, x: C(theta=t[:0], **{k: v[:0] for k, v in x.items()}),
    "missing column": lambda C, t, x: C(formula="y ~ zzz", data=pd.DataFrame({"y": t, "a": list(x.values())[0]})),
    "missing response": lambda C, t, x: C(formula="zzz ~ a", data=pd.DataFrame({"y": t, "a": list(x.values())[0]})),
    "nan in frame": lambda C, t, x: C(formula="y ~ a", data=pd.DataFrame({"y": t, "a": np.where(np.arange(len(t)) == 2, np.nan, list(x.values())[0])})),
    "nan response in frame": lambda C, t, x: C(formula="y ~ a", data=pd.DataFrame({"a": list(x.values())[0], "y": np.where(np.arange(len(t)) == 3, np.nan, t)})),
}
CLBAD = {
    "model_type": lambda t, x: CLRegression(theta=t, X=x, model_type="median"),
    "beta0 length": lambda t, x: CLRegression(theta=t, X=x, beta0=np.zeros(3)),
    "gamma0 length": lambda t, x: CLRegression(theta=t, X=x, gamma0=np.zeros(2)),
    "beta0 nan": lambda t, x: CLRegression(theta=t, X=x, beta0=np.array([np.nan])),
    "gamma0 inf": lambda t, x: CLRegression(theta=t, X=x, gamma0=np.array([np.inf])),
    "3-D X": lambda t, x: CLRegression(theta=t, X=x[:, None, None]),
    "predict columns": lambda t, x: CLRegression(theta=t, X=x, model_type="mean").predict(np.zeros((2, 2))),
    "predict nan": lambda t, x: CLRegression(theta=t, X=x, model_type="mean").predict(np.array([[np.nan]])),
}
CCBAD = {
    "order 0": lambda t, x: CCRegression(theta=t, x=x, order=0),
    "order -1": lambda t, x: CCRegression(theta=t, x=x, order=-1),
    "level 0": lambda t, x: CCRegression(theta=t, x=x, level=0.0),
    "level 1": lambda t, x: CCRegression(theta=t, x=x, level=1.0),
    "level 2": lambda t, x: CCRegression(theta=t, x=x, level=2.0),
    "scalar": lambda t, x: CCRegression(theta=0.3, x=0.4),
}


class Refuse(Space):
    name = "refusals"
    chunk = 8
    max_depth = 0
    bounds = "n = 4..8 x 14 malformed inputs x every model (4), 8 + 6 specific to one class: refused with ValueError or KeyError (missing column), never a fit"

    def roots(self, tier):
        for n in range(4, 9):
            for k in BAD:
                for c in ("mean", "kappa", "mixed", "cc"):
                    yield (n, k, c)
            for k in CLBAD:
                yield (n, k, "CL")
            for k in CCBAD:
                yield (n, k, "CC")

    def check(self, s):
        n, k, c = s
        t = 0.3 + 0.5 * np.sin(2.0 * np.arange(n)) + 0.2 * np.arange(n)
        x = np.arange(n) * 0.4 - 0.5
        try:
            if c == "CL":
                r = CLBAD[k](t, x)
            elif c == "CC":
                r = CCBAD[k](t, x)
            elif c == "cc":
                r = BAD[k](CCRegression, t, {"x": x})
            else:
                r = BAD[k](lambda **q: CLRegression(model_type=c, **q), t, {"X": x})
        except (ValueError, KeyError) as ex:
            if isinstance(ex, KeyError) != k.startswith("missing"):
                return (k, c), [f"{k}: {type(ex).__name__} {ex}"]
            return (k, c), []
        return (k, c), [f"{k}: accepted, result {str(getattr(r, 'result', r))[:160]}"]


def spaces(tier):
    return [Inputs(), Summary(), Refuse()]
