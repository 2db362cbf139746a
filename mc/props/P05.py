"""Array-valued arguments: elementwise or refused, never silently truncated; argument forms are interchangeable."""
import itertools
import math

import numpy as np

from mc import dist as M
from mc.engine import Space

TAU = 2 * math.pi
FUNCS = ("pdf", "logpdf", "cdf", "sf", "logcdf", "logsf", "ppf", "isf")
XS = (0.3, 1.7, 4.4)
QS = (0.2, 0.5, 0.9)

# two further parameter vectors per family: arrays mix the first and the second
ALT = {
    "triangular": ((0.05,), (0.3,)), "cardioid": ((0.1,), (0.4,)), "cartwright": ((0.5,), (2.0,)), "wrapnorm": ((0.2,), (0.8,)),
    "wrapcauchy": ((0.3,), (0.7,)), "vonmises": ((0.5,), (5.0,)), "vonmises_flattopped": ((1.0, 0.4), (2.0, -0.5)),
    "jonespewsey": ((0.5, 1.0), (2.0, -0.5)), "jonespewsey_sineskewed": ((0.5, 1.0, 0.4), (2.0, -0.5, -0.3)),
    "jonespewsey_asym": ((0.5, 1.0, 0.3), (2.0, -0.5, 0.7)), "inverse_batschelet": ((0.5, 0.2, 0.4), (2.0, -0.3, -0.5)),
    "wrapstable": ((1.5, 0.3, 0.5), (0.9, -0.4, 1.0)), "katojones": ((0.3, 0.3, 0.1), (0.2, 0.4, 3.0)), "circularuniform": ((), ()),
}


def call(d, fn, x, args):
    try:
        return np.asarray(getattr(d, fn)(x, *args), dtype=float), None
    except (ValueError, NotImplementedError) as e:
        return None, e


class Broadcast(Space):
    name = "arrays"
    chunk = 4
    max_depth = 0
    bounds = "14 distributions x 8 functions x every subset of parameters made array-valued (constant or varying) x shape of the argument"

    def roots(self, tier):
        for d in M.DISTS:
            n = len(d.shapes)
            for fn in FUNCS:
                for mask in range(2 ** n):
                    for form in ("scalar", "column", "same", "vary", "one", "int"):
                        if mask == 0 and form in ("same", "one", "vary", "int"):
                            continue
                        yield (d.name, fn, mask, form)

    def check(self, s):
        name, fn, mask, form = s
        D = M.BY[name]
        d = D.obj
        base = D.args(0.7, ALT[name][0])
        alt = D.args(4.0, ALT[name][1])
        pts = np.array(QS if fn in ("ppf", "isf") else XS)
        n = len(base)
        f = []

        def scalar(x, a):
            return float(getattr(d, fn)(float(x), *[float(v) for v in a]))

        if form in ("scalar", "column"):
            if mask:          # only the argument shape varies: use the mask to pick its shape
                if mask > 3:
                    return "skip", []
            shapes = [(), (3,), (1,), (0,)] if form == "scalar" else [(3, 1), (1, 3), (2, 3), (1, 1)]
            shp = shapes[mask] if mask < 4 else None
            size = int(np.prod(shp))
            x = np.resize(pts, size).reshape(shp)
            got, e = call(d, fn, x if shp else float(pts[0]), base)
            if e is not None:
                return "err", [f"{fn} of an argument of shape {shp} raised {e!r}"]
            if got.shape != shp:
                return "shape", [f"{fn} of an argument of shape {shp} has shape {got.shape}"]
            want = np.array([scalar(v, base) for v in x.ravel()]).reshape(shp)
            if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                f.append(f"{fn} of an argument of shape {shp}: {got.tolist()} but {want.tolist()} elementwise")
            lst, e = call(d, fn, x.tolist(), base)
            if e is not None or not np.array_equal(lst, got):
                f.append(f"{fn} of nested lists differs from the array: {e!r}")
            return ("shape", shp), f
        pick = [bool(mask >> i & 1) for i in range(n)]
        if form == "same":
            args = [np.full(3, v) if p else v for v, p in zip(base, pick)]
            rows = [base] * 3
        elif form == "one":
            args = [np.array([v]) if p else v for v, p in zip(base, pick)]
            rows = [base] * 3
        elif form == "int":
            args = [np.float32(v) if p else v for v, p in zip(base, pick)]
            rows = [tuple(float(v) for v in args)] * 3
        else:
            args = [np.array([v, w, v]) if p else v for v, w, p in zip(base, alt, pick)]
            rows = [tuple(float(a[i]) if isinstance(a, np.ndarray) else a for a in args) for i in range(3)]
            if name == "katojones":
                try:
                    for r in rows:
                        if not d._argcheck(*r):
                            return "invalid", []
                except Exception:
                    return "invalid", []
        want = np.array([scalar(x, r) for x, r in zip(pts, rows)])
        got, e = call(d, fn, pts, args)
        if e is not None:
            return "refused", ([] if form == "vary" else [f"{fn} with constant array parameters raised {e!r}"])
        if got.shape != (3,):
            return "shape", [f"{fn}: result has shape {got.shape}"]
        if not np.allclose(got, want, rtol=1e-6, atol=1e-8, equal_nan=True):
            f.append(f"{fn}({pts.tolist()}, {[np.asarray(a).tolist() for a in args]}) = {got.tolist()}, elementwise {want.tolist()}")
        if form == "vary" and not f:
            got, e = call(d, fn, float(pts[0]), args)
            if e is None:
                want = np.array([scalar(pts[0], r) for r in rows])
                if got.shape != (3,) or not np.allclose(got, want, rtol=1e-6, atol=1e-8, equal_nan=True):
                    f.append(f"{fn}({pts[0]}, arrays) = {got.tolist()}, elementwise {want.tolist()}")
        return (form, fn, round(float(got[0]), 4)), f


class Keywords(Space):
    name = "keywords"
    chunk = 4
    max_depth = 0
    bounds = "14 distributions x 8 functions x every split of the parameters into positional and keyword arguments, every keyword order"

    def roots(self, tier):
        for d in M.DISTS:
            for fn in FUNCS + ("fixed",):
                n = len(d.shapes)
                for k in range(n + 1):
                    for perm in itertools.permutations(range(k, n)):
                        yield (d.name, fn, k, perm)

    def check(self, s):
        name, fn, k, perm = s
        D = M.BY[name]
        d = D.obj
        base = D.args(0.7, ALT[name][0])
        kw = {D.shapes[i]: base[i] for i in perm}
        if fn == "fixed":
            try:
                fz = d(*base[:k], **kw)
            except Exception as e:
                return "exc", [f"freezing with {base[:k]} and {kw} raised {e!r}"]
            f = []
            for g, p in (("pdf", XS), ("cdf", XS), ("ppf", QS)):
                a = np.asarray(getattr(fz, g)(np.array(p)))
                b = np.asarray(getattr(d, g)(np.array(p), *base))
                if not np.allclose(a, b, rtol=1e-12, atol=1e-12):
                    f.append(f"frozen {g} with {base[:k]}, {kw}: {a.tolist()} != {b.tolist()}")
            return ("fixed", k), f
        x = np.array(QS if fn in ("ppf", "isf") else XS)
        want = np.asarray(getattr(d, fn)(x, *base))
        got = np.asarray(getattr(d, fn)(x, *base[:k], **kw))
        if not np.array_equal(got, want):
            return "kw", [f"{fn}(x, *{base[:k]}, **{kw}) = {got.tolist()}, positional {want.tolist()}"]
        return (fn, k), []


def spaces(tier):
    return [Broadcast(), Keywords()]
