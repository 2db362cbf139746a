"""Densities: documented formula, non-negative, periodic, normalised; log-density."""
import math

import numpy as np

from mc import dist as M
from mc.engine import Space, close
from mc.limits import NOTE, Limits as LimitsBase, tol

TAU = 2 * math.pi
NX = 24


def points(mu, n=NX):
    x = np.concatenate([TAU * np.arange(n) / n, [TAU], np.mod(mu + np.array([0.0, 1e-3, -1e-3, 0.05, -0.05, 0.3, -0.3, math.pi - 0.01, math.pi]), TAU)])
    return x


class Pdf(Space):
    name = "densities"
    chunk = 8
    max_depth = 0
    bounds = "14 distributions x parameter lattice (boundaries and branch points included) x 5 locations x 33 angles + full turns; trapezoid integral on 4096 angles"

    def __init__(self, tier):
        self.N = 2048 if tier == "quick" else 8192

    def roots(self, tier):
        yield from M.states(tier)
        for par in M.NEAR_ONE:
            yield ("wrapstable", 5.5, par)

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        d = D.obj
        a = D.args(mu, par)
        x = points(mu)
        want = D.pdf(x, mu, par)
        got = np.asarray(d.pdf(x, *a), dtype=float)
        f = []
        if name == "cartwright":        # near the antipode the density turns on the rounding of x - mu: anything up to its value 1e-7 away
            near = np.abs(np.abs(np.angle(np.exp(1j * (x - mu)))) - math.pi) < 1e-7
            top = D.pdf(mu + math.pi - 1e-7, mu, par)
            want = np.where(near & (got >= 0) & (got <= top), got, want)
        sc = max(1.0, want.max())
        if got.shape != x.shape or not np.all(np.isfinite(got)):
            return "bad", [f"pdf is {got[:5]}..."]
        eps = 1e-11 if name == "wrapstable" else 0.0      # truncated Fourier series (documented tolerance 1e-12)
        if np.any(got < -eps):
            f.append(f"negative density {got.min()}")
        tol = 1e-7 if name != "wrapstable" else 1e-6
        j = int(np.argmax(np.abs(got - want) - tol * want))
        if abs(got[j] - want[j]) > tol * want[j] + 1e-9 * sc:
            f.append(f"pdf({x[j]:.6g})={got[j]:.10g} expected {want[j]:.10g}")
        for t in (1, -1, 3):
            g = np.asarray(d.pdf(x + TAU * t, *a), dtype=float)
            j = int(np.argmax(np.abs(g - got)))
            if abs(g[j] - got[j]) > 1e-9 * sc * max(1, sc):
                f.append(f"pdf not periodic: pdf({x[j]:.6g}+{t} turns)={g[j]} vs {got[j]}")
        lp = np.asarray(d.logpdf(x, *a), dtype=float)
        with np.errstate(divide="ignore"):
            lw = np.log(want)
        ok = (want > (1e-4 if name == "wrapstable" else 1e-200)) & (got > 0)
        lw = np.where(ok, np.log(np.where(ok, got, 1.0)), lw)
        if not np.all(np.abs(lp - lw)[ok] < 1e-6 * (1 + np.abs(lw[ok]))):
            j = int(np.argmax(np.where(ok, np.abs(lp - lw), 0)))
            f.append(f"logpdf({x[j]:.6g})={lp[j]} expected {lw[j]}")
        for k in (0, 5, 24, 27):
            v = float(d.pdf(float(x[k]), *a))
            if abs(v - got[k]) > 1e-12 * sc:
                f.append(f"pdf of a scalar {v} differs from the array value {got[k]}")
        # normalisation of the implementation itself
        if name != "inverse_batschelet" or mu == 0.7:
            N = {"inverse_batschelet": 128, "wrapstable": 512}.get(name, self.N)
            g = (np.arange(N) + 0.5) / N * TAU
            I = float(np.sum(np.asarray(d.pdf(g, *a), dtype=float)) * TAU / N)
            R = float(np.sum(D.pdf(g, mu, par)) * TAU / N)
            if abs(I - R) > 1e-6 or (N > 500 and D.width(par) > 40 / N and abs(I - 1) > 1e-3):
                f.append(f"density integrates to {I}")
        return (name, round(float(got.max()), 6)), f


class Limits(LimitsBase):
    bounds = NOTE + ": density and log density against the documented formula at 41 angles"

    def check(self, s):
        name, mu, par = s
        D = M.BY[name]
        a = D.args(mu, par)
        x = np.append(np.linspace(0, 2 * math.pi, 40), mu)
        want = D.pdf(x, mu, par)
        got = np.asarray(D.obj.pdf(x, *a), dtype=float)
        f = []
        e = np.abs(got - want)
        j = int(np.argmax(e))
        if not e[j] <= tol(name, "pdf") * (1 + want[j]):
            f.append(f"pdf({x[j]:.6g})={got[j]:.12g} expected {want[j]:.12g}")
        lp = np.asarray(D.obj.logpdf(x, *a), dtype=float)
        ok = got > 1e-12
        if not np.all(np.abs(lp[ok] - np.log(got[ok])) < 1e-9 + 1e-13 / got[ok]):
            f.append("logpdf is not the logarithm of pdf")
        return (name, par), f


def spaces(tier):
    return [Pdf(tier), Limits()]
