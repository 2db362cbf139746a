"""Kato-Jones: the two parametrisations, the feasible region, the method of moments."""
import cmath
import itertools
import math

import numpy as np

from mc import dist as M
from mc.engine import Space

TAU = 2 * math.pi
D = M.BY["katojones"]
T = np.linspace(0, TAU, 7201)


def raises(fn, *a, **k):
    try:
        return False, fn(*a, **k)
    except ValueError:
        return True, None


class Region(Space):
    name = "region"
    chunk = 20
    max_depth = 0
    bounds = "gamma x rho x lambda on a lattice of 13 x 13 x 24 (thorough: 25 x 25 x 48) points: a point is accepted exactly when the documented density is nowhere negative; both conversions, their round trip and the second moment"

    def roots(self, tier):
        n, m = (13, 24) if tier == "quick" else (25, 48)
        for i in range(n):
            for j in range(n):
                for l in range(m):
                    yield (i / n + 0.003, j / n + 0.0017, TAU * l / m)

    def check(self, s):
        g, r, lam = s
        d = D.obj
        f = []
        with np.errstate(all="ignore"):
            low = float(M.d_katojones(T, g, r, lam).min())
        # signed distance to the edge of the feasible region
        edge = (1 - g) - math.hypot(r * math.cos(lam) - g, r * math.sin(lam))
        bad, ab = raises(d.convert_rho_lambda, g, r, lam)
        ok = bool(np.isfinite(d.pdf(0.4, 0.0, g, r, lam)))
        if abs(edge) > 1e-4:
            feasible = low > -1e-12
            if feasible != (edge > 0) and abs(low) > 1e-7:
                f.append(f"reference: density minimum {low}, edge distance {edge}")
            if ok != feasible:
                f.append(f"density minimum {low}: pdf {'accepts' if ok else 'rejects'} the parameters")
            if bad == feasible:
                f.append(f"density minimum {low}: convert_rho_lambda {'rejects' if bad else 'accepts'} the parameters")
        a2, b2 = g * r * math.cos(lam), g * r * math.sin(lam)
        raw = d.convert_rho_lambda(g, r, lam, verify=False)
        for got in [raw] + ([] if bad else [ab]):
            if abs(complex(*got) - complex(a2, b2)) > 1e-12:
                f.append(f"convert_rho_lambda {got} expected {(a2, b2)}")
        back = d.convert_alpha2_beta2(g, a2, b2, verify=False)
        if abs(cmath.rect(*back) - cmath.rect(r, lam)) > 1e-9:
            f.append(f"convert_alpha2_beta2 {back} expected {(r, lam)}")
        if not 0 <= back[1] < TAU:
            f.append(f"convert_alpha2_beta2: lambda={back[1]}")
        bad2, back2 = raises(d.convert_alpha2_beta2, g, a2, b2)
        if abs(edge) > 1e-4 and bad2 != (edge < 0) and g * abs(edge) > 1e-5:
            f.append(f"edge distance {edge}: convert_alpha2_beta2 {'rejects' if bad2 else 'accepts'} the moments")
        if not bad2 and tuple(back2) != tuple(back):
            f.append(f"convert_alpha2_beta2 with verification {back2}, without {back}")
        if ok and edge > 1e-4:
            m1, m2 = complex(d.trig_moment(1, 0.0, g, r, lam)), complex(d.trig_moment(2, 0.0, g, r, lam))
            if abs(m1 - g) > 1e-9 or abs(m2 - complex(a2, b2)) > 1e-9:
                f.append(f"moments {m1}, {m2} expected {g}, {complex(a2, b2)}")
            with np.errstate(all="ignore"):
                p = M.d_katojones(T[:-1], g, r, lam)
            q2 = complex((p * np.exp(2j * T[:-1])).mean() * TAU)
            if r < 0.98 and abs(q2 - complex(a2, b2)) > 1e-9:
                f.append(f"second moment by quadrature {q2}, of the conversion {complex(a2, b2)}")
        return (ok, bad, bad2), f


class MomentFit(Space):
    name = "moment_fit"
    chunk = 40
    max_depth = 0
    bounds = "all samples of size <= 4 (thorough: 5) on a 12-point circle, with and without weights: the estimate has the mean direction and resultant of the sample and the feasible second moment nearest to that of the sample"

    def __init__(self, tier):
        self.tier = tier

    def roots(self, tier):
        for n in range(2, 5 if tier == "quick" else 6):
            for c in itertools.combinations_with_replacement(range(12), n):
                if c[0] != 0 and n > 3:
                    continue
                for w in (0, 1):
                    yield (c, w)

    def check(self, s):
        c, w = s
        x = np.array([TAU * v / 12 + 0.11 for v in c])
        wt = np.array([1.0, 2.0, 0.5, 3.0, 1.5][:len(c)]) if w else None
        W = np.ones(len(c)) if wt is None else wt
        z1 = complex((W * np.exp(1j * x)).sum() / W.sum())
        z2 = complex((W * np.exp(2j * x)).sum() / W.sum())
        g = abs(z1)
        if g < 1e-9:
            return "no direction", []
        kw = {} if wt is None else {"weights": wt}
        est, info = D.fresh().fit(x, method="moments", return_info=True, **kw)
        mu, gh, rh, lh = (float(v) for v in est)
        f = []
        if abs(cmath.exp(1j * mu) - z1 / g) > 1e-9 or abs(gh - g) > 2e-9:
            f.append(f"mu, gamma = {mu}, {gh} expected {cmath.phase(z1) % TAU}, {g}")
        if not np.all(np.isfinite(D.obj.pdf(x, mu, gh, rh, lh))):
            f.append(f"estimates {est} are not admissible")
        v = z2 * (g / z1) ** 2                  # about the mean direction
        c0, rad = g * g, g * (1 - g)
        t = v if abs(v - c0) <= rad else c0 + (v - c0) * rad / abs(v - c0)
        got = cmath.rect(gh * rh, lh)
        if abs(got - t) > 1e-8:
            f.append(f"second moment {got}, nearest feasible to the sample's {t}")
        return (abs(v - c0) <= rad, round(g, 2)), f


def spaces(tier):
    return [Region(), MomentFit(tier)]
