"""Independent reference definitions (plain Python, fsum) used as the model."""
import math
import cmath

TAU = 2 * math.pi


def wrap(x):
    y = math.fmod(x, TAU)
    if y < 0:
        y += TAU
    return 0.0 if y >= TAU else y


def adiff(a, b):
    """signed difference in [-pi, pi]"""
    return math.remainder(a - b, TAU)


def arc(a, b):
    return abs(math.remainder(a - b, TAU))


def CS(al, w=None, p=1, mean=0.0):
    if w is None:
        w = [1.0] * len(al)
    W = math.fsum(w)
    C = math.fsum(wi * math.cos(p * (a - mean)) for a, wi in zip(al, w)) / W
    S = math.fsum(wi * math.sin(p * (a - mean)) for a, wi in zip(al, w)) / W
    return C, S


def mean_r(al, w=None):
    C, S = CS(al, w)
    r = math.hypot(C, S)
    m = float("nan") if r < 1e-10 else wrap(math.atan2(S, C))
    return m, r


def moment(al, w=None, p=1, mean=0.0):
    C, S = CS(al, w, p, mean)
    return complex(C, S)


def dispersion(al, w=None):
    r1 = abs(moment(al, w, 1))
    r2 = abs(moment(al, w, 2))
    return (1 - r2) / (2 * r1 * r1)


def skew_kurt(al, w=None):
    """Fisher (1993) eq. 2.29 / 2.30"""
    m1 = moment(al, w, 1)
    m2 = moment(al, w, 2)
    r1 = abs(m1)
    d = m2 * cmath.exp(-2j * cmath.phase(m1))
    return d.imag / (1 - r1) ** 1.5, (d.real - r1 ** 4) / (1 - r1) ** 2


def mean_dev(al, b):
    return math.fsum(arc(a, b) for a in al) / len(al)


def kappa_ml(r):
    """Fisher (1993) eq. 4.40 piecewise approximation"""
    if r < 0.53:
        return 2 * r + r ** 3 + 5 * r ** 5 / 6
    if r < 0.85:
        return -0.4 + 1.39 * r + 0.43 / (1 - r)
    return 1 / (r ** 3 - 4 * r ** 2 + 3 * r)


def within(v, lb, ub, tol=0.0):
    """v lies on the counter-clockwise arc lb -> ub (mod 2 pi)"""
    span = wrap(ub - lb)
    d = (v - lb) % TAU
    return d <= span + tol or d >= TAU - tol


def lin_quantile(xs, p):
    xs = sorted(xs)
    hh = (len(xs) - 1) * p
    i = int(math.floor(hh + 1e-12))
    i = min(i, len(xs) - 1)
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (hh - i) * (xs[j] - xs[i])
