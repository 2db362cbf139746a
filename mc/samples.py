"""Finite families of circular samples.

Sequence state  ("S", m, o, ks, ts): angle_i = 2*pi*ks[i]/m + OFF[o] + 2*pi*ts[i]
Pattern state   ("P", kind, n, conc, mu, o): a deterministic sample of size n
"""
import itertools
import math
from functools import lru_cache

import numpy as np

TAU = 2 * math.pi
OFF = (0.0, 0.137, 1e-7)


def seq_angles(s):
    _, m, o, ks, ts = s
    return np.array([TAU * k / m + OFF[o] + TAU * t for k, t in zip(ks, ts)], dtype=float)


def seqs(m, nmax, nmin=1, offs=(0,), canonical=False):
    """all (sorted if canonical) sequences of lattice points"""
    gen = itertools.combinations_with_replacement if canonical else (lambda r, n: itertools.product(r, repeat=n))
    for o in offs:
        for n in range(nmin, nmax + 1):
            for ks in gen(range(m), n):
                yield ("S", m, o, tuple(ks), (0,) * n)


CONC = (0.0, 0.3, 1.0, 4.0, 30.0, 400.0)
KINDS = ("vm", "bi", "skew", "ties", "tri")
NMU = 12


@lru_cache(maxsize=None)
def _vmq(n, kappa):
    """n symmetric quantiles of a von Mises(0, kappa) on (-pi, pi)"""
    if kappa == 0:
        return tuple((i + 0.5) / n * TAU - math.pi for i in range(n))
    g = np.linspace(-math.pi, math.pi, 4001)
    d = np.exp(kappa * (np.cos(g) - 1))
    c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
    c /= c[-1]
    return tuple(float(v) for v in np.interp((np.arange(n) + 0.5) / n, c, g))


def pat_angles(s):
    _, kind, n, ci, mu, o = s
    kap = CONC[ci]
    q = list(_vmq(n, kap))
    if kind == "vm":
        # break exact mirror symmetry a little, deterministically
        q = [x + 0.01 * math.sin(3.0 * i * i) for i, x in enumerate(q)]
    elif kind == "bi":
        q = [(x / 2 + 0.02 * math.cos(5.0 * i * i) + (0 if i % 3 else math.pi * 0.8)) for i, x in enumerate(q)]
    elif kind == "skew":
        q = [x + 0.6 * (1 + math.cos(x)) + 0.003 * math.sin(7.0 * i * i) for i, x in enumerate(q)]
    elif kind == "ties":
        q = [round(x * 12 / TAU) * TAU / 12 for x in q]
    elif kind == "tri":
        q = [x / 4 + TAU / 3 * (i % 3) * 0.97 + 0.004 * math.sin(11.0 * i * i) for i, x in enumerate(q)]
    a = np.array(q) + TAU * mu / NMU + OFF[o]
    a = np.mod(a, TAU)
    # deterministic interleaving so that the data are not sorted
    idx = [(i * 7) % n for i in range(n)] if n % 7 else list(range(n))[::-1]
    return a[idx]


def pats(ns, kinds=KINDS, concs=range(len(CONC)), mus=(0,), offs=(1,)):
    for n in ns:
        for k in kinds:
            for c in concs:
                for mu in mus:
                    for o in offs:
                        yield ("P", k, n, c, mu, o)


def angles(s):
    return seq_angles(s) if s[0] == "S" else pat_angles(s)


# generators of the symmetry group acting on sequences -----------------------

def g_append(s):
    _, m, o, ks, ts = s
    for k in range(m):
        yield ("append", k), ("S", m, o, ks + (k,), ts + (0,))


def g_rot(s):
    _, m, o, ks, ts = s
    yield ("rot",), ("S", m, o, tuple((k + 1) % m for k in ks), ts)


def g_perm(s):
    _, m, o, ks, ts = s
    if len(ks) >= 2:
        yield ("swap",), ("S", m, o, (ks[1], ks[0]) + ks[2:], (ts[1], ts[0]) + ts[2:])
        if len(ks) >= 3:
            yield ("cyc",), ("S", m, o, ks[1:] + ks[:1], ts[1:] + ts[:1])


def g_refl(s):
    _, m, o, ks, ts = s
    if o == 0:
        yield ("refl",), ("S", m, o, tuple((-k) % m for k in ks), ts)


def g_turn(s):
    """+/- one full turn on the first element (others by g_perm)"""
    _, m, o, ks, ts = s
    if ts and not any(ts):
        for d in (1, -1, -3):
            yield ("turn", d), ("S", m, o, ks, (d,) + ts[1:])
        if len(ts) > 1:
            yield ("turnlast", 1), ("S", m, o, ks, ts[:-1] + (1,))
