"""Random variates: shape, range, determinism of the seed, no leakage into the global generator."""
import itertools
import math

import numpy as np

from mc import dist as M
from mc.engine import Space
from mc.props.P05 import ALT

TAU = 2 * math.pi
SIZES = {"none": None, "0": 0, "1": 1, "3": 3, "np3": np.int64(3), "(3,)": (3,), "(2,2)": (2, 2), "(0,)": (0,), "(2,0)": (2, 0), "[2,3]": [2, 3], "(1,)": (1,), "()": ()}
EDGE = {"triangular": ((0.0,), (4 / math.pi ** 2,)), "cardioid": ((0.0,), (0.5,)), "cartwright": ((0.05,), (50.0,)), "wrapnorm": ((0.01,), (0.99,)),
        "wrapcauchy": ((0.0,), (0.99,)), "vonmises": ((1e-12,), (500.0,)), "vonmises_flattopped": ((0.0, 0.3), (20.0, -1.0), (4.0, 1.0)),
        "jonespewsey": ((0.0, 0.5), (0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (2.0, -1.0)),
        "jonespewsey_sineskewed": ((0.0, 0.5, 0.4), (0.0, 0.0, 0.0), (0.0, 1.0, -1.0), (2.0, 0.0, 1.0), (1.0, -0.5, -1.0), (0.0005, 0.0, 0.5), (2.0, 0.5, 0.0)),
        "jonespewsey_asym": ((0.0, 0.5, 0.4), (0.0, 0.0, 0.0), (2.0, 0.0, 0.0), (2.0, 0.5, 0.99)),
        "inverse_batschelet": ((0.0, 0.5, 0.4), (2.0, 1.0, -1.0), (5.0, -1.0, 0.9), (2.0, 0.0, 0.0)),
        "wrapstable": ((1.0, 0.0, 0.5), (2.0, 0.0, 0.5), (0.5, -0.9, 1.0), (1.0, 0.7, 1.0)), "katojones": ((0.0, 0.0, 0.0), (0.3, 0.0, 0.0), (0.9, 0.9, 0.0)),
        "circularuniform": ()}


def draw(d, name, a, **kw):
    if name == "vonmises":
        return d.rvs(mu=a[0], kappa=a[1], **kw)
    return d.rvs(*a, **kw)


class Contract(Space):
    name = "contract"
    chunk = 4
    max_depth = 0
    bounds = "14 distributions x parameter vectors (boundaries included) x 12 sizes x 3 kinds of seed"

    def roots(self, tier):
        for d in M.DISTS:
            for par in ALT[d.name] + EDGE[d.name]:
                for sz in SIZES:
                    for kind in ("int", "generator", "randomstate"):
                        yield (d.name, par, sz, kind)

    def check(self, s):
        name, par, sz, kind = s
        D = M.BY[name]
        d = D.obj
        a = D.args(0.7, par)
        size = SIZES[sz]
        mk = {"int": lambda k: k, "generator": np.random.default_rng, "randomstate": np.random.RandomState}[kind]
        f = []
        np.random.seed(4)
        before = np.random.get_state()
        x = draw(d, name, a, size=size, random_state=mk(11))
        y = draw(d, name, a, size=size, random_state=mk(11))
        z = draw(d, name, a, size=size, random_state=mk(12))
        after = np.random.get_state()
        if not (before[2] == after[2] and np.array_equal(before[1], after[1])):
            f.append("the global random state was advanced by a seeded call")
        shape = () if size is None else (tuple(int(v) for v in size) if isinstance(size, (tuple, list)) else (int(size),))
        for v in (x, z):
            if np.shape(v) != shape:
                f.append(f"size={size!r} gives shape {np.shape(v)}")
                break
            v = np.asarray(v)
            if v.dtype != float:
                f.append(f"dtype {v.dtype}")
            if not np.all((v >= 0) & (v < TAU)) :
                f.append(f"variates outside [0, 2 pi): {v.ravel()[:5]}")
        if not np.array_equal(x, y):
            f.append(f"the same seed gives {np.ravel(x)[:3]} and {np.ravel(y)[:3]}")
        if np.size(x) and np.array_equal(x, z) and len(set(np.ravel(x).tolist() + np.ravel(z).tolist())) < 2 and par not in ((1.0,),):
            f.append(f"different seeds give the same variates {np.ravel(x)[:3]}")
        if np.size(x) > 1 and len(set(np.ravel(x).tolist())) < np.size(x):
            f.append(f"repeated variates {np.ravel(x)[:4]}")
        if kind != "int" and np.size(x):
            g = mk(11)
            u = draw(d, name, a, size=size, random_state=g)
            w = draw(d, name, a, size=size, random_state=g)
            if not np.array_equal(u, x):
                f.append("a generator in the same state gives other variates")
            if np.array_equal(u, w):
                f.append("a generator passed twice yields the same variates")
        fz = d(*a)
        if not np.array_equal(fz.rvs(size=size, random_state=mk(11)) if size is not None else fz.rvs(size=None, random_state=mk(11)), x):
            f.append("a frozen distribution draws other variates for the same seed")
        return (name, sz, kind), f


class Large(Space):
    name = "large"
    chunk = 2
    max_depth = 0
    bounds = ("14 distributions x 2 or more parameter vectors x sizes 4095, 4096, 4097, (64, 150): shape, range, no two variates equal, and no eighth of the array "
              "further than 0.14 from the distribution function (a whole number of blocks, or none, of the rejection samplers)")

    def roots(self, tier):
        for d in M.DISTS:
            for par in ALT[d.name] + EDGE[d.name][1:2]:
                for size in (4095, 4096, 4097, (64, 150)):
                    yield (d.name, par, size)

    def check(self, s):
        name, par, size = s
        D = M.BY[name]
        a = D.args(0.7, par)
        x = draw(D.obj, name, a, size=size, random_state=np.random.default_rng(5))
        f = []
        if np.shape(x) != (size if isinstance(size, tuple) else (size,)):
            return None, [f"size={size!r} gives shape {np.shape(x)}"]
        x = np.ravel(x)
        if not np.all((x >= 0) & (x < TAU)):
            f.append("variates outside [0, 2 pi)")
        v, c = np.unique(x, return_counts=True)
        if len(v) < len(x):
            f.append(f"{len(x) - len(v)} of {len(x)} variates repeat another one, e.g. {v[c.argmax()]} ({c.max()} times)")
        g = np.linspace(0, TAU, 8193)
        F = D.cdf(g, 0.7 if D.loc else 0.0, par)
        for i, b in enumerate(np.array_split(x, 8)):
            b = np.sort(b)
            u = np.interp(b, g, F)
            k = np.arange(len(b))
            ks = max(np.max((k + 1) / len(b) - u), np.max(u - k / len(b)))
            if ks > 0.14:
                f.append(f"part {i + 1} of 8 lies {ks:.3f} from the distribution function")
                break
        return (name, par), f


def menu(name):
    D = M.BY[name]
    A, B = (D.args(m, p) for m, p in zip((0.7, 4.0), ALT[name]))
    return (
        lambda d: draw(d, name, A, size=3, random_state=5),
        lambda d: draw(d, name, B, size=2, random_state=5),
        lambda d: draw(d, name, A, size=None, random_state=np.random.default_rng(8)),
        lambda d: d.pdf(np.array([0.3, 2.0, 5.0]), *B),
        lambda d: d.cdf(np.array([0.3, 2.0, 5.0]), *A),
        lambda d: d.ppf(np.array([0.3, 0.9]), *B),
        lambda d: draw(d, name, B, size=2),
        lambda d: draw(d, name, A, size=2, random_state=np.random.RandomState(3)),
    )


SEEDED = (0, 1, 2, 7)


class History(Space):
    """seeded draws do not depend on what the distribution object did before"""
    name = "history"
    chunk = 4
    bounds = "14 distributions x every sequence of <= 3 (thorough: 4) of 8 calls on one object; seeded answers compared with a fresh object"

    def __init__(self, tier):
        self.max_depth = 3 if tier == "quick" else 4

    def roots(self, tier):
        for d in M.DISTS:
            yield (d.name,)

    def actions(self, s):
        for k in range(8):
            yield str(k), s + (k,)

    def check(self, s):
        name = s[0]
        if len(s) == 1 or s[-1] not in SEEDED:
            return (name,), []
        m = menu(name)
        d = M.BY[name].fresh()
        np.random.seed(1)
        for k in s[1:]:
            out = m[k](d)
        ref = m[s[-1]](M.BY[name].fresh())
        if not np.array_equal(np.asarray(out), np.asarray(ref)):
            return "dep", [f"call {s[-1]} after {s[1:-1]} gives {np.ravel(out).tolist()}, on a fresh object {np.ravel(ref).tolist()}"]
        return (name, s[-1]), []


def spaces(tier):
    return [Contract(), Large(), History(tier)]
