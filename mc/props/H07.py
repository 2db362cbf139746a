"""Randomisation p-values: the generator is replaced by one that enumerates its whole (finite) sample space."""
import itertools
import math

import numpy as np

from mc import oracle as O
from mc import samples as S
from mc.engine import Space, close
from mc.props.H05 import ref_kuiper, ref_rao, ref_watson
from mc.props.H06 import ref_art

import pycircstat2.hypothesis as H
from pycircstat2 import Circular

TAU = 2 * math.pi


class EnumRNG(np.random.Generator):
    """Generator whose uniform draws run through a given list of configurations and whose
    permutations run through all permutations in lexicographic order."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, n, configs=None):
        super().__init__(np.random.PCG64(0))
        self.n = n
        self.configs = configs
        self.pos = 0
        self.used = 0
        self.perms = None
        self.alien = False

    # uniforms -----------------------------------------------------------
    def _take(self, k):
        C = self.configs
        out = [C[(self.pos + i) % len(C)] for i in range(k)]
        self.pos += k
        self.used += k
        return np.array(out, dtype=float).reshape(k, self.n)

    def _unif(self, size):
        if self.configs is None or size is None:
            self.alien = True
            return np.full(() if size is None else size, 0.37)
        shape = (size,) if np.isscalar(size) else tuple(int(x) for x in size)
        if shape == (self.n,):
            return self._take(1)[0]
        if len(shape) == 2 and shape[1] == self.n and shape[0] != self.n:
            return self._take(shape[0])
        if len(shape) == 2 and shape[0] == self.n and shape[1] != self.n:
            return self._take(shape[1]).T.copy()
        self.alien = True
        return np.full(shape, 0.37)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._unif(size)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._unif(size)

    # permutations -------------------------------------------------------
    def _perm(self, n):
        if self.perms is None:
            self.perms = itertools.cycle(itertools.permutations(range(n)))
            self.pn = n
        if n != self.pn:
            self.alien = True
            return list(range(n))
        self.used += 1
        return list(next(self.perms))

    def permutation(self, x, axis=0):
        if np.ndim(x) == 0:
            return np.array(self._perm(int(x)))
        x = np.asarray(x)
        return x[self._perm(len(x))]

    def shuffle(self, x, axis=0):
        x[:] = np.asarray(x)[self._perm(len(x))]

    def permuted(self, x, axis=None, out=None):
        x = np.asarray(x)
        if x.ndim == 1:
            return x[self._perm(len(x))]
        return np.array([r[self._perm(len(r))] for r in x])

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if replace:
            self.alien = True
            return super().choice(a, size=size, replace=replace, p=p)
        x = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return x[self._perm(len(x))][: (len(x) if size is None else size)]


def bounds(stats, obs, tol=1e-7):
    lo = sum(s > obs + tol for s in stats)
    hi = sum(s >= obs - tol for s in stats)
    return lo, hi


def ray_z(a):
    return len(a) * O.mean_r(list(a))[1] ** 2


UNI = {
    "rayleigh_test": (lambda a, B, rng: H.rayleigh_test(alpha=a, B=B, seed=rng), "bootstrap_pval", ray_z),
    "kuiper_test": (lambda a, B, rng: H.kuiper_test(alpha=a, n_simulation=B, seed=rng), "pval", lambda a: ref_kuiper(a)[0]),
    "watson_test": (lambda a, B, rng: H.watson_test(alpha=a, n_simulation=B, seed=rng), "pval", lambda a: ref_watson(a)[0]),
    "rao_spacing_test": (lambda a, B, rng: H.rao_spacing_test(alpha=a, n_simulation=B, seed=rng), "pval", ref_rao),
}
_cache = {}


def null(name, n, q, o, extra):
    """statistics of every configuration of n draws on the q-point lattice shifted by o"""
    key = (name, n, q, o, extra)
    if key not in _cache:
        C = [tuple((k + 0.5 + o) / q for k in ks) for ks in itertools.product(range(q), repeat=n)]
        C = C[: len(C) - extra]
        memo = {}
        st = []
        for c in C:
            k = tuple(sorted(c))
            if k not in memo:
                memo[k] = UNI[name][2]([TAU * x for x in k])
            st.append(memo[k])
        _cache[key] = (C, st)
    return _cache[key]


class Uniform(Space):
    name = "uniform-null-enumerated"
    chunk = 8
    max_depth = 0

    def __init__(self, tier):
        self.big = tier == "thorough"
        self.cfg = [(2, 9), (3, 5), (4, 4), (5, 3)] + ([(2, 23), (3, 9), (4, 6), (5, 5), (6, 4)] if self.big else [])
        self.bounds = f"all q^n configurations of the generator for (n, q) in {self.cfg}, every lattice sample of size n on 8 points plus an offset, 4 tests"

    def roots(self, tier):
        for name in UNI:
            for n, q in self.cfg:
                for o in (0.0, 0.21):
                    for extra in ((0, 1) if not self.big else (0, 1, 3)):
                        for ks in itertools.combinations_with_replacement(range(8), n):
                            if ks[0] == 0 or self.big and n < 5:
                                for off in (0, 1):
                                    yield (name, n, q, o, extra, ks, off)

    def check(self, s):
        name, n, q, o, extra, ks, off = s
        C, st = null(name, n, q, o, extra)
        a = np.array([TAU * k / 8 + S.OFF[off] for k in ks])
        B = len(C)
        rng = EnumRNG(n, C)
        res = UNI[name][0](a, B, rng)
        p = getattr(res, UNI[name][1])
        f = []
        if hasattr(res, "n_simulation") and res.n_simulation != B:
            f.append(f"n_simulation={res.n_simulation} for {B} simulations")
        if hasattr(res, "mode") and res.mode not in ("simulation", "ungrouped"):
            f.append(f"mode={res.mode!r} of a simulated p-value")
        if p is None or not (1 / (B + 1) - 1e-12 <= p <= 1):
            return "bad", f + [f"{name} p={p} is not (1+k)/(B+1)"]
        k = p * (B + 1) - 1
        if abs(k - round(k)) > 1e-6:
            f.append(f"{name} p={p} is not a multiple of 1/{B + 1}")
        if rng.alien or rng.used != B:
            return "other-generator", f
        obs = UNI[name][2](a)
        lo, hi = bounds(st, obs)
        if not lo - 1e-6 <= k <= hi + 1e-6:
            f.append(f"{name} counted {k:.6g} of {B} null samples at least as extreme, expected {lo}..{hi}")
        return (name, round(p, 6)), f


class Grouped(Space):
    name = "grouped-rao-null-enumerated"
    chunk = 8
    max_depth = 0

    def __init__(self, tier):
        self.cfg = [(3, 4), (4, 3), (4, 4)] + ([(3, 7), (5, 4), (5, 3), (4, 6)] if tier == "thorough" else [])
        self.bounds = f"every frequency table with total n on m equal bins for (n, m) in {self.cfg}, all m^n null samples"

    def roots(self, tier):
        for n, m in self.cfg:
            for w in itertools.product(range(n + 1), repeat=m):
                if sum(w) == n:
                    yield (n, m, w)

    def check(self, s):
        n, m, w = s
        C = [tuple((k + 0.5) / m for k in ks) for ks in itertools.product(range(m), repeat=n)]
        C = C[:-1] if len(C) == n else C
        a = TAU * np.arange(m) / m
        rng = EnumRNG(n, C)
        res = H.rao_spacing_test(alpha=a, w=np.array(w), kappa=1e9, n_simulation=len(C), seed=rng)
        B = len(C)
        k = res.pval * (B + 1) - 1
        f = []
        st = [ref_rao([TAU * math.floor(x * m + 1e-9) / m for x in c]) for c in C]
        obs = ref_rao(list(np.repeat(a, w)))
        if not close(res.statistic, obs, 1e-6, 1e-6):
            f.append(f"statistic {res.statistic} expected {obs}")
        lo, hi = bounds(st, obs, 0.5)
        if res.mode != "grouped" or abs(k - round(k)) > 1e-6:
            f.append(f"mode {res.mode} p {res.pval}")
        if rng.used >= B and not lo - 1e-6 <= k <= hi + 1e-6:
            f.append(f"rao_spacing_test(w) counted {k:.6g} of {B} null samples, expected {lo}..{hi}")
        return (n, m, round(res.pval, 6)), f


class Perm(Space):
    name = "all-permutations"
    chunk = 16
    max_depth = 0

    def __init__(self, tier):
        self.sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(1, 4), (4, 1), (3, 3), (2, 4)] if tier == "thorough" else [])
        self.m = 6
        self.bounds = f"two groups of sizes {self.sizes} on a 6-point lattice with and without irrational offset, all N! permutations"

    def roots(self, tier):
        for n1, n2 in self.sizes:
            m = 6 if n1 + n2 < 5 else 5 if n1 + n2 == 5 else 3
            for ks in itertools.product(range(m), repeat=n1 + n2):
                if ks[0] == 0:
                    for jit in (0, 1):
                        yield (n1, n2, m, ks, jit)

    def check(self, s):
        n1, n2, m, ks, jit = s
        a = np.array([TAU * k / m + (0.11 * i * i + 0.013 * k if jit else 0.0) for i, k in enumerate(ks)])
        N = n1 + n2
        B = math.factorial(N)
        rng = EnumRNG(N)
        r = H.angular_randomisation_test([a[:n1], a[n1:]], n_simulation=B, seed=rng)
        f = []
        al = [float(x) for x in a]
        obs = ref_art(al[:n1], al[n1:])
        if not close(r.statistic, obs, 1e-9, 1e-9):
            f.append(f"statistic {r.statistic} expected {obs}")
        if r.n_simulation != B:
            f.append("n_simulation")
        memo = {}
        cnt = 0
        for c in itertools.combinations(range(N), n1):
            st = ref_art([al[i] for i in c], [al[i] for i in range(N) if i not in c])
            cnt += st >= obs - 1e-9
        want = (1 + cnt * math.factorial(n1) * math.factorial(n2)) / (B + 1)
        if rng.alien or rng.used != B:
            return "other-generator", f
        if abs(r.pval - want) > 1e-9:
            f.append(f"angular_randomisation_test over all {B} permutations p={r.pval} expected {want}")
        return (round(r.pval, 6),), f


# ---------------------------------------------------------------- histories

A1 = np.array([0.3, 0.9, 1.4, 2.2, 5.9])
A2 = np.array([0.5, 3.3, 4.0, 4.4])
AW = np.arange(6) * TAU / 6
W = np.array([3, 2, 0, 1, 1, 2])


def seeds(kind):
    return {"int": 7, "ss": np.random.SeedSequence(7), "bit": np.random.PCG64(np.random.SeedSequence(7)), "gen": np.random.default_rng(7), "list": [7]}[kind]


OPS = {
    "rayleigh": lambda sd: H.rayleigh_test(alpha=A1, B=37, seed=sd).bootstrap_pval,
    "kuiper": lambda sd: H.kuiper_test(A1, n_simulation=37, seed=sd).pval,
    "watson": lambda sd: H.watson_test(A1, n_simulation=37, seed=sd).pval,
    "rao": lambda sd: H.rao_spacing_test(A1, n_simulation=37, seed=sd).pval,
    "raow": lambda sd: H.rao_spacing_test(AW, w=W, n_simulation=37, seed=sd).pval,
    "art": lambda sd: H.angular_randomisation_test([A1, A2], n_simulation=37, seed=sd).pval,
    "default": lambda sd: (H.rayleigh_test(alpha=A2, B=23).bootstrap_pval, H.kuiper_test(A2, n_simulation=23).pval, H.watson_test(A2, n_simulation=23).pval,
                           H.rao_spacing_test(A2, n_simulation=23).pval, H.angular_randomisation_test([A2, A1], n_simulation=23).pval),
    "np.random": lambda sd: np.random.rand(3).tolist() and 0,
    "np.seed": lambda sd: np.random.seed(11) or 0,
    "bootstrap": lambda sd: (Circular(np.linspace(0, 1.5, 9), unit="radian"), 0)[1],
}
KINDS = ("int", "ss", "bit", "gen", "list")
_fresh = {}


def fresh(op, kind="int"):
    if op not in _fresh:
        _fresh[op] = OPS[op](seeds(kind))
    return _fresh[op]


class Seeds(Space):
    name = "seed-histories"
    chunk = 8
    max_depth = 0

    def __init__(self, tier):
        self.d = 2 if tier == "quick" else 3
        self.bounds = f"every sequence of up to {self.d} + 1 randomised operations, every kind of seed"

    def roots(self, tier):
        for d in range(self.d + 1):
            for hist in itertools.product(OPS, repeat=d):
                for op in OPS:
                    if op.startswith("np") or op == "bootstrap":
                        continue
                    for kind in KINDS if d < 2 else ("int", "ss"):
                        yield (hist, op, kind)

    def check(self, s):
        hist, op, kind = s
        want = fresh(op)
        np.random.seed(3)
        f = []
        for hp in hist:
            OPS[hp](seeds(kind))
        st = np.random.get_state()
        got = OPS[op](seeds(kind))
        st2 = np.random.get_state()
        if got != want:
            f.append(f"{op} with a {kind} seed after {hist}: {got}, in a fresh process order {want}")
        if not (np.array_equal(st[1], st2[1]) and st[2:] == st2[2:]):
            f.append(f"{op} with its own seed changed the global random state")
        return (op, str(got)), f

    def traces(self, s):
        return len(s[0]) + 1


def spaces(tier):
    return [Uniform(tier), Grouped(tier), Perm(tier), Seeds(tier)]
