"""Explicit-state exploration engine for pycircstat2.

A *space* is a finite transition system whose states are plain (nested) tuples
of numbers and strings and whose transition relation is executed by the real
code in /repo:

  roots(tier)        -> iterable of initial states
  actions(s)         -> iterable of (label, s')
  check(s)           -> (signature, [failure text])   invariant on one state
  check_edge(s,l,s') -> [failure text]                invariant on one transition
  max_depth          -> bound on the number of actions from a root (None: closure)

`explore` enumerates every state reachable from the roots within the bound
(breadth-first, deduplicated by the state itself), evaluates the invariants on
every state and on every transition, and stops at the first few violations.
There is no sampling anywhere: the set of visited states is a function of the
tier only.
"""
from __future__ import annotations

import hashlib
import itertools
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE_TIMEOUT = 100          # seconds without an answer from one state
MAX_VIOL = 12
NPROC = int(os.environ.get("MC_NPROC", "0")) or (os.cpu_count() or 1)


class Timeout(Exception):
    pass


class Space:
    name = "space"
    bounds = ""
    max_depth = None
    chunk = 64
    nproc = None           # override number of workers

    def roots(self, tier):
        return []

    def actions(self, s):
        return ()

    def check(self, s):
        return None, []

    def check_edge(self, s, label, s2):
        return []

    # number of model traces compared with the implementation for one state
    def traces(self, s):
        return 1


def tup(x):
    if isinstance(x, (list, tuple)):
        return tuple(tup(v) for v in x)
    return x


def _alarm(signum, frame):
    raise Timeout()


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "pycircstat2" in fr.filename:
            where = f" at {os.path.basename(fr.filename)}:{fr.name}"
            break
    return f"{type(e).__name__}: {str(e)[:160]}{where}"


def run_state(space, s):
    """Evaluate the invariant on one state -> (sig, failures)."""
    try:
        signal.setitimer(signal.ITIMER_REAL, STATE_TIMEOUT)
        try:
            sig, fails = space.check(s)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return sig, list(fails)
    except Timeout:
        return "timeout", [f"no answer within {STATE_TIMEOUT} s"]
    except Exception as e:
        return "exc", ["unexpected " + describe_exc(e)]


def run_edge(space, s, label, s2):
    try:
        signal.setitimer(signal.ITIMER_REAL, STATE_TIMEOUT)
        try:
            return list(space.check_edge(s, label, s2))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Timeout:
        return [f"no answer within {STATE_TIMEOUT} s"]
    except Exception as e:
        return ["unexpected " + describe_exc(e)]


_SPACE = None


def _work(chunk):
    sp = _SPACE
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for s, expand in chunk:
        sig, fails = run_state(sp, s)
        f = [(None, None, m) for m in fails]
        succ = []
        ne = 0
        if expand:
            for label, s2 in sp.actions(s):
                ne += 1
                for m in run_edge(sp, s, label, s2):
                    f.append((label, s2, m))
                succ.append(s2)
        out.append((s, sig, f, succ, ne, sp.traces(s)))
    return out


def _chunks(seq, k):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) == k:
            yield buf
            buf = []
    if buf:
        yield buf


def h(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.max_depth = 0
        self.sigs = set()
        self.samples = []
        self.violations = []   # (space, state, label, s2, msg)
        self.wall = 0.0
        self.exhausted = True


def explore(space, tier, stop_after=MAX_VIOL):
    global _SPACE
    t0 = time.time()
    res = Result()
    _SPACE = space
    nproc = space.nproc or NPROC
    seen = set()
    frontier = []
    for s in space.roots(tier):
        k = h(s)
        if k not in seen:
            seen.add(k)
            frontier.append(s)
    depth = 0
    ctx = mp.get_context("fork")
    pool = ctx.Pool(nproc) if nproc > 1 and len(frontier) > 0 else None
    try:
        while frontier:
            expand = space.max_depth is None or depth < space.max_depth
            ck = max(1, min(space.chunk, (len(frontier) + 4 * nproc - 1) // (4 * nproc)))
            jobs = _chunks(((s, expand) for s in frontier), ck)
            it = pool.imap(_work, jobs) if pool else map(_work, jobs)
            nxt = []
            for out in it:
                for s, sig, fails, succ, ne, tr in out:
                    res.states += 1
                    res.transitions += ne
                    res.traces += tr
                    if sig is not None:
                        res.sigs.add(sig if isinstance(sig, (str, int, float, tuple)) else repr(sig))
                    if len(res.samples) < 4 or (res.states % 5003 == 0 and len(res.samples) < 10):
                        res.samples.append({"space": space.name, "state": s, "outcome": repr(sig)[:160]})
                    for label, s2, m in fails:
                        res.violations.append((space.name, s, label, s2, m))
                    for s2 in succ:
                        k = h(s2)
                        if k not in seen:
                            seen.add(k)
                            nxt.append(s2)
                if len(res.violations) >= stop_after:
                    res.exhausted = False
                    break
            if len(res.violations) >= stop_after:
                break
            res.max_depth = depth
            depth += 1
            frontier = nxt if expand else []
    finally:
        if pool:
            pool.terminate()
            pool.join()
    res.wall = time.time() - t0
    return res


# ---------------------------------------------------------------- helpers

def close(a, b, rtol=1e-9, atol=1e-9):
    """Equality of numbers / arrays with NaN == NaN."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def aclose(a, b, tol=1e-8):
    """Equality of angles modulo 2*pi, NaN == NaN."""
    a = float(a); b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    d = math.remainder(a - b, 2 * math.pi)
    return abs(d) <= tol


def fmt(x):
    try:
        return f"{float(x):.10g}"
    except Exception:
        return repr(x)[:200]
