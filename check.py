#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] | check.py --replay FILE

Decides one property by exhaustive exploration (see DESIGN.md).  Exit 0: held
on everything explored.  Exit 1 with a line `VIOLATION property=ID replay=FILE`.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.pop("PYTHONPATH", None)
sys.dont_write_bytecode = True
import tempfile
_TMP = tempfile.mkdtemp(prefix="mcverif-")
sys.pycache_prefix = _TMP            # never trust compiled files found in /repo
os.environ["MPLCONFIGDIR"] = _TMP
import atexit
import shutil
_PID = os.getpid()
atexit.register(lambda: os.getpid() == _PID and shutil.rmtree(_TMP, ignore_errors=True))

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

import argparse
import importlib
import json
import time
import warnings

warnings.filterwarnings("ignore")


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def known_match(known, pid, space, state, label, s2, msg):
    for k in known:
        if k.get("status") != "known" or k["property"] != pid or k["space"] != space:
            continue
        if k.get("label", None) != (label if label is None else str(label)):
            continue
        if json.loads(json.dumps(state)) in k["states"] and k["contains"] in msg:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space", help="only this space (debugging)")
    ap.add_argument("--max-viol", type=int, default=None)
    a = ap.parse_args()
    import numpy as np
    np.seterr(all="ignore")
    from mc import engine, registry
    import pycircstat2
    src = os.path.dirname(os.path.abspath(pycircstat2.__file__))
    if os.path.realpath(src) != os.path.realpath(os.path.join(REPO, "pycircstat2")):
        print("harness error: pycircstat2 imported from", src)
        return 2

    if a.replay:
        d = json.load(open(a.replay))
        mod = registry.load(d["property"])
        space = {s.name: s for s in mod.spaces("thorough") + mod.spaces("quick")}[d["space"]]
        import signal
        signal.signal(signal.SIGALRM, engine._alarm)
        s = engine.tup(d["state"])
        if d.get("label") is None:
            _, fails = engine.run_state(space, s)
        else:
            fails = engine.run_edge(space, s, engine.tup(d["label"]), engine.tup(d["next"]))
        for f in fails:
            print("REPLAY FAIL:", f)
        if not fails:
            print("REPLAY OK: property holds on this case")
        return 1 if fails else 0

    pid = a.prop
    mod = registry.load(pid)
    tier = a.tier
    t0 = time.time()
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == pid]
    tot = dict(states=0, transitions=0, traces=0)
    per = []
    samples = []
    nsig = 0
    viols = []
    kf_hits = {}
    exhausted = True
    import contextlib
    import io
    for space in mod.spaces(tier):
        if a.space and space.name != a.space:
            continue
        r = engine.explore(space, tier, stop_after=a.max_viol or 10 ** 9 if known else (a.max_viol or engine.MAX_VIOL))
        tot["states"] += r.states
        tot["transitions"] += r.transitions
        tot["traces"] += r.traces
        nsig += len(r.sigs)
        samples += r.samples[:4]
        exhausted &= r.exhausted
        per.append(dict(space=space.name, bounds=space.bounds, states=r.states, transitions=r.transitions,
                        distinct_outcomes=len(r.sigs), depth=r.max_depth, wall_s=round(r.wall, 2)))
        for (sp, s, label, s2, m) in r.violations:
            k = known_match(known, pid, sp, s, label, s2, m)
            if k is not None:
                kf_hits.setdefault(k["id"], k)
            else:
                viols.append((sp, s, label, s2, m))
    for k in kf_hits.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], distinct_outcomes=nsig,
                            samples=json.loads(json.dumps(samples[:12], default=str)), spaces=per, exhaustive=bool(exhausted and not viols),
                            explanation=getattr(mod, "EXPLANATION", "every state and transition is evaluated on the real code")),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print(f"[{pid}] {p['space']}: states={p['states']} transitions={p['transitions']} outcomes={p['distinct_outcomes']} {p['wall_s']}s")
    if not per or tot["states"] == 0:
        print("harness error: nothing explored")
        return 2
    if viols:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        # shortest counterexample first
        viols.sort(key=lambda v: len(repr(v[1])))
        sp, s, label, s2, m = viols[0]
        path = os.path.join(rd, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, space=sp, state=s, label=label, next=s2, message=m,
                           others=[dict(space=v[0], state=v[1], label=v[2], message=v[4]) for v in viols[1:12]]), f, indent=1, default=str)
        for v in viols[: (a.max_viol or 5)]:
            print(f"  violated in {v[0]} state={v[1]} via={v[2]}: {v[4]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK property={pid} states={tot['states']} transitions={tot['transitions']} wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
