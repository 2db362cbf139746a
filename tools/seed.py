"""Development helper: make, confirm and run planted changes.

seed.py add SPEC.py     SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
seed.py run ID [CHECK]  run the check of the bug's property (or CHECK) against a patched scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="wt-", dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {d}", shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm base", shell=True, cwd=d)
    return d


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or None


def tests(d):
    r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x"], cwd=d, env=ENV, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-1500:]


def demo(d, folder):
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True)


def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = set(sys.argv[3:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        out = os.path.join(V, "seeded", b["id"])
        if os.path.exists(out) and not only:
            continue
        d = copy()
        try:
            ok = True
            for f, o, n in b["edits"]:
                p = os.path.join(d, f)
                t = open(p).read()
                if t.count(o) != 1:
                    print(b["id"], "edit matches", t.count(o), "times:", o[:80]); ok = False; break
                open(p, "w").write(t.replace(o, n))
            if not ok:
                continue
            tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
            open(tmp + "/demo.sh", "w").write(SH)
            open(tmp + "/demo.py", "w").write(b["demo"])
            patch = subprocess.check_output(["git", "diff"], cwd=d, text=True)
            open(tmp + "/patch.diff", "w").write(patch)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
            r1 = demo(d, tmp)
            subprocess.check_call(["git", "stash", "-q"], cwd=d)
            r0 = demo(d, tmp)
            subprocess.check_call(["git", "stash", "pop", "-q"], cwd=d)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b["id"], "DEMO bad: clean rc", r0.returncode, "patched rc", r1.returncode, (r0.stderr or r1.stderr)[-600:]); continue
            t, msg = tests(d)
            if not t:
                print(b["id"], "TESTS FAIL", msg[-700:]); continue
            os.makedirs(os.path.join(V, "seeded"), exist_ok=True)
            if os.path.exists(out):
                shutil.rmtree(out)
            shutil.copytree(tmp, out)
            shutil.rmtree(tmp)
            rc = run(b["id"], b["property"], d)
            print(b["id"], "OK; check", b["property"], "->", "CAUGHT" if rc == 1 else f"MISSED rc={rc}", flush=True)
        finally:
            shutil.rmtree(d)


def run(bid, check, d=None, verbose=False):
    own = d is None
    if own:
        d = copy()
        subprocess.check_call(["git", "apply", os.path.join(V, "seeded", bid, "patch.diff")], cwd=d)
    try:
        r = subprocess.run([PY, "check.py", check], cwd=V, env=dict(os.environ, MC_REPO=d), capture_output=True, text=True)
        if verbose:
            print(r.stdout[-2500:], r.stderr[-800:])
        return r.returncode
    finally:
        if own:
            shutil.rmtree(d)


if sys.argv[1] == "add":
    add(sys.argv[2])
elif sys.argv[1] == "run":
    bid = sys.argv[2]
    m = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))
    print(run(bid, sys.argv[3] if len(sys.argv) > 3 else m["property"], verbose=True))
elif sys.argv[1] == "all":
    for bid in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", bid, "meta.json")))
        if len(sys.argv) > 2 and m["property"] not in sys.argv[2:]:
            continue
        rc = run(bid, m["property"])
        print(bid, m["property"], "CAUGHT" if rc == 1 else f"MISSED rc={rc}", flush=True)
        rp = os.path.join(V, "tools", "seed_results.json")
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[bid] = f"caught by {m['property']}" if rc == 1 else f"missed by {m['property']}"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
