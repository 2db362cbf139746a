"""Property texts -> properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
D = "pycircstat2/descriptive.py"
B = "pycircstat2/base.py"
H = "pycircstat2/hypothesis.py"
X = "pycircstat2/distributions.py"
U = "pycircstat2/utils.py"
V = "pycircstat2/visualization.py"
C = "pycircstat2/clustering.py"
K = "pycircstat2/correlation.py"
R = "pycircstat2/regression.py"


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {})),
                  technique=technique or "explicit-state exploration of the real code against a reference model",
                  note=note or "exhaustive within the stated bounds on the real code; trusts the reference definitions in mc/ and the bounded sample alphabet"))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(HERE, "mc", "props")) if f[0].isupper() and f.endswith(".py")}
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                               thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                               technique=p["technique"], level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="no check built yet"))
    assert have <= set(ids), have - set(ids)
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'/repo'); sys.dont_write_bytecode=True; import pycircstat2\"",
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")


main()
