"""Append the per-property sections (tools/design_props.md) and the table of planted changes to DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + "/DESIGN.md").read().split("## Properties and how they are decided")[0]
body = open(V + "/tools/design_props.md").read()
rows = []
res = {}
p = V + "/tools/seed_results.json"
if os.path.exists(p):
    res = json.load(open(p))
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {res.get(b, '?')} |")
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
fx = "\n".join("* " + k["line"] for k in kf if k["status"] == "fixed")
kn = "\n".join(f"* **{k['id']}** ({k['property']}, {len(k['states'])} states of `{k['space']}`): {k['what']}" for k in kf if k["status"] == "known")
open(V + "/DESIGN.md", "w").write(head + "## Properties and how they are decided\n\n" + body +
    "\n## Known findings (genuine, not repaired)\n\n" + kn + "\n\n## Repaired defects (one `fix:` commit each)\n\n" + fx +
    "\n\n## Planted changes and the checks that catch them\n\n| id | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
