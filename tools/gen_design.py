"""Assembles DESIGN.md from tools/design_head.md, the slices of the checks, known_findings.json and seeded/."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
table = subprocess.run([sys.executable, V + "/tools/gen_design_table.py"], capture_output=True, text=True, env={**os.environ, "PYTHONWARNINGS": "ignore", "PYTHONDONTWRITEBYTECODE": "1"}, check=True).stdout
kf = json.loads(rd("known_findings.json"))
fixed = "\n".join("* " + f.replace("fixed: property=", "") for f in kf["fixed"])
res = json.loads(rd("tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
rows = ["| planted bug | property | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.loads(rd(f"seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
times = json.loads(rd("tools/times.json")) if os.path.exists(V + "/tools/times.json") else {}
cost = "\n".join(f"| {k} | {v.get('quick', '?')} | {v.get('thorough', '?')} |" for k, v in sorted(times.items()))
head = rd("tools/design_head.md")
tail = rd("tools/design_tail.md").replace("FIXED", fixed, 1).replace("SEEDS", "\n".join(rows), 1)
open(V + "/DESIGN.md", "w").write(head + "## What is enumerated, per property\n" + table + ("\n## Cost (8 cores; cases/states/transitions, seconds)\n\n| check | quick | thorough |\n|---|---|---|\n" + cost + "\n" if cost else "") + tail)
