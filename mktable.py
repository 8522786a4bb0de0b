"""Refresh the catch table in DESIGN.md from seeded/*/meta.json and results.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
res = json.load(open(os.path.join(here, "catches.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['needs'].strip().rstrip('.')} | {res.get(b, 'not run')} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = s.split("## 7. Planted bugs")[0].replace("@@TABLE@@", "").rstrip()
intro = ("\n\n## 7. Planted bugs\n\nEach passes the repository's tests, and its demo fails only with it. The last column is the "
         "first violation of the quick tier with VERIF_SEED=1 (execution index).\n\n")
open(p, "w").write(head + intro + "\n".join(rows) + "\n")
