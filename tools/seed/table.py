"""Writes the table of planted bugs into DESIGN.md from the output of try.sh (lines 'id property verdict time ...')."""
import sys, json, re
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 2 and w[0][0] in "st" : res[w[0]] = w[2]
import os
rows = ["| planted bug | property | needs | own check (quick) |", "|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
p = "/verif/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
