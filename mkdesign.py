#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, design/*.md texts, checks.py and catches.tsv."""
import json, os
from checks import CHECKS
R = os.path.dirname(os.path.abspath(__file__))
rd = lambda f: open(os.path.join(R, f)).read()
how, cur = {}, None
for l in rd("DESIGN.how.md").splitlines():
    if l[:1] == "C" and l[1:3].isdigit():
        cur, l = l[:3], l[4:]
        how[cur] = ""
    if cur:
        how[cur] += l + "\n"
out = []
for l in rd("properties.jsonl").splitlines():
    if not l.strip():
        continue
    p = json.loads(l)
    i = p["id"]
    c = CHECKS[i]
    es = []
    for e in c["entries"]:
        if e["entry"] not in es:
            es.append(e["entry"])
    out.append("### %s %s\n\n%s\n\n- Entries: %s\n- Bounds (thorough in parentheses): %s.\n- Outside: %s.\n" % (i, p["title"], how[i].strip(), ", ".join("`%s`" % e for e in es), c["bounds"], c["outside"] or "nothing within the statement"))
fs = json.load(open(os.path.join(R, "known_findings.json")))["findings"]
find = "\n".join("- %s: %s" % (f["id"], f["record"].replace("fixed: ", "fixed, ").replace("property=", "") if f["status"] == "fixed" else "known, %s (`%s`): %s" % (f["property"], f["entry"], f["what"])) for f in fs)
rows = ["| bug | property | what it breaks | found by |", "|---|---|---|---|"]
got = dict(l.split("\t", 1) for l in rd("catches.tsv").splitlines() if "\t" in l)
for i in sorted(os.listdir(os.path.join(R, "seeded"))) if os.path.isdir(os.path.join(R, "seeded")) else []:
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), got.get(i, "not run yet")))
s = rd("DESIGN.in.md").replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FINDINGS@@", find).replace("@@CATCHES@@", "\n".join(rows))
open(os.path.join(R, "DESIGN.md"), "w").write(s)
