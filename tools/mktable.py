#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i}: {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
d = open(V + "/DESIGN.md").read().split("\n")
at = [k for k, l in enumerate(d) if re.match(r"\| [a-z]\d\d-", l)]
d[at[0]:at[-1] + 1] = rows
open(V + "/DESIGN.md", "w").write("\n".join(d))
