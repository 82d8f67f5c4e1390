#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and tools/seeded_results.json."""
import os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seeded_results.json"))
rows = ["| change | what it breaks | needs | check |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s %s |" % (i, m["what_it_breaks"], m["needs"], m["property"], r.get("check", "?")))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- end -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + s[b:])
