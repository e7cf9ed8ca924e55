#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md: bounds and cost, planted changes."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read().split("<!-- tables -->")[0].rstrip() + "\n\n<!-- tables -->\n"
src = open(V + "/gosym/props.go").read()
s += "\n### Bounds and cost (quick run, 8 cores)\n\n| id | bounds | harnesses | paths | queries | solver s |\n|---|---|---|---|---|---|\n"
for m in sorted(re.findall(r'\{Prop: "(\w+)".*?Bounds: "([^"]*)"', src)):
    try:
        c = json.load(open(V + "/evidence/%s.json" % m[0]))
        c = c.get("coverage", c)
        r = (len(c["harnesses"]), c["states"], c["solver_queries"], round(c["solver_s"]))
    except (OSError, KeyError):
        r = ("", "", "", "")
    s += "| %s | %s | %s | %s | %s | %s |\n" % ((m[0], m[1].replace("|", "/")) + r)
s += "\n## Planted changes\n\nEach is in `seeded/`; applied one at a time in a private mount namespace by `tools/seedtest.sh`, with the repository's tests and the check of its property. All listed here were caught by the quick check of their property.\n\n| change | check | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"], d["what_it_breaks"])
t = V + "/tools/design_tail.md"
if os.path.exists(t):
    s += "\n" + open(t).read()
open(p, "w").write(s)
