#!/usr/bin/env python3
"""Rewrites the seed table of DESIGN.md from seeded/*/meta.json (development only; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property = check that catches it | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "\\|")))
p = V + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
