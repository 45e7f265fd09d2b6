#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
t = "| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"\| bug \| caught by \|.*?(?=\nThe demonstrations of L06)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "bugs")
