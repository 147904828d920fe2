#!/usr/bin/env python3
"""Writes the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append("**%s** (%s)" % (os.path.basename(os.path.dirname(f)), m["needs"]))
n = sum(map(len, rows.values()))
t = "| property | changes |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, "; ".join(rows[p])) for p in sorted(rows))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"\| property \| changes \|\n\|---\|---\|\n(\| C.*\n)*", lambda _: t, d)
d = re.sub(r"(?m)^\d+ changes in `seeded/`", "%d changes in `seeded/`" % n, d)
open(V + "/DESIGN.md", "w").write(d)
print(n)
