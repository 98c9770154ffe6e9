#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md; lines 'id property rc=N ...' on stdin say what was caught."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(here, "DESIGN.md")
text = open(f).read()
rows = dict(re.findall(r"^\| (c\d\d-[a-z0-9-]+) \|.*\| ([^|]*) \|$", text, re.M))
for l in sys.stdin:
    m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
    if m:
        rows[m[1]] = f"caught by {m[2]}" if m[3] == "1" else "missed"
out = ["| bug | needs | result |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    out.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), rows.get(i, "not run")))
a, b = text.index("<!-- bugs -->"), text.index("<!-- /bugs -->")
open(f, "w").write(text[:a] + "<!-- bugs -->\n" + "\n".join(out) + "\n" + text[b:])
