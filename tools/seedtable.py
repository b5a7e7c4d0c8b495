#!/usr/bin/env python3
"""Renews the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].rstrip("."), m.get("caught_by", m["property"])))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!--seeds-->\n.*?<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s)
open(p, "w").write(s)
