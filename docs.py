#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t, flags=re.S)
open(p, "w").write(t)
