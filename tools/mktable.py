#!/usr/bin/env python3
# refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, re
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], d["property"] if d.get("caught", True) else d["property"] + " misses it", d["needs"], d["what_it_breaks"]))
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->\n"
s = open("DESIGN.md").read()
s = s.replace("@TABLE@\n", t) if "@TABLE@" in s else re.sub(r"<!-- table -->.*?<!-- end -->\n", lambda m: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
