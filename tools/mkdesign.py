#!/usr/bin/env python3
"""Fills in the generated tables of DESIGN.md: planted bugs (from seeded/*/meta.json)
and the repaired findings (from KNOWN_FINDINGS.txt)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
t = open(path).read()
def put(name, body):
    global t
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m[1] + body + m[2], t, flags=re.S)
rows = ["| planted bug | breaks | what breaks | needs | caught by |\n|---|---|---|---|---|\n"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
put("seeds", "".join(rows))
rows = ["| property | commit in /repo | what failed |\n|---|---|---|\n"]
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: rows.append("| %s | %s | %s |\n" % m.groups())
put("fixes", "".join(rows))
open(path, "w").write(t)
