"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/DESIGN.md"
s = open(p, encoding="utf8").read()
MARK = "## Planted changes"
s = s.split(MARK)[0].replace("@SEEDED@", "").rstrip() + "\n\n" + MARK + "\n"
s += """Each was written from a property and the code, passes the stable tests, and has a demonstration that fails with it only
(`tools/plant.py ID` confirms all that).  Every one of them is reported by its property's quick check.

| change | property | what it needs to show | what breaks |
|---|---|---|---|
"""
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f))
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"])
open(p, "w", encoding="utf8").write(s)
