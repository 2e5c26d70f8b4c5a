"""Brings the table of planted bugs at the end of DESIGN.md up to date"""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "| bug | property, caught by | needs | breaks |\n|---|---|---|---|\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index(HEAD)] + HEAD
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f))
    s += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], d["property"], d["needs"], d["what_it_breaks"])
open(p, "w").write(s)
