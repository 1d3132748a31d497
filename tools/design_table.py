"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"], m["property"]))
s = open(V + "/DESIGN.md").read()
head = "| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\n\n", i)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
