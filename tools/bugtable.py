"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)),
                 m["needs"]))
D = V + "/DESIGN.md"
s = open(D).read()
head = "| bug | property | what it needs |\n|-----|----------|---------------|\n"
i = s.index(head) + len(head)
j = s.find("\n\n", i)
tail = s[j:] if j >= 0 else "\n"
s = s[:i] + "\n".join("| %s | %s | %s |" % (b, p, n)
                      for p, b, n in sorted(rows)) + tail
open(D, "w").write(s)
