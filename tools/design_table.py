"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    rows.append("| %s: %s | %s | %s |" % (s, m["what_it_breaks"], m["property"], m["property"]))
t = open(V + "/DESIGN.md").read()
h = "| bug | property | caught by |\n|---|---|---|\n"
i = t.index(h) + len(h)
j = i
while t[j:j + 1] == "|":
    j = t.index("\n", j) + 1
open(V + "/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
