"""Appends the table of planted changes to DESIGN.md (between the two markers)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
head, rest = s.split(a)
tail = rest.split(b)[1]
tab = "| change | caught by check | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(head + a + tab + b + tail)
print(len(rows))
