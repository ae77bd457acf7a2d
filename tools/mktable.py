"""mktable.py RESULTS: the table of planted bugs in DESIGN.md (RESULTS: json list of [seed, [checks that catch it]])"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = dict(json.load(open(sys.argv[1])))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json"), encoding="utf-8"))
    c = got.get(i, [])
    own = m["property"]
    c = ([own] if own in c else []) + sorted(x for x in c if x != own)
    rows.append(f"| {i} | {m['needs'].replace('|', '/')} | {', '.join(c) or 'MISSED'} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p, encoding="utf-8").read()
a, b = "<!-- table -->\n", "<!-- end -->\n"
if a not in s:
    s = s.replace("TABLE\n", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w", encoding="utf-8").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
