#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from seeded/, tools/seed_results.json and tools/mutation.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(n):
    f = os.path.join(V, "tools", n)
    return json.load(open(f)) if os.path.exists(f) else {}


def put(s, mark, rows):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    return s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]


res = load("seed_results.json")
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = res.get(i, "not run")
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], m["property"] if r == "caught" else "**%s** (%s)" % (r, m["property"])))
mut = load("mutation.json")
mrows = ["| file | mutants | killed | survivors, as read by hand |", "|---|---|---|---|"]
for f, d in mut.items():
    mrows.append("| %s | %s | %s | %s |" % (f, d["mutants"], d["killed"], d["survivors"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = put(put(s, "SEEDS", rows), "MUT", mrows)
open(p, "w").write(s)
print(len(rows) - 2, "bugs,", sum(res.get(i) == "caught" for i in os.listdir(os.path.join(V, "seeded"))), "caught")
