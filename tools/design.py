#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from DESIGN.in.md, the drivers, the rules and seeded/."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from check import properties_of
from absint.harness import scenarios
import rules
s = open(HERE + "/DESIGN.in.md", encoding="utf-8").read()
where = {}
for path in sorted(glob.glob(HERE + "/drivers/*.py")):
    class M: tree = ast.parse(open(path, encoding="utf-8").read())
    for fn in scenarios(M):
        for p in set(properties_of(fn)):
            d = where.setdefault(p, {})
            d[os.path.basename(path)] = d.get(os.path.basename(path), 0) + 1
rows = []
na = []
man = json.load(open(HERE + "/MANIFEST.json"))
nas = {n["property"]: n["reason"] for n in man["not_applicable"]}
for l in open(HERE + "/properties.jsonl", encoding="utf-8"):
    p = json.loads(l)
    if p["id"] in nas:
        na.append("\n* %s %s: %s." % (p["id"], p["title"], nas[p["id"]]))
        continue
    w = ", ".join("%s (%d)" % kv for kv in sorted(where.get(p["id"], {}).items()))
    r = [f.__doc__.strip().split(":")[0].replace("\n", " ") for f in rules.RULES.get(p["id"], [])]
    r = [re.sub(" +", " ", x) for x in r]
    rows.append("| %s | %s | %s | %s |" % (p["id"], p["title"], " + ".join((["A"] if w else []) + (["B"] if r else [])), w + ("; rules: " if r and w else "rules: " if r else "") + "; ".join(r)))
seeds = []
res = json.load(open(HERE + "/tools/seed_results.json")) if os.path.exists(HERE + "/tools/seed_results.json") else {}
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    seeds.append("* `%s` (%s): %s. %s" % (i, m["property"], m["what_it_breaks"], res.get(i, "")))
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@NA@@", "".join(na)).replace("@@SEEDS@@", "\n".join(seeds))
s = s.replace("@@FIXED@@", str(sum(1 for l in open(HERE + "/known-findings.txt") if l.startswith("fixed:"))))
open(HERE + "/DESIGN.md", "w", encoding="utf-8").write(s)
