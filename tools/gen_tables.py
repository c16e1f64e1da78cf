#!/usr/bin/env python3
"""Refreshes the tables of DESIGN.md between their markers: measured coverage from evidence/*.json
(quick tier runs) and the planted changes from seeded/*/meta.json and tools/planted.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
text = open(path).read()

def put(name, lines):
    global text
    pat = re.compile(r"(<!-- %s -->\n).*?(<!-- end %s -->)" % (name, name), re.S)
    assert len(pat.findall(text)) == 1, name
    text = pat.sub(lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), text)

def n(x): return f"{x:,}"

rows = ["| id | cases | evaluations | distinct | further counts | phases | seconds |", "|---|---|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e.get("tier") != "quick": continue
    c = e["coverage"]
    more = ", ".join(f"{k.replace('_', ' ')} {n(v)}" for k, v in c.items()
                     if type(v) is int and k not in ("cases", "evaluations", "distinct_nontrivial") and v)
    wall = sum(p["wall_s"] for p in c["phases"].values())
    rows.append(f"| {e['property']} | {n(c['cases'])} | {n(c['evaluations'])} | {n(c['distinct_nontrivial'])} | {more} | {len(c['phases'])} | {wall:.0f} |")
if len(rows) > 2: put("coverage", rows)

notes = json.load(open(os.path.join(here, "tools", "planted.json")))
rows = ["| planted change | property | what it takes to see it | caught |", "|---|---|---|---|"]
ids = sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(here, "seeded", "*", "meta.json")))
for i in ids:
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    needs = m["needs"].replace("|", "\\|").replace("\n", " ")
    p = notes.get(i, "not run")
    rows.append(f"| {i} | {m['property']} | {needs} | {p} |")
put("planted", rows)
count = {}
for i in ids: count[notes.get(i, "not run")] = count.get(notes.get(i, "not run"), 0) + 1
put("planted-sum", [f"{len(ids)} planted changes: " + "; ".join(f"{v} {k}" for k, v in sorted(count.items(), key=lambda x: -x[1])) + "."])
open(path, "w").write(text)
