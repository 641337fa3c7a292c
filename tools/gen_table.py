#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md, from the output of
tools/try.py (a file, or - to keep the results that the table has)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/DESIGN.md"
s = open(D).read()
mark = "### Table\n"
head, _, old = s.partition(mark)
res = dict(re.findall(r"^\| (\S+) \| ([^|]*) \|", old, re.M))
if sys.argv[1] != "-":
    for l in open(sys.argv[1]):
        m = re.match(r"(\S+): (?:caught by ((?:C\d+ ?)+)|MISSED)", l)
        if m: res[m[1]] = (m[2] or "none").strip()
out = ["| bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    n = json.load(open(d + "meta.json"))["needs"]
    out.append(f"| {i} | {res.get(i, '?')} | {n.replace('|', '/')} |")
open(D, "w").write(head + mark + "\n" + "\n".join(out) + "\n")
