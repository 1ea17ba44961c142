#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
t = {}
for m in glob.glob(V + "/seeded/*/meta.json"):
    t.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, t.values()))
p = V + "/DESIGN.md"
s = open(p).read()
rows = "".join(f"| {k} | {', '.join(sorted(v))} |\n" for k, v in sorted(t.items()))
s = re.sub(r"\| C\d\d \|[^\n]*\n(\| C\d\d \|[^\n]*\n)*", lambda m: rows, s, count=1)
s = re.sub(r"\d+ planted bugs are kept", f"{n} planted bugs are kept", s)
s = re.sub(r"tools/seeds/\{[a-z,]*\}", "tools/seeds/{a,b,c,d,e,f,g}", s)
open(p, "w").write(s)
