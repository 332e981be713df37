#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the catch results given (JSON)."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1]))
rows = ["| change | needs | breaks | reported by |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); r = res.get(i)
    by = f"{m['property']} quick, {r['t']} s" if r and r["rc"] == 1 else "missed" if r else "?"
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {by} |")
p = here + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
