#!/usr/bin/env python3
"""mkseedtable.py LOG: rewrites the table of planted changes in DESIGN.md from a
log of lines "<seed> <output of tools/try.sh>"."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hits = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) CAUGHT\s+case ([^:]*):", l)
    if m:
        hits.setdefault(m[1], []).append((m[2], m[3].split("/")[0]))
out = ["| change | needs | caught by (first case) |", "|---|---|---|"]
for s in sorted(os.listdir(here + "/seeded")):
    meta = json.load(open(f"{here}/seeded/{s}/meta.json"))
    got = ", ".join(f"{p} `{c}`" for p, c in hits.get(s, [])) or "not caught"
    out.append(f"| {s} | {meta['needs'].replace('|', '/')} | {got} |")
p = here + "/DESIGN.md"
d = open(p).read()
d = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(out) + "\n" + m[2], d, flags=re.S)
open(p, "w").write(d)
