#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md + the catalogue of planted bugs (seeded/*/meta.json, tools/plants/missed.txt)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(f"{V}/tools/design_body.md").read().rstrip(), "", open(f"{V}/tools/design_plants.md").read().rstrip(), ""]
hist = {}
p = f"{V}/tools/plants/history.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip(): a, b = l.rstrip("\n").split(None, 1); hist[a] = b
out += ["| planted bug | caught by | needs | note |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    out.append(f"| {d} | {m['property']} | {c(m['needs'])} | {c(hist.get(d, ''))} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
