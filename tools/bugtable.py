#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "## Planted bugs"
s = s[:s.index(head)] + head + "\n"
notes = os.path.join(V, "tools", "bugnotes.md")
s += open(notes).read() + "\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    s += f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
open(p, "w").write(s)
