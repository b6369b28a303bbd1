#!/usr/bin/env python3
"""Refresh the bounds and times of DESIGN.md's section 3 from tools/bounds.py and the evidence."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import bounds
path = os.path.join(here, "..", "DESIGN.md")
out, cur = [], None
for line in open(path):
    m = re.match(r"### (C\d\d) — (.*?)  \(\d+ s\)$", line.rstrip("\n"))
    if m:
        cur = m.group(1)
        t = re.search(r"\((\d+) s\)$", line).group(1)
        if "--times" in sys.argv:
            try:
                e = json.load(open(os.path.join(here, "..", "evidence", cur + ".json")))
                t = str(max(1, round(e["wall_s"])))
            except OSError:
                pass
        line = f"### {cur} — {m.group(2)}  ({t} s)\n"
    elif line.startswith("*Bounds:*") and cur:
        line = f"*Bounds:* {bounds.BOUNDS[cur]}.\n"
    elif line.startswith("*Outside:*") and cur:
        line = f"*Outside:* {bounds.OUTSIDE[cur] or 'nothing further'}.\n"
    out.append(line)
open(path, "w").write("".join(out))
