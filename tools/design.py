#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, known_findings.jsonl, seeded/ and the sizes of the spaces."""
import json, os, subprocess, re, collections
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(home + "/tools/design.md").read()
known = [json.loads(l) for l in open(home + "/known_findings.jsonl") if l.startswith("{")]
d = d.replace("@KNOWN@", "\n".join(f"* {k['property']}: {k['what']}" for k in known))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
p = home + "/tools/seeded.json"
if os.path.exists(p):
    res = json.load(open(p))
for s in sorted(os.listdir(home + "/seeded")):
    m = home + f"/seeded/{s}/meta.json"
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append(f"| {s} | {m['property']} | {m['needs']} | {', '.join(res.get(s, [])) or 'not run yet'} |")
d = d.replace("@SEEDED@", "\n".join(rows))
out = subprocess.run([home + "/run.sh", "sizes"], capture_output=True, text=True).stdout
t = collections.OrderedDict()
cur = None
for l in out.splitlines():
    m = re.match(r"(C\d\d) (quick|thorough) (\d+)$", l)
    if m:
        cur = m.group(1, 2)
        t.setdefault((m.group(1), ""), {})[m.group(2)] = int(m.group(3))
    else:
        m = re.match(r"\s*(\d+) (.*)$", l)
        t.setdefault((cur[0], m.group(2)), {})[cur[1]] = int(m.group(1))
rows = ["| | space | quick | thorough |", "|---|---|---|---|"]
for (p, s), v in t.items():
    rows.append(f"| {p if not s else ''} | {s or '**all**'} | {v.get('quick', 0):,} | {v.get('thorough', 0):,} |")
d = d.replace("@SIZES@", "\n".join(rows))
open(home + "/DESIGN.md", "w").write(d)
