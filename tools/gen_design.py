#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, known_findings.txt, seeded/ and evidence/ (quick)."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + "/tools/design.in.md").read()
fx = {}
for l in open(H + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fx.setdefault(m[1], []).append((m[2], m[3]))
s = s.replace("@FIXCOUNT@", str(sum(map(len, fx.values()))))
s = s.replace("@FIXES@", "\n".join("* **%s**: %s" % (p, "; ".join("%s (%s)" % (t, h) for h, t in fx[p])) for p in sorted(fx)))
rows = ["| change | property, caught by | what it needs | what it breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
s = s.replace("@SEEDS@", "\n".join(rows))
mf = H + "/tools/mutation.md"
s = s.replace("@MUT@", open(mf).read() if os.path.exists(mf) else "")
out = []
for f in sorted(glob.glob(H + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e["tier"] != "quick": continue
    n = c["spaces"]; rule = c["rule"]
    parts = rule.split("; ")
    # put each space on its own line
    txt = rule
    for k in n: txt = re.sub(r"(?:^|; )%s: " % re.escape(k), "\n  * `%s` (%d cases): " % (k, n[k]), txt, count=1)
    lines = [l for l in txt.split("\n") if l.strip()]
    if len(lines) > 12: lines = lines[:9] + ["  * ... %d further spaces of this kind, see the evidence" % (len(lines) - 9)]
    out.append("* **%s**: %d cases, %d states, %d transitions, %d traces executed on the implementation\n%s" % (
        e["property"], c["evaluations"], c["states"], c["transitions"], c["traces_validated_against_impl"], "\n".join(lines)))
s = s.replace("@SPACES@", "\n".join(out))
open(H + "/DESIGN.md", "w").write(s)
