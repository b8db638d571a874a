#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) and SPACES.md from seeded/*/meta.json and evidence/*.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = dict(l.split(None, 1) for l in open(os.path.join(H, "tools/missed.txt")).read().splitlines() if l.strip())
by = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(f)); by.setdefault(d["property"], []).append((f.split("/")[-2], d["needs"]))
order = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
out = []
for p in order:
    if p not in by: continue
    out.append("* **%s**: " % p + "; ".join("`%s` (%s)%s" % (i, n.rstrip("."), " - *first missed*; led to: " + MISSED[i] if i in MISSED else "") for i, n in by[p]))
n = sum(len(v) for v in by.values())
t = "%d planted bugs, %d of them missed by the checks as they were when the bug was planted.\n\n%s\n" % (n, sum(i in MISSED for v in by.values() for i, _ in v), "\n".join(out))
s = open(H + "/DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
o = ["# Explored spaces (quick tier, as of the last full run; generated by tools/mkdocs.py from evidence/)\n"]
for p in order:
    e = json.load(open("%s/evidence/%s.json" % (H, p)))
    o.append("\n## %s\n" % p)
    seen = {}
    for sp in e["coverage"]["spaces"]:
        k = (sp["space"], sp["bound"])
        seen.setdefault(k, [[], 0]); seen[k][0].append(sp.get("config", "")); seen[k][1] = max(seen[k][1], sp.get("execs", sp.get("executions", 0)))
    for (a, b), (c, x) in seen.items(): o.append("* %s: %s; %s executions (%s)" % (a, b, format(x, ","), ", ".join(filter(None, c)) or "all"))
open(H + "/SPACES.md", "w").write("\n".join(o) + "\n")
