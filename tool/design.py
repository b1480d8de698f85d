#!/usr/bin/env python3
"""assembles DESIGN.md from tool/design_head.md, tool/props.py, tool/design_props.py, seeded/*/meta.json and known_findings.txt"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), technique="", note="", na=None):
    P.append((id, title, technique, note, na))


exec(open(V + "/tool/props.py").read())
exec(open(V + "/tool/design_props.py").read())
out = [open(V + "/tool/design_head.md").read().rstrip()]
P.sort()
for id, title, tech, note, na in P:
    if na is None:
        out.append("### %s %s\n\n%s\n\nDeciding technique: %s. Limits: %s." % (id, title, D[id], tech, note or "none beyond the general ones"))
out.append("## 3. Properties static analysis does not decide here\n")
out.append("\n".join("* **%s %s**: %s" % (p[0], p[1], p[4]) for p in P if p[4]))
out.append("## 4. Planted changes and the checks that catch them\n\nEvery change below builds, passes the stable tests, has a demonstration that fails with it, and is reported (exit 1) by the check of its own property.\n\n| change | property | what it breaks | what it needs |\n|---|---|---|---|")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"].replace("|", "/"), str(j["needs"]).replace("|", "/")))
out[-1] += "\n" + "\n".join(rows)
fx = [l.strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:")]
kn = [l.strip() for l in open(V + "/known_findings.txt") if l.startswith("known:")]
out.append("## 5. Genuine defects found\n\nRepaired in /repo (one `fix:` commit each):\n\n" +
           "\n".join("* " + re.sub(r"fixed: property=(\S+) (\S+) ", r"%s `\2`: " % r"\1", l) for l in fx) +
           "\n\nRecorded, not repaired (printed as KNOWN-FINDING on every run):\n\n" + "\n".join("* " + l for l in kn))
out.append(open(V + "/tool/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n\n".join(out) + "\n")
