"""Writes DESIGN.md from the text below, the properties, the evidence of the last run, the
planted bugs and the findings."""
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props1, props2, props3  # noqa
from claims import CLAIMS, NA
from design_text import HEAD, HOW, TAIL, MISSED

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.setdefault(m["property"], []).append((d.split("/")[-2], m))
fixed = {}
for line in open(V + "/known_findings.txt"):
    if line.startswith("fixed:"):
        w = line.split()
        fixed.setdefault(w[1].split("=")[1], []).append((w[2], " ".join(w[3:])))
out = [HEAD]
for q in props1.P:
    i = q["id"]
    out.append("### %s. %s\n" % (i, q["title"]))
    if i not in CLAIMS:
        out.append("Not applicable: %s.\n" % NA[i])
        continue
    out.append(HOW[i].strip() + "\n")
    try:
        c = json.load(open("%s/evidence/%s.json" % (V, i)))["coverage"]
        out.append("*Analysed on the last run:* %d functions, %d obligations (%s), %d "
                   "undecided.\n" % (c["functions_analysed"], c["obligations"], ", ".join(
                       "%s %d" % (k, v["sites"]) for k, v in sorted(c["rules"].items())),
                       len(c.get("undecided", []))))
    except IOError:
        pass
    out.append("*Why tests cannot settle it:* %s.\n" % q["why"])
    if i in fixed:
        out.append("*Defects found and repaired:*\n")
        out.extend("- %s: %s" % (a, b) for a, b in fixed[i])
        out.append("")
    for text, which in (("caught", lambda n: n not in MISSED), ("missed", MISSED.__contains__)):
        found = ["`%s` (%s)" % (n, m["what_it_breaks"].rstrip("."))
                 for n, m in seeds.get(i, ()) if which(n)]
        if found:
            out.append("*Planted bugs %s:* %s.\n" % (text, "; ".join(found)))
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
