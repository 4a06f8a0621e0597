#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import ast, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.manifest_data import TECH, NOT_APPLICABLE
R = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in R("properties.jsonl").splitlines()]
out = [R("tools/design_head.md")]
out.append("## 2. Claimed properties\n\nThe specification of each check is the list of its rules (the same text is written to the evidence file).\n")
for p in props:
    i = p["id"]
    if i not in TECH:
        continue
    doc = ast.get_docstring(ast.parse(R("analysis/rules/%s.py" % i.lower())))
    out.append("### %s: %s\n\n%s\n\n*Method.* %s.\n\n*Rules.* %s\n\n*Extent.* %s\n" % (i, p["title"], p["statement"], TECH[i][0].rstrip("."), " ".join(doc.split()), TECH[i][1]))
    anchors = p.get("anchors")
    if anchors:
        out.append("*Anchors.* %s\n" % ", ".join("`%s`" % (a if isinstance(a, str) else a.get("file", a.get("path", str(a)))) for a in (anchors["files"] if isinstance(anchors, dict) else anchors)))
out.append("## 3. Properties that are not claimed\n")
for p in props:
    if p["id"] not in TECH:
        out.append("* **%s** (%s): %s" % (p["id"], p["title"], NOT_APPLICABLE.get(p["id"], "no check has been built")))
out.append("\n## 4. Findings and planted bugs\n\n### Defects found in tiro\n\nFixed defects are `fix:` commits in /repo; entries without a commit are recorded and reported as KNOWN-FINDING.\n")
k = json.load(open(os.path.join(V, "known_findings.json")))
for e in k.get("fixed", []):
    out.append("* " + (e if isinstance(e, str) else "fixed: property=%s %s %s" % (e.get("property"), e.get("commit"), e.get("what"))))
for e in k.get("findings", k.get("known", [])):
    out.append("* KNOWN %s: %s" % (e.get("property"), e.get("what") or e.get("key")))
out.append("\n### Planted bugs\n\n`seeded/<id>` holds the patch, the demonstration and what it needs to manifest. Each was confirmed to build and to pass all stable tests.\n\n| id | property | what it breaks | caught by |\n| --- | --- | --- | --- |")
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], caught.get(s, "?")))
out.append("\nIn addition each rule was tested with mutations of the code it covers (about 330 in total, not kept); a mutation that was not reported led either to a\nstronger rule or is listed above as equivalent or in the extent of the property as not decided.\n")
out.append(R("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
