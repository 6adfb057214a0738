#!/usr/bin/env python3
"""DESIGN.md = docs/design_*.md + tables from MANIFEST.json, known_findings.json and seeded/*/meta.json"""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *a: open(os.path.join(R, *a)).read()
m = json.loads(rd("MANIFEST.json"))
k = json.loads(rd("known_findings.json"))
out = [rd("docs", "design_head.md"), rd("docs", "design_body.md")]
out.append("## 3. Not applicable\n")
out += [f"* **{x['property']}**: {x['reason']}" for x in m["not_applicable"]]
out.append("\n## 4. Defects found in the repository\n\nRepaired (`fix:` commits in /repo):\n")
out += ["* " + f.replace("fixed: property=", "") for f in sorted(k["fixed"])]
out.append("\nRecorded, not repaired (`known_findings.json`, keyed by rule and construct):\n")
out += [f"* {f['property']} `{f['key']}`: {f['what']}" for f in k["findings"]]
out.append("")
out.append(rd("docs", "design_tail.md"))
out.append("## 7. Planted bugs (`seeded/`)\n\nEach was written from the text of a property and the code, has a demonstration (0 on the unchanged "
           "tree, non-zero with the patch)\nand passes the stable tests. Column *caught by* is what `tools/try_bug.sh` showed.\n\n"
           "| id | property | needs | breaks | caught by |\n|----|----|----|----|----|")
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
