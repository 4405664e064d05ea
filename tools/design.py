"""Writes DESIGN.md from tools/design_head.md, the specification and the
records below.   python3 tools/design.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec  # noqa: E402
HERE = spec.HERE
head = open(os.path.join(HERE, "tools", "design_head.md")).read()
out = [head, "\n## Properties and how each is decided\n"]
claimed = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
for s in spec.SPECS:
    if s["id"] not in claimed:
        continue
    out.append(f"\n### {s['id']} {s['title']}\n\n"
               f"*Statement.* {s['statement']}\n\n"
               f"*Generated.* {s['text']}.\n\n"
               f"*Decided by.* {s['technique']}. Oracle: {s['note']}.\n\n"
               f"*Beyond the tests.* {s['why']}\n")
    if s.get("more"):
        out.append(f"\n{s['more']}\n")
tail = os.path.join(HERE, "tools", "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out.append("\n## Genuine defects found and repaired\n\nEach is a `fix:` commit in /repo; "
           "`known_findings.json` has the same list. A `fixed` entry suppresses nothing.\n\n")
out += [f"- {x.removeprefix('fixed: ')}\n" for x in kf["fixed"]]
out.append("\n## Known findings (not repaired)\n\n")
out += [f"- {x['property']}: {x['what']}\n" for x in kf["findings"]] or ["None.\n"]
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
