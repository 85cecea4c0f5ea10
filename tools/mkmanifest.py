"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(root, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="bash run.sh %s quick" % p, thorough_cmd="bash run.sh %s thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique=TECH[p], level="exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason="no check yet"))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
               notes="Every check builds the extension and its own entry points from the working tree of /repo into /verif/.build, runs the built code in separate "
                     "processes and judges what they did; violations are written to /verif/replays and can be run again with run.sh ID --replay FILE. "
                     "known_findings.json lists the defects that were repaired."), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
