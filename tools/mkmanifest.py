#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX, FE = "exploration", "fault_enumeration"
CLAIMED = json.load(open(HERE + "/tools/checks.json"))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CLAIMED:
        t, lvl, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                           thorough_cmd="python3 check.py %s thorough" % i,
                           technique=t, level=lvl, level_note=note))
na = [dict(property=i, reason="the monitor for it is still being built") for i in ids if i not in CLAIMED]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks in /repo: the monitors are a separate module in harness/ that uses the "
                    "exported API; two small files (overlay/) are added to the build with 'go build -overlay' and nothing is "
                    "changed in /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check.py builds harness/ against /repo's working tree, runs it in several processes and merges what they observed. "
               "Commits in /repo are repairs of defects only (known_findings.json, DESIGN.md).")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(HERE + "/MANIFEST.json", "a").write("\n")
