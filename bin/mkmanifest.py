"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "bin"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "VP_HOOKS", "enable": "no hooks are needed: the checks compile /repo's sources unmodified", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "python3 bin/check.py <id> [--tier thorough] [--replay evidence/replay/<file>]; known findings and fixed defects are in known_findings.jsonl"}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"], "evidence_file": "evidence/%s.json" % p})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
