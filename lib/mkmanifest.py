"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from registry import CHECKS
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 lib/embuild.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p][3], "level": CHECKS[p][2], "level_note": CHECKS[p][4]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
