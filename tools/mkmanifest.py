#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/registry.py (claimed checks) and properties.jsonl."""
import json, os, sys
sys.path.insert(0, '/verif')
from vf import registry
NOTES = registry.NOTES
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=NOTES[i][0], level="model_checking", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check not built yet")))
doc = dict(version=1, setup_cmd="python3 tools/setup.py",
           hooks=dict(guard="none", enable="no hooks are needed: every observation point is public API or a written file", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="Level 'model_checking': TLA+ specifications in spec/ checked with TLC; the real code's runs are judged by TLC trace specifications. Specification-level results are exhaustive within the constants of spec/*.cfg; conformance covers the cases counted in the evidence.")
with open('/verif/MANIFEST.json', 'w') as f:
    json.dump(doc, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
