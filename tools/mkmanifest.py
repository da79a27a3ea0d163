#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib", V + "/checks"]
import run
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           technique=NOTES[i][0], level="model_checking", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="not claimed yet: its check is being built"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. Checks generate a scratch Go module that uses /repo, drive it through scenarios TLC enumerated and have TLC validate the recorded behaviour. No hooks in /repo are needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
