"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": NOTE[i]["technique"], "level": "exploration", "level_note": NOTE[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTE["na"].get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: storage is put behind a seam by preloading build/simio.so, process and thread "
              "pools by replacing the names that viscid.parallel looks up at call time."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
