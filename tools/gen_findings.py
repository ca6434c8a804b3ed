"""Rewrites known_findings.json: `findings` are kept, `fixed` follows the fix commits of /repo (run by hand, not by checks)."""
import json
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(HERE, "tools", "fix_props.json")))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
fixed = []
for ln in log.splitlines():
    m = re.match(r"(\w+) fix: (.*)", ln)
    if not m:
        continue
    for pr in PROPS.get(m.group(2), ["C??"]):
        fixed.append("fixed: property=%s %s %s" % (pr, m.group(1), m.group(2)))
        if pr == "C??":
            print("no property for", ln)
d["fixed"] = fixed
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
