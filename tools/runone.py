"""runone.py C01 INDEX [seed] : run one plan, show its history"""
import os
import json
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, driver
pid, i = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
mod = driver.load_prop(pid)
driver.setup_process()
mod.prepare()
plan = mod.generate(core.rng_for(seed, pid, i), "quick")
scratch = tempfile.mkdtemp(prefix="vsim_one_", dir="/tmp")
import os
os.chmod(scratch, 0o755)
try:
    r = driver.run_plan(mod, plan, scratch, "a")
    if "-m" in sys.argv and r["status"] == "violation":
        plan, _ = driver.minimise(mod, plan, r["cls"], scratch)
        r = driver.run_plan(mod, plan, scratch, "b")
finally:
    core.wipe(scratch)
if "-s" not in sys.argv:
    print(json.dumps({k: v for k, v in plan.items() if k != "ops"})[:3000])
for k in ("ops", "threads"):
    for o in plan.get(k, []):
        print("   ", k, json.dumps(o)[:600])
for e in r.get("events", []):
    print("  ", e[:400])
print(r["status"], r.get("cls"), r.get("msg"))
