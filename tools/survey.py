"""Run many plans without stopping and list the violation classes: survey.py C01 RUNS [seed]"""
import os
import collections
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, driver

pid, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
mod = driver.load_prop(pid)
driver.setup_process()
mod.prepare()
scratch = tempfile.mkdtemp(prefix="vsim_sv_", dir="/tmp")
import os
os.chmod(scratch, 0o755)
try:
    res = driver.run_many(mod, seed, tier, n, scratch, 3000, stop_on_violation=False)
finally:
    core.wipe(scratch)
by = collections.defaultdict(list)
tot = collections.Counter()
probes = collections.Counter()
flt = collections.Counter()
for r in res:
    tot[r["status"]] += 1
    probes.update(r["probes"])
    flt.update(r["faults"])
    if r["status"] != "ok":
        p = mod.generate(core.rng_for(seed, pid, r["i"]), tier)
        kind = ",".join(sorted(set(w["kind"] for w in p.get("worlds", []) if isinstance(w, dict) and "kind" in w)))
        by[(r["status"], r.get("cls"), kind)].append((r["i"], r.get("msg", "")))
print(dict(tot), dict(probes))
print(dict(flt))
for k in sorted(by, key=str):
    v = by[k]
    print(len(v), k, [i for i, _ in v[:6]])
    print("      ", v[0][1] if len(v[0][1]) < 700 else v[0][1][:350] + " ... " + v[0][1][-350:])
