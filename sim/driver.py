"""Driver: seeded search over plans, minimisation, replay, evidence.

usage: python -m sim.driver check C01 quick|thorough
       python -m sim.driver replay FILE
       python -m sim.driver selftest [C01 ...]
"""
import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
WORKERS = int(os.environ.get("VSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
WALL_GUARD = {"quick": 420.0, "thorough": 3300.0}

from sim import core, simio            # noqa: E402
from sim.core import Violation         # noqa: E402


def load_prop(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())


def setup_process():
    """import the code under test once, in a neutral state; every run is a fork of this"""
    simio.lib()
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


# ------------------------------------------------------------------ one run in a forked process
def run_plan(mod, plan, scratch, tag, wall=90.0, cpu=None, keep_events=True):
    """execute a plan in a fork; returns a result dict"""
    cpu = cpu or getattr(mod, "CPU_LIMIT", 40)
    root = os.path.join(scratch, tag)
    os.makedirs(root)
    root = os.path.realpath(root)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VSIM_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            # when garbage is collected must not depend on what this process did before
            gc.freeze()
            gc.collect()
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
            cwd = os.path.join(root, "cwd")
            os.makedirs(cwd)
            os.chdir(cwd)
            env = core.Env(root)
            if os.environ.get("VSIM_HANG"):     # where a run that makes no progress is
                import faulthandler
                faulthandler.dump_traceback_later(30, file=open(os.environ["VSIM_HANG"] + ".%d" % os.getpid(), "w"))
            res = {}
            try:
                mod.execute(plan, env)
                res["status"] = "ok"
            except Violation as e:
                res.update(status="violation", cls=e.cls, msg=e.msg)
            except MemoryError:
                res.update(status="harness", cls="MemoryError", msg=traceback.format_exc()[-2000:])
            except BaseException as e:
                res.update(status="harness", cls=type(e).__name__,
                           msg=traceback.format_exc()[-3000:].replace(root, "$ROOT"))
            simio.reset()
            simio.set_root(None)
            res.update(evhash=env.event_hash(), probes=env.probes, faults=env.faults, steps=env.steps,
                       simtime=env.simtime, sigs=sorted(env.sigs))
            if keep_events or res["status"] != "ok":
                res["events"] = env.events[-400:]
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.monotonic()
    data = b""
    hung = False
    while True:
        left = wall - (time.monotonic() - t0)
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)      # anything the run left behind
    except OSError:
        pass
    try:
        core.wipe(root)
    except AssertionError:
        pass
    rc = os.waitstatus_to_exitcode(st)
    res = None
    if data and not hung:
        try:
            res = json.loads(data.decode())
        except ValueError:
            res = None
    if res is None:
        base = dict(evhash="", probes={}, faults={}, steps=0, simtime=0.0, sigs=[], events=[])
        if hung:
            base.update(status="violation", cls="no-progress", msg="the run made no progress within %.0f s" % wall)
        elif rc == -signal.SIGXCPU:
            base.update(status="violation", cls="no-progress", msg="the run used more than %d s of CPU" % cpu)
        elif rc == -signal.SIGKILL:
            base.update(status="harness", cls="killed", msg="the run was killed from outside")
        else:
            base.update(status="violation", cls="interpreter-died",
                        msg="the interpreter running the library ended with %s" %
                        ("signal %d" % -rc if rc < 0 else "exit status %d" % rc))
        res = base
    if res["status"] == "violation" and res["cls"] == "no-progress":
        res["evhash"] = "hung"
    return res


# ------------------------------------------------------------------ many runs
def worker_main(mod, seed, tier, indices, scratch, wfd, deadline, stopfd):
    for i in indices:
        if time.monotonic() > deadline:
            os.write(wfd, (json.dumps({"i": -1, "status": "guard"}) + "\n").encode())
            break
        if select.select([stopfd], [], [], 0)[0]:
            break
        try:
            plan = mod.generate(core.rng_for(seed, mod.ID, i), tier)
            res = run_plan(mod, plan, scratch, "r%06d" % i, keep_events=False)
        except Exception:
            res = dict(status="harness", cls="driver", msg=traceback.format_exc(), probes={}, faults={}, steps=0,
                       simtime=0, sigs=[], evhash="")
        res["i"] = i
        res.pop("events", None)
        os_write_all(wfd, (json.dumps(res) + "\n").encode())


def os_write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def run_many(mod, seed, tier, n, scratch, wall, workers=None, on_result=None, stop_on_violation=True):
    workers = workers or WORKERS
    deadline = time.monotonic() + wall
    procs = []
    sr, sw = os.pipe()
    for k in range(workers):
        r, w = os.pipe()
        idx = list(range(k, n, workers))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(sw)
                sub = os.path.join(scratch, "w%d" % k)
                os.makedirs(sub)
                worker_main(mod, seed, tier, idx, sub, w, deadline, sr)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    bufs = {r: b"" for _, r in procs}
    results = []
    stopped = False
    live = set(bufs)
    while live:
        rl, _, _ = select.select(list(live), [], [], 5.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                d = json.loads(ln.decode())
                results.append(d)
                if on_result:
                    on_result(d)
                if d["status"] in ("violation", "harness") and stop_on_violation and not stopped:
                    stopped = True
                    os.write(sw, b"x" * workers)
    for pid, _ in procs:
        os.waitpid(pid, 0)
    os.close(sr)
    os.close(sw)
    results.sort(key=lambda d: d.get("i", -1))
    return results


# ------------------------------------------------------------------ minimisation
def minimise(mod, plan, cls, scratch, budget_s=60.0, budget_n=300):
    t0 = time.monotonic()
    n = [0]
    hang = cls == "no-progress"

    def fails(p):
        if n[0] >= (6 if hang else budget_n) or time.monotonic() - t0 > budget_s:
            return False
        n[0] += 1
        res = run_plan(mod, p, scratch, "m%05d" % n[0], keep_events=False)
        return res["status"] == "violation" and res["cls"] == cls

    cur = plan
    changed = True
    while changed and time.monotonic() - t0 < budget_s and n[0] < budget_n:
        changed = False
        # drop chunks, then single steps, of every list named by the property
        for key in getattr(mod, "SHRINK_LISTS", ["ops"]):
            lst = cur.get(key)
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(cur[key]):
                    cand = dict(cur)
                    cand[key] = cur[key][:i] + cur[key][i + size:]
                    if len(cand[key]) < len(cur[key]) and fails(cand):
                        cur = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        if hasattr(mod, "shrink"):
            for cand in mod.shrink(cur):
                if cand != cur and fails(cand):
                    cur = cand
                    changed = True
                    break
    return cur, n[0]


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


# ------------------------------------------------------------------ commands
def cmd_check(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_prop(pid)
    setup_process()
    mod.prepare()
    print("check %s tier=%s seed=%d workers=%d" % (pid, tier, seed, WORKERS), flush=True)
    n = int(os.environ.get("VSIM_RUNS", "0")) or mod.RUNS[tier]
    scratch = tempfile.mkdtemp(prefix="vsim_%s_" % pid.lower(), dir=os.environ.get("VSIM_TMP", "/tmp"))
    os.chmod(scratch, 0o755)
    rc = 0
    try:
        # witnesses of recorded findings: shown on every run, never counted as a violation
        known_cls = set()
        for k in known_findings(pid):
            res = run_plan(mod, k["plan"], scratch, "k%s" % k["id"])
            if res["status"] == "violation" and res["cls"] == k["cls"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]), flush=True)
                if k.get("whole_class"):
                    known_cls.add(k["cls"])
            elif res["status"] == "violation":
                print("note: witness of %s now fails differently: %s %s" % (k["id"], res["cls"], res["msg"]))
                rc = report(mod, pid, seed, tier, -1, k["plan"], res, scratch)
        agg = dict(n=0, steps=0, simtime=0.0, probes={}, faults={}, sigs=set(), hashes=set(), nontriv=0)

        def on_result(d):
            if d.get("i", -1) < 0:
                return
            agg["n"] += 1
            agg["steps"] += d["steps"]
            agg["simtime"] += d["simtime"]
            for k, v in d["probes"].items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            for k, v in d["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            agg["sigs"].update(d["sigs"])
            if d["evhash"] not in agg["hashes"]:
                agg["hashes"].add(d["evhash"])
                if d["steps"] > 0:
                    agg["nontriv"] += 1
        tr = time.monotonic()
        if rc == 0:
            results = run_many(mod, seed, tier, n, scratch, WALL_GUARD[tier], on_result=on_result)
        else:
            results = []
        wall_runs = time.monotonic() - tr
        guard = any(r["status"] == "guard" for r in results)
        bad = [r for r in results if r["status"] in ("violation", "harness") and r.get("cls") not in known_cls]
        violations = 0
        if bad:
            # violations are reported first; a harness failure is re-run alone before it is believed
            bad.sort(key=lambda r: (r["status"] != "violation", r["i"]))
            for r in bad[:8]:
                plan = mod.generate(core.rng_for(seed, pid, r["i"]), tier)
                res = run_plan(mod, plan, scratch, "c%06d" % r["i"])
                if res["status"] == "ok":
                    print("note: run %d failed (%s) but not when repeated: %s" % (r["i"], r.get("cls"), r.get("msg")))
                    continue
                if res["status"] == "harness":
                    if is_environment(res):
                        print("HARNESS-ERROR run %d: %s" % (r["i"], res["msg"]), flush=True)
                        rc = rc or 2
                        continue
                    # the code under test returned something the harness cannot interpret
                    res["status"] = "violation"
                    res["cls"] = "uninterpretable:%s" % res["cls"]
                violations += 1
                rc = report(mod, pid, seed, tier, r["i"], plan, res, scratch)
                break
            else:
                if rc == 0 and any(r["status"] == "violation" for r in bad):
                    print("HARNESS-ERROR: a failure did not repeat; the simulation is not deterministic", flush=True)
                    rc = 2
        samples = []
        for i in (0, 1, 2):
            samples.append({"index": i, "plan": mod.generate(core.rng_for(seed, pid, i), tier)})
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": agg["n"], "distinct_nontrivial": agg["nontriv"],
                "rule": mod.RULE, "samples": json.loads(json.dumps(samples))[:3],
                "runs_per_hour": round(agg["n"] / max(wall_runs, 1e-9) * 3600),
                "seeds_per_hour": round(agg["n"] / max(wall_runs, 1e-9) * 3600),
                "steps": agg["steps"], "simulated_time_s": round(agg["simtime"], 3),
                "faults_fired": dict(sorted(agg["faults"].items())),
                "faults_fired_total": sum(agg["faults"].values()),
                "probes": dict(sorted(agg["probes"].items())),
                "distinct_histories": len(agg["hashes"]),
                "distinct_states": len(agg["sigs"]), "state_measure": getattr(mod, "STATE_MEASURE", ""),
                "real_components": mod.REAL, "stubbed_components": mod.STUB,
                "planned_runs": n, "wall_guard_hit": guard,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.monotonic() - t0, 2), "violations": violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))
        zero = [p for p in getattr(mod, "PROBES", []) if not agg["probes"].get(p)]
        if zero and rc == 0:
            print("note: probes never hit: %s" % ", ".join(zero))
        print("%s: %d runs, %d distinct histories, %d steps, %d faults fired, %.1f s -> exit %d" %
              (pid, agg["n"], len(agg["hashes"]), agg["steps"], sum(agg["faults"].values()),
               time.monotonic() - t0, rc), flush=True)
    finally:
        core.wipe(scratch)
    return rc


def is_environment(res):
    m = res["msg"]
    return res["cls"] in ("MemoryError", "killed", "HarnessError", "driver") or "No space left" in m or \
        "Cannot allocate memory" in m or "Resource temporarily unavailable" in m


def report(mod, pid, seed, tier, index, plan, res, scratch):
    cls = res["cls"]
    small, tried = plan, 0
    if not cls.startswith("uninterpretable"):
        small, tried = minimise(mod, plan, cls, scratch)
    final = run_plan(mod, small, scratch, "final")
    if final["status"] != "violation" and not cls.startswith("uninterpretable"):
        small, final = plan, res
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-s%d-r%d.json" % (pid, seed, index))
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "run": index, "class": cls,
                   "message": final.get("msg", res["msg"]), "plan": small, "original_plan": plan,
                   "minimisation_runs": tried, "event_hash": final.get("evhash"),
                   "events": final.get("events", [])}, f, indent=1)
    print("violation class %s: %s" % (cls, final.get("msg", res["msg"])))
    for e in final.get("events", [])[-25:]:
        print("   " + core.short(e, 200))
    print("minimised plan: %s" % core.short(json.dumps(small), 1500))
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1


def cmd_replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_prop(d["property"])
    setup_process()
    mod.prepare()
    scratch = tempfile.mkdtemp(prefix="vsim_replay_", dir=os.environ.get("VSIM_TMP", "/tmp"))
    os.chmod(scratch, 0o755)
    try:
        res = run_plan(mod, d["plan"], scratch, "r0")
    finally:
        core.wipe(scratch)
    for e in res.get("events", []):
        print("   " + e)
    if res["status"] == "ok":
        print("replay: the run passes")
        return 0
    same = res.get("evhash") == d.get("event_hash")
    print("replay: %s %s (history %s)" % (res.get("cls"), res.get("msg"), "identical" if same else "differs"))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def cmd_selftest(pids, n=40):
    """determinism: the same seeds twice, at two worker counts; prints a hash per property to compare across processes"""
    import hashlib
    setup_process()
    bad = 0
    for pid in pids:
        mod = load_prop(pid)
        mod.prepare()
        hs = []
        for wk in (WORKERS, 3):
            scratch = tempfile.mkdtemp(prefix="vsim_st_", dir=os.environ.get("VSIM_TMP", "/tmp"))
            os.chmod(scratch, 0o755)
            try:
                res = run_many(mod, 7, "quick", n, scratch, 600, workers=wk, stop_on_violation=False)
            finally:
                core.wipe(scratch)
            hs.append([(r["i"], r["status"], r["evhash"]) for r in res])
        diff = [a[0] for a, b in zip(*hs) if a != b]
        st = {}
        for r in hs[0]:
            st[r[1]] = st.get(r[1], 0) + 1
        print("%s %s %s %s" % (pid, hashlib.sha256(repr(hs[0]).encode()).hexdigest()[:16],
                               "deterministic" if not diff else "DIVERGES at %s" % diff[:10], st), flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        return cmd_check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if cmd == "replay":
        return cmd_replay(argv[1])
    if cmd == "selftest":
        return cmd_selftest(argv[1:])
    raise SystemExit("unknown command")


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR", flush=True)
        code = 2
    sys.stdout.flush()
    os._exit(code)
