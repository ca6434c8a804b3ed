"""C11: file handles are given back, after success and after failure."""
import gc
import os
import resource

import numpy as np

from sim import core, formats, mix, session, simio
from sim.session import gen_fault, seeded

ID = "C11"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of operations and results differs from every other run's; after every operation the open "
        "files of the process are counted")
REAL = ["viscid readers of all formats, savers, bucket, dataset, grid, field", "compiled Fortran reader", "h5py/HDF5, numpy, "
        "libgfortran, libc stdio above the system call layer"]
STUB = ["the simulator writes and damages the files; system calls on files below the run's directory pass a layer that injects "
        "faults and knows which of its descriptors are open; the limit of open files is set by the simulator"]
STATE_MEASURE = "operation x formats x damage on disk x outcome under fault x objects held"
PROBES = ["compared", "failed_ops", "saves_failed", "held_reads", "tight_limit"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    p = mix.gen_plan(rng, tier)
    nw = len(p["worlds"])
    ops = []
    for op in p["ops"]:
        ops.append(op)
        r = rng.random()
        fl = [gen_fault(rng, sticky=0.4)] if rng.random() < 0.5 else []
        if r < 0.12:
            ops.append(["hold", rng.randrange(nw), rng.choice(["grid", "field", "iterator", "fields"]), rng.randint(0, 99), fl])
        elif r < 0.22:
            ops.append(["held", rng.randint(0, 99), fl])
        elif r < 0.27:
            ops.append(["drop"])
    if rng.random() < 0.15:
        # the same thing over and over: whatever is left behind adds up
        k = rng.randrange(len(ops))
        if ops[k][0] not in ("damage", "hold"):
            ops[k:k + 1] = [ops[k]] * rng.randint(6, 14)
    p["ops"] = ops
    p["tight"] = rng.random() < 0.25
    p["nobody"] = False
    return p


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    simio.set_root(env.root)
    m = mix.Mix(env, plan, viscid)
    gc.collect()
    before = fds()
    held = []
    if plan.get("tight"):
        # enough for anything that gives back what it takes
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (max(before) + 24, hard))
        env.hit("tight_limit")
    for op in plan["ops"]:
        env.step(*op[:4])
        w = op[1] if op[0] not in ("save", "calc", "nothing", "unload_all", "held", "drop") else None
        if w is not None and w >= m.nw:
            continue
        if op[0] == "hold":
            def hold():
                f = m.get(w)
                if op[2] == "iterator":
                    held.append(("i", f.iter_times()))
                    return
                g = f.get_grid()
                if op[2] == "grid":
                    held.append(("g", g))
                else:
                    for q in formats.grid_patches(g)[:2]:
                        ns = sorted(q.field_names)
                        if op[2] == "field":
                            held.append(("f", q[ns[op[3] % len(ns)]]))
                        else:
                            held.append(("i", q.iter_fields()))
            m.under("hold " + op[2], op[4], hold)
        elif op[0] == "held":
            if held:
                kind, o = held[op[1] % len(held)]

                def use():
                    if kind == "f":
                        np.array(o.data)
                        o.get_crds_nc()
                    elif kind == "g":
                        q = formats.grid_patches(o)[0]
                        np.array(q[sorted(q.field_names)[0]].data)
                    else:
                        x = next(o, None)
                        if x is not None and hasattr(x, "data") and not hasattr(x, "field_names"):
                            np.array(x.data)
                m.under("held " + kind, op[2], use)
                env.hit("held_reads")
        elif op[0] == "drop":
            del held[:]
        else:
            m.do(op)
        ok, fired = m.outcome
        if not ok:
            env.hit("failed_ops")
            if op[0] == "save":
                env.hit("saves_failed")
        n, names = simio.open_fds()
        if n and all(x.endswith(".npz") for x in names):
            # what numpy opened for an archive it could not read is only closed with its exception
            gc.collect()
            n, names = simio.open_fds()
        if n:
            env.bad("left-open", "after %s (%s): %s" % (op[0], "done" if ok else "failed", [os.path.basename(x) for x in names]))
        now = fds()
        if len(now) > len(before):
            gc.collect()
            now = fds()
        more = [v for k, v in now.items() if before.get(k) != v and not v.startswith("/proc")]
        if len(now) > len(before):
            env.bad("left-open-other", "after %s (%s): %s" % (op[0], "done" if ok else "failed",
                                                             sorted(os.path.basename(v) for v in more)))
        env.hit("compared")
        env.sig(op[0], sorted(p["kind"] for p in plan["worlds"]) if w is None else plan["worlds"][w]["kind"],
                bool(w is not None and m.disk.damaged[w]), ok, fired, min(len(held), 3))
    # and everything that was there can still be used by the process
    for w in range(m.nw):
        m.do(["heal", w])
    del held[:]
    env.call("unload all", viscid.unload_all_files)
    m.objs.clear()
    for w in range(m.nw):
        ok, o = env.call("in the end", lambda: m.read_some(w, 7))
        if not ok:
            env.bad("used-up", "after the session, reading healthy files fails: %s" % (env.events[-1],))
        if session.raised_any(o):
            env.bad("used-up", "after the session, reading healthy files fails: %s" % (session.raised_any(o),))
    n, names = simio.open_fds()
    if n:
        env.bad("left-open", "in the end: %s" % ([os.path.basename(x) for x in names],))
