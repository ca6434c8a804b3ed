"""C02: a transient failure leaves nothing poisoned."""
from sim import calcs, core, formats, saves, session, simio
from sim.session import Disk, gen_fault, gen_interrupt, match, nread, observe, raised_any, seeded

ID = "C02"
RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("a run counts when its history of operations, results and faults differs from every other run's and at least one "
        "operation was attempted under a fault or on a damaged disk and then repeated without it")
REAL = ["viscid readers, bucket, dataset, grid, field, savers, calculators", "compiled Fortran and Cython modules",
        "h5py/HDF5, numpy, libgfortran and libc stdio above the system call layer"]
STUB = ["system calls on files below the run's directory and numpy's allocations pass a layer that injects faults; disk "
        "contents are written by the simulator"]
STATE_MEASURE = "operation x format x fault class x outcome under the fault x attempts needed afterwards"
PROBES = ["retries", "interrupted", "failed_then_ok", "calc_failed", "save_failed", "load_failed", "read_failed"]

WRITE_FAULTS = [{"cls": "write", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "err", "err": "EIO"},
                {"cls": "open", "act": "err", "err": "EACCES"}, {"cls": "open", "act": "err", "err": "EMFILE"},
                {"cls": "write", "act": "torn_err", "err": "ENOSPC"}, {"cls": "write", "act": "sigint"}, {"cls": "meta", "act": "sigint"}]
CALC_FAULTS = [{"cls": "alloc", "act": "err", "err": "ENOMEM"}]


def prepare():
    v = session.import_viscid()
    import h5py  # noqa: F401
    calcs.run(v, "arith", 1)


def generate(rng, tier):
    nw = rng.choice([1, 1, 2])
    worlds = [formats.gen_world(rng, w) for w in range(nw)]
    ops = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        w = rng.randrange(nw)
        r = rng.random()
        fl = [gen_fault(rng, sticky=0.5)]
        fl = gen_interrupt(rng, fl)
        if r < 0.22:
            ops.append(["load", w, rng.choice(["list", "glob"]), fl, rng.random() < 0.3])
        elif r < 0.45:
            ops.append(["read", w, rng.randint(0, 999), fl])
        elif r < 0.57:
            ops.append(["reload", w, rng.choice(["method", "handle", "force"]), fl])
        elif r < 0.72:
            ops.append(["damaged", w, rng.randint(0, 40), rng.choice(["trunc", "delete", "empty", "dir"]), round(rng.random(), 4),
                        rng.choice(["load", "read", "reload", "force"])])
        elif r < 0.84:
            ops.append(["calc", rng.choice(calcs.WHAT), rng.randint(0, 20), [gen_fault(rng, CALC_FAULTS, 0.4)]])
        elif r < 0.92:
            ops.append(["save", rng.randint(0, 1), rng.randint(0, 2), [gen_fault(rng, WRITE_FAULTS, 0.6)]])
        elif r < 0.96:
            ops.append(["unload", w])
        else:
            ops.append(["unload_all"])
    return {"worlds": worlds, "saves": [saves.gen_spec(rng), saves.gen_spec(rng)], "ops": ops}


def execute(plan, env):
    import viscid
    disk = Disk(env, plan["worlds"])
    nw = len(plan["worlds"])
    # references of the calculations, made before anything else happens in this session
    refs = {}
    for op in plan["ops"]:
        if op[0] == "calc" and (op[1], op[2]) not in refs:
            k = core.in_child(lambda: calcs.run(viscid, op[1], op[2]))
            if k[0] != "ok":
                env.bad("calc-fails-when-healthy", "%s: %s" % (op[1], k[1]))
            refs[op[1], op[2]] = k[1]
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    objs = [None] * nw
    sdir = env.path("data", "saved")
    import os
    os.makedirs(sdir)

    def strict(w, obs, what):
        return match(obs, disk.truth(w), disk.kind(w), True, "%s after %s" % (disk.kind(w).name, what))

    def do_load(w, how="list", force=False):
        kw = {"force_reload": True} if force else {}
        f = session.load(viscid, disk, w, how, **kw)
        if f is None:
            raise RuntimeError("load_file returned None")
        return f

    def settle(w, what, how="list", reread=True):
        """loading and reading the now healthy world has to work by the second attempt"""
        env.hit("retries")
        m = None
        for attempt in (1, 2):
            ok, f = env.call("load again %d" % attempt, do_load, w, how)
            if not ok:
                m = ("load-poisoned", "%s: loading again fails after %s: %s" % (disk.kind(w).name, what, core.exc_str(f)))
                continue
            objs[w] = f
            m = strict(w, observe(f, seeded(attempt), [0, 1, 3]), what)
            if m is None:
                break
        if m:
            env.bad("poisoned-" + m[0], m[1])
        env.sig("settle", disk.kind(w).name, what, attempt)

    def ensure(w):
        if objs[w] is None:
            ok, f = env.call("load w%d" % w, do_load, w)
            if not ok:
                env.bad("healthy-load-failed", "%s: %s" % (disk.kind(w).name, core.exc_str(f)))
            objs[w] = f
        return objs[w]

    for op in plan["ops"]:
        env.step(*op[:3])
        name = op[0]
        if name in ("load", "read", "reload", "damaged", "unload"):
            w = op[1]
            if w >= nw:
                continue
            K = disk.kind(w)
        if name == "load":
            what = "a failed load"
            had = objs[w]
            with core.Faults(env, op[3], lambda: do_load(w, op[2], op[4])) as fl:
                ok, f = env.call("load w%d %s" % (w, op[2]), do_load, w, op[2], op[4])
            if not ok:
                env.hit("load_failed")
            if ok and fl.fired:
                # the failure may have been absorbed (an optional companion): forgetting it has to be possible
                env.call("unload", f.unload)
                objs[w] = None
            elif not ok:
                objs[w] = None
            else:
                objs[w] = f
            settle(w, what, op[2])
        elif name == "read":
            f = ensure(w)
            with core.Faults(env, op[3], lambda: observe(f, seeded(op[2]), [0, 1, 2, 3, 4])) as fl:
                ok, obs = env.call("read", observe, f, seeded(op[2]), [0, 1, 2, 3, 4])
            if not ok:
                env.hit("interrupted")
                obs = {"snaps": [], "err": obs}
            if raised_any(obs):
                env.hit("read_failed")
            env.ev("read", nread(obs), "raised" if raised_any(obs) else "clean", "fired" if fl.fired else "")
            m = None
            for attempt in (1, 2):
                obs2 = observe(f, seeded(op[2]), [0, 1, 2, 3, 4])
                m = strict(w, obs2, "a failed read")
                if m is None:
                    break
            env.hit("retries")
            if m:
                env.bad("read-poisoned-" + m[0], m[1])
            if raised_any(obs):
                env.hit("failed_then_ok")
            env.sig("read", K.name, [x["cls"] + x["act"] for x in op[3]], raised_any(obs), attempt)
        elif name == "reload":
            f = ensure(w)

            def do_reload():
                if op[2] == "method":
                    f.reload()
                elif op[2] == "handle":
                    viscid.reload_file(f.handle_name)
                else:
                    do_load(w, "list", True)
            with core.Faults(env, op[3], do_reload) as fl:
                ok, e = env.call("reload w%d" % w, do_reload)
            m = None
            for attempt in (1, 2):
                ok2, e2 = env.call("reload again", do_reload)
                if not ok2:
                    m = ("reload-poisoned", "%s: reloading again fails: %s" % (K.name, core.exc_str(e2)))
                    continue
                m = strict(w, observe(f, seeded(attempt), [0]), "a failed reload")
                if m is None:
                    break
            env.hit("retries")
            if m:
                env.bad("poisoned-" + m[0], m[1])
            env.sig("reload", K.name, op[2], [x["cls"] + x["act"] for x in op[3]], ok, attempt)
            settle(w, "a failed reload")
        elif name == "damaged":
            # something is wrong on disk for a while, and is put right
            f = ensure(w) if op[5] != "load" else objs[w]
            if op[5] == "load" and f is not None:
                env.call("unload", f.unload)
                objs[w] = f = None
            rel = disk.damage(w, op[2], op[3], op[4], skip=(".log",))
            if rel is None:
                continue
            env.fault("disk:" + op[3])
            env.ev("damaged", rel)
            if op[5] == "read":
                obs = observe(f)
                env.ev("read", nread(obs), raised_any(obs))
                disk.heal(w)
                for attempt in (1, 2):
                    m = strict(w, observe(f), "a read while %s was damaged (%s)" % (rel, op[3]))
                    if m is None:
                        break
                if m:
                    env.bad("read-poisoned-" + m[0], m[1])
            elif op[5] == "load":
                ok, f = env.call("load damaged", do_load, w)
                if ok:
                    # it was readable: what depends on the damaged file is missing; forgetting it has to be possible
                    if raised_any(observe(f)):
                        env.hit("read_failed")
                    env.call("unload", f.unload)
                else:
                    env.hit("load_failed")
                disk.heal(w)
            else:
                ok, e = env.call("reload damaged", (lambda: f.reload()) if op[5] == "reload" else (lambda: do_load(w, "list", True)))
                disk.heal(w)
                if ok:
                    env.must("reload-poisoned", "reload of the healed file", f.reload)
                else:
                    ok, e = env.call("reload healed", f.reload)
                    if not ok:
                        env.must("reload-poisoned", "reload of the healed file", f.reload)
                m = strict(w, observe(f), "a reload while %s was damaged (%s)" % (rel, op[3]))
                if m:
                    env.bad("poisoned-" + m[0], m[1])
            settle(w, "damage to a file (%s)" % op[3])
            env.sig("damaged", K.name, op[3], op[5])
        elif name == "calc":
            with core.Faults(env, op[3], lambda: calcs.run(viscid, op[1], op[2])) as fl:
                ok, v = env.call("calc %s" % op[1], calcs.run, viscid, op[1], op[2])
            if ok and v != refs[op[1], op[2]]:
                env.bad("calc-wrong-under-fault", "%s gave a different result when an allocation failed" % op[1])
            if not ok:
                env.hit("calc_failed")
            last = None
            for attempt in (1, 2):
                ok2, v2 = env.call("calc %s again" % op[1], calcs.run, viscid, op[1], op[2])
                if ok2 and v2 == refs[op[1], op[2]]:
                    break
                last = core.exc_str(v2) if not ok2 else "a different result"
            else:
                env.bad("calc-poisoned", "%s after a failed calculation: %s" % (op[1], last))
            env.hit("retries")
            env.sig("calc", op[1], ok, attempt)
        elif name == "save":
            spec = plan["saves"][op[1]]
            path = saves.path_of(sdir, spec, "s%d" % op[1])
            flds = saves.build(viscid, spec, op[1], op[2])
            with core.Faults(env, op[3], lambda: saves.save(viscid, path, spec, flds)) as fl:
                ok, v = env.call("save %s" % spec["fmt"], saves.save, viscid, path, spec, flds)
            if not ok:
                env.hit("save_failed")
            last = None
            for attempt in (1, 2):
                ok2, v2 = env.call("save again", saves.save, viscid, path, spec, flds)
                if ok2:
                    break
                last = core.exc_str(v2)
            else:
                env.bad("save-poisoned", "saving %s after a failed save: %s" % (spec["fmt"], last))
            f = env.must("save-poisoned-load", "loading the file saved", viscid.load_file, saves.index_of(path), force_reload=True)
            ok3, m = env.call("read back", saves.mismatch, f, spec, op[1], op[2])
            if not ok3 or m:
                env.bad("save-poisoned-data", "%s saved after a failed save: %s" % (spec["fmt"], core.exc_str(m) if not ok3 else m))
            env.hit("retries")
            env.sig("save", spec["fmt"], ok, attempt)
        elif name == "unload":
            if objs[w] is not None:
                env.call("unload w%d" % w, objs[w].unload)
                objs[w] = None
        elif name == "unload_all":
            env.call("unload_all", viscid.unload_all_files)
            objs = [None] * nw
    # in the end everything is healthy: every world loads and reads, and the table can be emptied
    for w in range(nw):
        settle(w, "everything before")
    env.must("unload-all-fails", "unload_all_files", viscid.unload_all_files)
