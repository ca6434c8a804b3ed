"""C01: a read returns the stored data or raises, whatever the storage does."""
from sim import core, formats, session, simio
from sim.session import Disk, Exc, gen_fault, match, nread, observe, raised_any, seeded

ID = "C01"
RUNS = {"quick": 4800, "thorough": 120000}
RULE = ("a run counts when its history of operations, results and faults differs from every other run's and at least one "
        "load or read was attempted")
REAL = ["viscid readers of all formats, bucket, dataset, grid, field", "compiled Fortran jrrle reader", "h5py/HDF5, numpy, "
        "libgfortran and libc stdio above the system call layer"]
STUB = ["system calls on files below the run's directory (open, read, pread, fread, malloc of numpy) pass a layer that "
        "injects faults; disk contents are written by the simulator"]
STATE_MEASURE = "format x damage state x fault class x outcome of each load and read"
PROBES = ["loads_ok", "loads_failed", "reads_exact", "reads_raised", "damage"]
CPU_LIMIT = 40

HOWS = ["trunc", "trunc", "trunc", "trunc", "empty", "delete", "truncinplace", "dir"]


def prepare():
    session.import_viscid()


def gen_damage(rng, w):
    r = rng.random()
    frac = rng.random() if r < 0.7 else (1 - rng.random() ** 4 * 0.05 if r < 0.9 else rng.random() ** 3 * 0.1)
    return ["damage", w, rng.randint(0, 40), rng.choice(HOWS), round(frac, 5)]


def generate(rng, tier):
    nw = 1 if rng.random() < 0.8 else 2
    worlds = [formats.gen_world(rng, w, nt=rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else None) for w in range(nw)]
    ops = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        w = rng.randrange(nw)
        r = rng.random()
        if r < 0.28:
            ops.append(gen_damage(rng, w))
        elif r < 0.36:
            ops.append(["heal", w])
        elif r < 0.62:
            ops.append(["load", w, rng.choice(["list", "glob"]),
                        [gen_fault(rng)] if rng.random() < 0.35 else [], rng.random() < 0.3])
        elif r < 0.93:
            ops.append(["read", w, rng.randint(0, 999), [gen_fault(rng)] if rng.random() < 0.5 else []])
        elif r < 0.97:
            ops.append(["unload", w])
        else:
            ops.append(["unload_all"])
    ops.append(["read", rng.randrange(nw), rng.randint(0, 999), []])
    return {"worlds": worlds, "ops": ops}


def execute(plan, env):
    import viscid
    disk = Disk(env, plan["worlds"])
    nw = len(plan["worlds"])
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    objs = [None] * nw
    tainted = [False] * nw          # something went wrong in this world since it was last loaded in a clean state

    def load(w, how, faults, force):
        clean = not disk.damaged[w] and not faults
        kw = {"force_reload": True} if force else {}
        with core.Faults(env, faults, lambda: session.load(viscid, disk, w, how, **kw)) as fl:
            ok, f = env.call("load w%d %s" % (w, how), session.load, viscid, disk, w, how, **kw)
        if fl.fired or not clean:
            tainted[w] = True
        if ok and f is not None:
            objs[w] = f
            env.hit("loads_ok")
        else:
            objs[w] = None
            env.hit("loads_failed")
            if not tainted[w]:
                env.bad("healthy-load-failed", "loading an intact %s file: %s" % (
                    plan["worlds"][w]["kind"], core.exc_str(f) if not ok else "returned None"))
        env.sig(plan["worlds"][w]["kind"], "load", sorted(x[:4] for x in disk.damaged[w]) != [], [x["cls"] + x["act"] for x in faults], ok)

    for op in plan["ops"]:
        env.step(*op[:3])
        name = op[0]
        if name != "unload_all":
            w = op[1]
            if w >= nw:
                continue
        if name == "damage":
            rel = disk.damage(w, op[2], op[3], op[4], skip=(".log",))
            if rel:
                env.hit("damage")
                env.fault("disk:" + op[3])
                tainted[w] = True
                env.ev("damaged", rel)
        elif name == "heal":
            disk.heal(w)
        elif name == "load":
            load(w, op[2], op[3], op[4])
        elif name == "unload":
            if objs[w] is not None:
                env.call("unload w%d" % w, objs[w].unload)
                objs[w] = None
        elif name == "unload_all":
            env.call("unload_all", viscid.unload_all_files)
            for k in range(nw):
                objs[k] = None
                tainted[k] = bool(disk.damaged[k])
        elif name == "read":
            if objs[w] is None:
                load(w, "list", [], False)
                if objs[w] is None:
                    continue
            f = objs[w]
            K = disk.kind(w)
            with core.Faults(env, op[3], lambda: observe(f, seeded(op[2]), [0, 1, 2, 3, 4])) as fl:
                obs = observe(f, seeded(op[2]), [0, 1, 2, 3, 4])
            if fl.fired:
                tainted[w] = True
            m = match(obs, disk.truth(w), K, not tainted[w], K.name)
            env.ev("read", nread(obs), "fields", "raised" if raised_any(obs) else "clean")
            env.hit("reads_exact", nread(obs))
            if raised_any(obs):
                env.hit("reads_raised")
            if m:
                env.bad(m[0], m[1])
            env.sig(K.name, "read", bool(disk.damaged[w]), [x["cls"] + x["act"] for x in op[3]], raised_any(obs), nread(obs) > 0)
