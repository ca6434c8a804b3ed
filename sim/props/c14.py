"""C14: threads that read different files each get their own data."""
import numpy as np

from sim import core, formats, session, simio, simthread
from sim.session import Disk, gen_fault, match, nread, observe, raised_any, seeded

ID = "C14"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("a run counts when its history of operations, switches and faults differs from every other run's and at least two threads "
        "read something")
REAL = ["viscid readers of all formats, bucket, dataset, grid, field", "compiled Fortran reader", "h5py/HDF5, numpy, "
        "libgfortran and libc stdio above the system call layer", "threads are real threads of which the plan lets one run at a time"]
STUB = ["threads are switched by the plan, before lines of the library's Python code, where they wait for a lock and where compiled "
        "code of the library takes the interpreter lock; other libraries' code is never interrupted",
        "locks that the library makes", "system calls on files below the run's directory pass a layer that injects faults"]
STATE_MEASURE = "formats x order in which threads ran x operations under way at each switch x faults"
PROBES = ["threads", "switches", "points", "reads_exact", "failed_ops", "faulty_threads", "mid_load", "mid_read", "lock_waits"]
SHRINK_LISTS = ["switches"]
CPU_LIMIT = 60
FORTRAN = ["jrrle", "fortbin"]


def prepare():
    simthread.install()
    with simthread.patched_locks():
        session.import_viscid()
    # what the library imports on demand: no import lock may be held at a switch
    import viscid.calculator.evaluator      # noqa: F401
    import viscid.amr_grid                  # noqa: F401
    import viscid.amr_field                 # noqa: F401
    simthread.hook_compiled("viscid")


def gen_thread(rng, w, tier):
    ops = []
    for _ in range(rng.randint(1, 4 if tier == "quick" else 7)):
        r = rng.random()
        if r < 0.3:
            ops.append(["load", rng.choice(["list", "glob", "list", "some"]), rng.random() < 0.3, rng.randint(0, 99)])
        elif r < 0.62:
            ops.append(["look", rng.randint(0, 999)])
        elif r < 0.70:
            ops.append(["unload", rng.choice(["method", "handle"])])
        elif r < 0.78:
            ops.append(["reload", rng.choice(["method", "handle"])])
        elif r < 0.84:
            ops.append(["clear"])
        elif r < 0.90:
            ops.append(["times"])
        elif r < 0.95:
            ops.append(["part", rng.randint(0, 999)])
        else:
            ops.append(["expr", rng.randint(0, 999)])
    if not any(o[0] == "look" for o in ops) or rng.random() < 0.5:
        ops.append(["look", rng.randint(0, 999)])
    t = {"ops": ops, "fault": None, "damage": None}
    return t


def generate(rng, tier):
    nw = rng.choice([2, 2, 2, 3, 3, 4])
    kinds = None
    r = rng.random()
    if r < 0.25:
        kinds = [k for k in formats.KINDS if k in FORTRAN]
    elif r < 0.6:
        kinds = [rng.choice(sorted(formats.KINDS))]
    worlds = [formats.gen_world(rng, w, kinds=kinds, nt=rng.choice([1, 2, 2, 3])) for w in range(nw)]
    threads = [gen_thread(rng, w, tier) for w in range(nw)]
    for w in rng.sample(range(nw), rng.choice([0, 0, 1, 1, 1, nw - 1])):
        if rng.random() < 0.65:
            f = gen_fault(rng, [x for x in session.READ_FAULTS if x["cls"] != "alloc"], 0.4)
            threads[w]["fault"] = f
        else:
            threads[w]["damage"] = [rng.randint(0, 40), rng.choice(["trunc", "trunc", "delete", "empty", "dir"]), round(rng.random(), 4)]
    focus = rng.choice([[], [], ["readers/"], ["readers/"], ["field.py", "dataset.py", "grid.py", "tree.py", "bucket.py"],
                        ["bucket.py", "readers/vfile_bucket"], ["bucket.py"],
                        ["readers/" + rng.choice(["_fort", "hdf5", "xdmf", "ggcm", "vfile", "athena", "openggcm"])]])
    gaps = rng.choice([[1, 2, 3, 5, 10], [3, 10, 30, 100], [0, 1, 2], [30, 100, 300, 1000], [1, 5, 30, 200]] if focus[:1] != ["bucket.py"] else [[0, 1, 2], [0, 0, 1, 2, 5]])
    n = rng.choice([4, 20, 60, 150, 400])
    return {"worlds": worlds, "threads": threads, "switches": [[rng.choice(gaps), rng.randint(0, 5)] for _ in range(n)],
            "sub": rng.random() < 0.3, "hot": rng.random() < 0.6,
            "focus": focus}


def shrink(plan):
    for i, t in enumerate(plan["threads"]):
        if not t["ops"]:
            continue
        for k in range(len(t["ops"])):
            c = dict(t, ops=t["ops"][:k] + t["ops"][k + 1:])
            yield dict(plan, threads=plan["threads"][:i] + [c] + plan["threads"][i + 1:])
        for k in ("fault", "damage"):
            if t[k]:
                yield dict(plan, threads=plan["threads"][:i] + [dict(t, **{k: None})] + plan["threads"][i + 1:])


def execute(plan, env):
    import viscid
    nw = len(plan["worlds"])
    disk = Disk(env, plan["worlds"])
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    doing = [None] * nw
    read = [0] * nw
    objs = [None] * nw
    mine = [[] for _ in range(nw)]
    bad = [False] * nw

    def truth(w, sel):
        t = disk.truth(w)
        return t if sel is None else [t[i] for i in sel]

    def worker(w, quiet=False):
        """what thread w does; everything it sees is judged by what its own files hold"""
        T = plan["threads"][w]
        K = disk.kind(w)
        sel = [None]

        def load(how="list", k=0, force=False):
            kw = disk.kwargs(w)
            if force:
                kw["force_reload"] = True
            s = None
            parts = disk.target(w, "parts")
            if how == "some" and isinstance(parts, list):
                s = sorted(seeded("part", k).sample(range(len(parts)), 1 + k % len(parts)))
            target = disk.target(w, how if how != "some" else "list") if s is None else [parts[i] for i in s]
            f = viscid.load_file(target, **kw)
            if f is None:
                raise IOError("load_file gave None")
            sel[0] = s
            objs[w] = f
            if not quiet and f not in mine[w]:
                mine[w].append(f)
            return f

        def get():
            return objs[w] if objs[w] is not None else load()

        def look(seed):
            f = get()
            o = observe(f, seeded(seed), [0, 1, 2, 3, 4, 5])
            if quiet:
                return
            m = match(o, truth(w, sel[0]), K, not bad[w], "thread %d, %s" % (w, K.name))
            if m:
                env.bad(m[0], m[1])
            read[w] += nread(o)
            if raised_any(o):
                env.hit("failed_ops")

        def one(op):
            if op[0] == "load":
                load(op[1], op[3], op[2])
            elif op[0] == "look":
                look(op[1])
            elif op[0] == "unload":
                f, objs[w] = objs[w], None
                if f in mine[w]:
                    mine[w].remove(f)
                if f is not None:
                    viscid.unload_file(f.handle_name) if op[1] == "handle" else f.unload()
            elif op[0] == "reload":
                f = get()
                viscid.reload_file(f.handle_name) if op[1] == "handle" else f.reload()
            elif op[0] == "clear":
                get().clear_cache()
            elif op[0] == "times":
                f = get()
                n = f.nr_times()
                ts = [g.time for g in f.iter_times()]
                want = [s["time"] for s in truth(w, sel[0])]
                if not bad[w] and not quiet and (n != len(want) or len(ts) != n or not all(map(session.match_time, ts, want))):
                    env.bad("wrong-time", "thread %d, %s: times %s (%d) instead of %s" % (w, K.name, ts, n, want))
            elif op[0] == "part":
                rnd = seeded(op[1])
                for g in get().iter_times():
                    for q in formats.grid_patches(g):
                        for n in q.field_names:
                            np.array(q[n].data)
                            if rnd.random() < 0.4:
                                return
            elif op[0] == "expr":
                rnd = seeded(op[1])
                for g, t in zip(get().iter_times(), truth(w, sel[0])):
                    for q, p in list(zip(formats.grid_patches(g), t["patches"]))[:2]:
                        n = rnd.choice(sorted(p["fields"]))
                        a = np.array(q[n].data)
                        b = np.array((q[n] * 2).data)
                        if not quiet and not bad[w] and (a * 2).tobytes() != b.astype(a.dtype).tobytes():
                            env.bad("wrong-data", "thread %d, %s: twice field %s is not twice its data" % (w, K.name, n))

        for op in T["ops"]:
            if not quiet:
                doing[w] = op[0]
                env.step(w, *op)
                simthread.SCHED.point()
            try:
                one(op)
                if not quiet:
                    env.ev(w, op[0], "-> ok")
            except core.Violation:
                raise
            except Exception as e:          # pylint: disable=broad-except
                if quiet:
                    continue
                env.ev(w, op[0], "-> raised", type(e).__name__)
                env.hit("failed_ops")
                if not bad[w]:
                    env.bad("thread-disturbed", "thread %d, %s: %s of healthy files raised %s" % (w, K.name, op[0], core.exc_str(e)))
                if op[0] in ("load", "reload"):
                    objs[w] = None
                    sel[0] = None
        doing[w] = None

    # what goes wrong, and for whom
    rules = []
    for w in range(nw):
        T = plan["threads"][w]
        if T["damage"]:
            if disk.damage(w, T["damage"][0], T["damage"][1], T["damage"][2], skip=(".log",)) is not None:
                env.fault("disk:" + T["damage"][1])
                bad[w] = True
                env.hit("faulty_threads")
    for w in range(nw):
        f = plan["threads"][w]["fault"]
        if f:
            n = core.dry_counts(lambda w=w: worker(w, True)).get(f["cls"], 0)
            if n:
                rules.append((w, f, int(f["pos"] * n)))
                bad[w] = True
                env.hit("faulty_threads")
    simio.reset()
    rules = [(w, f, simio.rule(f["cls"], n, f["act"], f.get("err", 0) or 0, f.get("frac", 0.5), f.get("sticky", False),
                               disk.dirs[w][len(env.root):] + "/")) for w, f, n in rules]
    s = simthread.start(env, plan["switches"])
    s.hot = plan.get("hot", False)
    s.focus = tuple(plan.get("focus") or ())
    go = s._go

    def watch(t, frm):
        if t is not frm and frm.n:
            d = doing[frm.n - 1]
            if d in ("load", "reload"):
                env.hit("mid_load")
            elif d == "look":
                env.hit("mid_read")
        go(t, frm)
    s._go = watch
    ts = [s.spawn(lambda w=w: worker(w), "thread %d" % w) for w in range(nw)]
    env.hit("threads", nw)
    s.wait(lambda: s.error is not None or all(t.done for t in ts), "the threads")
    for w, f, i in rules:
        n = simio.fired(i)
        if n > 0:
            env.fault("%s:%s%s" % (f["cls"], f["act"], ":" + str(f["err"]) if f.get("err") else ""))
        env.ev("fault", w, f["cls"], f["act"], "fired" if n > 0 else "idle")
    simio.disarm()
    env.hit("switches", s.nswitch)
    env.hit("points", s.points)
    env.ev("switches", s.nswitch, "points", s.points)
    env.sig([p["kind"] for p in plan["worlds"]], s.trail[:80], [t["ops"][0][0] if t["ops"] else "" for t in plan["threads"]],
            [bool(b) for b in bad])
    if s.error is not None:
        raise s.error
    if sum(n > 0 for n in read) >= 2:
        env.hit("reads_exact", sum(read))
    # every open file is in the table under a number of its own
    table = viscid.readers.__filebucket__
    listed = [(list(hs), f) for hs, f in table.items()]
    for w in range(nw):
        for f in mine[w]:
            hs = [h for x, g in listed if g is f for h in x]
            if len([h for h in hs if isinstance(h, int)]) != 1 or any(table[h] is not f for h in hs):
                env.bad("table-of-files-broken", "thread %d, %s: the open file is listed as %s" % (w, disk.kind(w).name, hs))
    # afterwards the session is as good as ever
    simthread.start(env, [])
    for w in range(nw):
        if disk.damaged[w]:
            disk.heal(w)
    for again in (False, True):
        if again:
            env.must("session-broken", "unloading all files", viscid.unload_all_files)
        for w in range(nw):
            if bad[w] and not again:
                continue
            K = disk.kind(w)
            f = env.must("session-broken", "loading %s again" % K.name, session.load, viscid, disk, w, "list")
            if f is None:
                env.bad("session-broken", "%s can't be loaded again" % K.name)
            m = match(observe(f, seeded(w), [0]), disk.truth(w), K, True, "%s afterwards" % K.name)
            if m:
                env.bad("session-broken", m[1])
