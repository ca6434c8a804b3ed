"""C12: a parallel map equals the serial map for every schedule."""
import mmap

import numpy as np

from sim import core, session, simpool, simthread

ID = "C12"
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("a run counts when its history of calls, schedules and faults differs from every other run's and at least one parallel map "
        "was judged")
REAL = ["viscid.parallel with its chunking and packing", "worker processes are real forks with pickled tasks and results",
        "threads are real threads of which the plan lets one run at a time"]
STUB = ["multiprocessing.Pool, ThreadPool and the executors of concurrent.futures: which worker takes which chunk, how long it "
        "takes, and death of workers are decided by the plan on a simulated clock"]
STATE_MEASURE = "kind of call x kind of pool x number of workers x number of items x order in which chunks ended x faults x outcome"
PROBES = ["maps", "jobs", "workers", "timeouts", "raised", "pool_reused", "threads", "chunks", "lost_chunk", "nested", "async"]
CPU_LIMIT = 60

COUNTS = None
NMAX = 64


class WorkError(Exception):
    pass


ERRS = {"work": WorkError, "key": KeyError, "value": ValueError, "zero": ZeroDivisionError, "mem": MemoryError, "os": OSError,
        "type": TypeError, "timeout": TimeoutError}


def prepare():
    simpool.install()
    session.import_viscid()


def value(i, x, scale, kind):
    if kind == "int":
        return int(i) * 3 + int(x) * scale
    if kind == "none":
        return None
    if kind == "arr":
        return np.arange(int(i) + 2, dtype="f8") * scale + float(x)
    if kind == "tuple":
        return (int(i), float(x) * scale, "s%d" % i)
    if kind == "big":
        return np.full(20000, float(x) + int(i))
    return {"i": int(i), "x": [float(x)] * scale}


def work(i, x, scale=1, kind="int", bad=(), err="work", nest=False):
    i = int(i)
    COUNTS[i] = min(COUNTS[i] + 1, 255)
    if simthread.SCHED is not None:
        simthread.SCHED.point()
    if i in bad:
        raise ERRS[err](i)
    if nest:
        import viscid
        r = viscid.parallel.map(2, inner, [(k, i) for k in range(3)])
        assert r == [k * 10 + i for k in range(3)], r
    v = value(i, x, scale, kind)
    if simthread.SCHED is not None:
        simthread.SCHED.point()
    return v


def inner(k, i):
    return k * 10 + i


def gen_op(rng, pools):
    r = rng.random()
    if r < 0.12:
        return ["chunks", rng.choice(["list", "tuple", "arr", "range", "str", "arr2"]), rng.randint(0, 17), rng.randint(1, 9),
                rng.choice([None, None, None, 1, 2, 3, 5, 30])]
    if r < 0.2:
        return ["pool", rng.choice(["proc", "proc", "thread"]), rng.randint(1, 4)]
    o = {"n": rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 9, 13, 17, 26, 40]),
         "np": rng.choice([1, 2, 2, 3, 3, 4, 5, 7, "all", "auto", " 3 ", "2", "ALL", 2.0]),
         "args": rng.choice(["list", "gen", "zip", "arr", "lists", "tuple"]),
         "kw": rng.choice([0, 1, 2]), "kind": rng.choice(["int", "int", "arr", "tuple", "dict", "none", "big"]),
         "threads": rng.random() < 0.3, "daemonic": rng.random() < 0.8, "force": rng.random() < 0.3,
         "pool": rng.random() < 0.35, "timeout": rng.choice([None, None, None, 0.5, 3, 20, 1e5]),
         "call": rng.choice(["map", "map", "map", "async"]),
         "dur": [rng.choice([0.0, 0.1, 1.0, 1.0, 2.0, 5.0, 30.0]) for _ in range(rng.randint(1, 7))],
         "pick": [rng.randrange(5) for _ in range(rng.randint(1, 7))], "late": rng.random() < 0.5,
         "bad": [], "err": "work", "nest": False, "faults": [], "switches": [], "argfail": None}
    if o["n"] and rng.random() < 0.2:
        o["bad"] = sorted(set(rng.randrange(o["n"]) for _ in range(rng.choice([1, 1, 2, 3]))))
        o["err"] = rng.choice(sorted(ERRS))
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2])):
            o["faults"].append({"chunk": rng.randrange(6), "kind": rng.choice(["die_before", "die_after", "stuck", "slow", "slow"])})
    if rng.random() < 0.05:
        o["faults"].append({"chunk": "fork", "kind": "fork%d" % rng.randrange(4)})
    if rng.random() < 0.06 and o["args"] in ("gen",):
        o["argfail"] = rng.randrange(o["n"] + 1)
    if not o["daemonic"] and rng.random() < 0.3:
        o["nest"] = True
    if o["threads"] or (o["pool"] and rng.random() < 0.5):
        o["switches"] = [[rng.choice([0, 0, 1, 2, 3, 5, 9]), rng.randrange(6)] for _ in range(rng.randint(0, 40))]
    return [o.pop("call"), o]


def generate(rng, tier):
    pools = []
    return {"cpus": rng.choice([1, 2, 3, 8]),
            "ops": ([["pool", rng.choice(["proc", "proc", "thread"]), rng.randint(1, 4)]] if rng.random() < 0.6 else []) +
            [gen_op(rng, pools) for _ in range(rng.randint(2, 7 if tier == "quick" else 15))]}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if len(op) == 2 and isinstance(op[1], dict):
            for k, v in (("switches", []), ("faults", []), ("dur", [1.0]), ("pick", [0]), ("kind", "int"), ("kw", 0),
                         ("args", "list"), ("bad", op[1]["bad"][:1]), ("n", op[1]["n"] // 2), ("n", op[1]["n"] - 1)):
                if op[1][k] != v and (k != "n" or v >= 0):
                    q = dict(op[1])
                    q[k] = v
                    yield dict(plan, ops=plan["ops"][:i] + [[op[0], q]] + plan["ops"][i + 1:])


def make_args(o):
    rows = [(i, 7 * i + 1) for i in range(o["n"])]

    def gen():
        for k, r in enumerate(rows):
            if o["argfail"] is not None and k == o["argfail"]:
                raise LookupError("arguments end here")
            yield r
        if o["argfail"] is not None and o["argfail"] >= len(rows):
            raise LookupError("arguments end here")
    return {"list": lambda: list(rows), "tuple": lambda: tuple(rows), "gen": gen, "lists": lambda: [list(r) for r in rows],
            "zip": lambda: zip([r[0] for r in rows], [r[1] for r in rows]),
            "arr": lambda: np.array(rows, dtype="i8").reshape(-1, 2)}[o["args"]]()


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def do_chunks(viscid, env, op):
    kind, n, nch, size = op[1:]
    if size is not None and n == 0:
        return
    seq = {"list": lambda: list(range(n)), "tuple": lambda: tuple(range(n)), "arr": lambda: np.arange(n), "range": lambda: range(n),
           "str": lambda: "abcdefghijklmnopqrst"[:n], "arr2": lambda: np.arange(2 * n).reshape(n, 2)}[kind]()
    par = viscid.parallel
    kw = {} if size is None else {"size": size}
    ch = env.must("chunks-raise", "chunk_list", par.chunk_list, seq, nch, **kw)
    sl = env.must("chunks-raise", "chunk_slices", par.chunk_slices, n, nch, **kw)
    sz = env.must("chunks-raise", "chunk_sizes", par.chunk_sizes, n, nch, **kw)
    got = [x.tolist() if hasattr(x, "tolist") else x for c in ch for x in c]
    want = [x.tolist() if hasattr(x, "tolist") else x for x in seq]
    if got != want:
        env.bad("chunks-wrong", "chunk_list(%s of %d, %d, %s) gives %s" % (kind, n, nch, size, got))
    if [k for a, b in sl for k in range(a, b)] != list(range(n)):
        env.bad("chunks-wrong", "chunk_slices(%d, %d, %s) gives %s" % (n, nch, size, sl))
    if size is None and not (len(ch) == len(sl) == len(sz) == nch):
        env.bad("chunks-wrong", "%d chunks asked for, got %d, %d and %d" % (nch, len(ch), len(sl), len(sz)))
    if [b - a for a, b in sl] != [int(x) for x in sz] or [len(c) for c in ch] != [int(x) for x in sz]:
        env.bad("chunks-wrong", "sizes of chunks %s don't fit slices %s and list %s" % (list(sz), sl, [len(c) for c in ch]))
    if len(sz) and max(sz) - min(sz) > 1:
        env.bad("chunks-wrong", "chunks of %d in %d differ in size: %s" % (n, nch, list(sz)))
    if size is not None and max(sz) > size:
        env.bad("chunks-wrong", "chunks of about %d elements have %s" % (size, list(sz)))
    il = env.must("chunks-raise", "chunk_interslices", par.chunk_interslices, nch)
    parts = [list(range(n))[slice(*s)] for s in il]
    if sorted(x for p in parts for x in p) != list(range(n)) or len(parts) != nch:
        env.bad("chunks-wrong", "chunk_interslices(%d) covers %s of %d" % (nch, parts, n))
    z0 = par.chunk_sizes(n, nch)
    if [len(p) for p in parts] != [int(x) for x in z0]:
        env.bad("chunks-wrong", "chunk_sizes %s don't fit chunk_interslices %s" % (list(z0), parts))
    env.hit("chunks")


def execute(plan, env):
    global COUNTS
    import viscid
    COUNTS = mmap.mmap(-1, NMAX)        # shared with the workers of this run
    par = viscid.parallel
    world = simpool.start(env, {"cpus": plan["cpus"]})
    mine = None         # the caller's pool
    try:
        for op in plan["ops"]:
            env.step(op[0], {k: v for k, v in op[1].items() if k != "switches"} if isinstance(op[1], dict) else op[1:])
            if op[0] == "chunks":
                do_chunks(viscid, env, op)
            elif op[0] == "pool":
                if mine is not None:
                    mine.terminate()
                    mine.join()
                if op[1] == "proc":
                    world.faults = {}
                    mine = simpool.SimPool(op[2])
                    mine.made_by = "caller"
                else:
                    mine = simpool.SimThreadPool(op[2])
            else:
                one_map(par, env, world, op[0], op[1], mine)
    finally:
        simpool.stop(env)


def one_map(par, env, world, call, o, mine):
    n = o["n"]
    # items that start workers of their own are for workers that may
    o = dict(o, nest=o["nest"] and not o["threads"] and not o["daemonic"] and not (o["pool"] and mine is not None) and
             (call == "async" or o["force"] or par.sanitize_nr_procs(o["np"]) > 1))
    if isinstance(mine, simpool.SimPool):
        # what an earlier call that gave up left to do
        world.faults = {}
        world.run_until(lambda: not mine._queue and not any(w.busy and w.until < simpool.INF for w in mine._workers), world.clock + 1e12)
    world.nchunk = world.npick = 0
    world.order = []
    world.dur, world.pick, world.late = o["dur"], o["pick"], o["late"]
    world.faults = {}
    for f in o["faults"]:
        if f["chunk"] == "fork":
            world.faults["fork%d" % len(world.pools)] = f["kind"]
        else:
            world.faults[f["chunk"]] = f["kind"]
    fired0 = dict(env.faults)
    s = simthread.start(env, o["switches"])
    pool = mine if o["pool"] else None
    if pool is not None and isinstance(pool, simpool.SimThreadPool):
        # its threads belong to an earlier scheduler: take a new pool of the same kind
        old = pool
        pool = simpool.SimThreadPool(old._processes)
    kw = [None, {"scale": 2, "kind": o["kind"]}, {"kind": o["kind"], "bad": tuple(o["bad"]), "err": o["err"], "nest": o["nest"]}][
        2 if (o["bad"] or o["nest"]) else o["kw"]]
    kw0 = None if kw is None else dict(kw)
    kind = "int" if kw is None else o["kind"]
    scale = 2 if (kw or {}).get("scale") else 1
    want = [value(i, 7 * i + 1, scale, kind) for i in range(n)]
    COUNTS[:] = b"\0" * len(COUNTS)
    npools = len(world.pools)
    nex = len(simthread.SimThreadPoolExecutor.made)
    t0 = world.clock
    timeout = o["timeout"]
    args = make_args(o)
    # a worker that may start processes of its own is asked for where items need that
    daemonic = o["daemonic"]
    left = {}
    if call == "map":
        k = {} if timeout is None else {"timeout": timeout}
        if pool is not None:
            k["pool"] = pool
        label = "map of %d items" % n
        ok, v = env.call("map", par.map, o["np"], work, args, args_kw=kw, daemonic=daemonic, threads=o["threads"],
                         force_subprocess=o["force"], **k)
        # serial and threaded maps have no workers to wait for
        limit = 1e8 if timeout is None else timeout
    else:
        label = "map_async of %d items" % n
        limit = 1e4 if timeout is None else timeout

        def both():
            p, r = par.map_async(o["np"], work, args, args_kw=kw, daemonic=daemonic, threads=o["threads"], pool=pool)
            left["p"] = p
            if pool is not None and p is not pool:
                env.bad("wrong-pool", "map_async did not give back the caller's pool")
            t1 = world.clock
            try:
                return r.get(limit)
            finally:
                left["t"] = world.clock - t1
                if pool is None:
                    if p._state == "RUN":
                        env.bad("pool-left-open", "the pool that map_async made still takes work")
                    if r.ready():
                        p.join()
                    else:
                        p.terminate()
                        p.join()
        ok, v = env.call("map_async", both)
        env.hit("async")
    if s.error is not None:
        raise s.error
    env.hit("maps")
    took = world.clock - t0
    fired = sorted(k for k in env.faults if env.faults[k] != fired0.get(k, 0))
    lost = any(k in ("worker:stuck", "worker:die_before", "worker:die_after") for k in fired)
    forkfail = "fork:EAGAIN" in fired
    cnt = [COUNTS[i] for i in range(n)]
    env.sig(call, o["threads"], type(pool).__name__, str(o["np"]), n, list(world.order), fired, ok, bool(o["bad"]))
    if o["threads"]:
        env.hit("threads")
    if lost:
        env.hit("lost_chunk")
    if o["nest"]:
        env.hit("nested")
    if kw != kw0:
        env.bad("options-changed", "%s changed the caller's keyword arguments" % label)
    if took > limit * (1 + 1e-9) + 1e-9:
        env.bad("timeout-exceeded", "%s with timeout %s took %s s" % (label, limit, took))
    if any(c > 1 for c in cnt):
        env.bad("evaluated-twice", "%s evaluated items %s more than once" % (label, [i for i in range(n) if cnt[i] > 1]))
    if ok:
        if o["bad"]:
            env.bad("exception-lost", "%s returned although items %s raised" % (label, o["bad"]))
        if o["argfail"] is not None:
            env.bad("exception-lost", "%s returned although its arguments raised" % label)
        if not same(v, want):
            env.bad("wrong-result", "%s (%s) gives %s, serially %s" % (label, o["np"], core.short(v, 200), core.short(want, 200)))
        if any(c != 1 for c in cnt):
            env.bad("not-evaluated", "%s never evaluated items %s" % (label, [i for i in range(n) if cnt[i] != 1]))
    else:
        name = type(v).__name__
        timed_out = isinstance(v, simpool.multiprocessing.TimeoutError) and not isinstance(v, OSError)
        if timed_out:
            env.hit("timeouts")
            if took < limit * (1 - 1e-9):
                env.bad("early-timeout", "%s with timeout %s gave up after %s s" % (label, limit, took))
        elif forkfail and isinstance(v, OSError):
            pass
        elif o["argfail"] is not None and isinstance(v, LookupError):
            env.hit("raised")
        elif o["bad"] and type(v) is ERRS[o["err"]] and v.args and v.args[0] in o["bad"]:
            env.hit("raised")
        else:
            env.bad("wrong-exception", "%s raised %s%s%s" % (label, core.exc_str(v), ", items %s raise %s" % (o["bad"], o["err"])
                                                             if o["bad"] else "", ", faults %s" % fired if fired else ""))
        del name
    # pools
    for p in world.pools[npools:]:
        if p is pool:
            continue
        if p._state == "RUN":
            env.bad("pool-left-open", "%s left the pool it made open" % label)
        # a closed pool's workers end by themselves when they have done what they were given, if they ever do
        if call == "map" and p._state == "CLOSE" and not p.joined and (p._lost or p._queue or any(w.busy for w in p._workers)):
            env.bad("workers-left", "%s left worker processes behind" % label)
        p.terminate()
    for p in simthread.SimThreadPoolExecutor.made[nex:]:
        if pool is not None and getattr(pool, "_ex", None) is p:
            continue
        if not p._shutdown or (call == "map" and p.alive):
            env.bad("workers-left", "%s left threads behind" % label)
    if pool is not None:
        if pool._state != "RUN":
            env.bad("callers-pool-closed", "%s ended the caller's pool" % label)
        env.hit("pool_reused")
        if isinstance(pool, simpool.SimPool):
            # it still works
            world.faults = {}
            if not any(w.until == simpool.INF and w.busy is not None for w in pool._workers):
                r = env.must("callers-pool-broken", "the caller's pool after a map", pool.map, len, ["a", "bc", ""])
                if r != [1, 2, 0]:
                    env.bad("callers-pool-broken", "the caller's pool gives %s" % r)
        else:
            pool.close()
            pool.join()
