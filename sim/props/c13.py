"""C13: streamlines and topology do not depend on workers, chunks or schedule."""
import numpy as np

from sim import core, session, simpool, simthread

ID = "C13"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("a run counts when its history of calculations, schedules and faults differs from every other run's and at least one "
        "calculation in workers was compared with the serial one of a fresh process")
REAL = ["viscid.calc_streamlines, its integrators, interpolation, AMR patch search and seeds", "viscid.parallel",
        "worker processes are real forks", "threads are real threads of which the plan lets one run at a time"]
STUB = ["multiprocessing.Pool and concurrent.futures: which worker takes which chunk, how long it takes and death of workers are "
        "decided by the plan; threads are switched by the plan before Python lines of the library and where compiled code takes "
        "the interpreter lock"]
STATE_MEASURE = "kind of field x seeds x options x pool x order in which chunks ended x switches that happened x faults"
PROBES = ["calcs", "compared", "threads", "procs", "switches", "lost_chunk", "raised", "amr", "serial", "alloc_failed", "bad_options"]
CPU_LIMIT = 60

METHODS = ["euler1", "rk2", "rk4", "euler1a", "rk12", "rk45"]


def prepare():
    simpool.install()
    with simthread.patched_locks():
        session.import_viscid()
    import viscid.cython.streamline     # noqa: F401
    import viscid.amr_grid              # noqa: F401
    import viscid.seed                  # noqa: F401
    simthread.hook_compiled("viscid")


# ------------------------------------------------------------------ problems
def gen_problem(rng):
    kind = rng.choice(["cell", "cell", "node", "nonuni", "flat2d", "amr", "amr", "amr"])
    p = {"kind": kind, "dtype": rng.choice(["f8", "f8", "f4"]), "seed": rng.randint(0, 50),
         "shape": [rng.randint(3, 6) for _ in range(3)], "layout": rng.choice(["interlaced", "flat"])}
    if kind == "amr":
        p["split"] = rng.choice(["x2", "xy4", "oct", "fine", "fine"])
        p["even"] = rng.random() < 0.7
        p["nonuni"] = rng.random() < 0.25
    r = rng.random()
    if r < 0.3:
        p["seeds"] = ["line", rng.randint(1, 13), rng.randint(0, 9)]
    elif r < 0.45:
        p["seeds"] = ["volume", rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)]
    elif r < 0.55:
        p["seeds"] = ["sphere", rng.randint(2, 4), rng.randint(2, 5)]
    elif r < 0.65:
        p["seeds"] = ["plane", rng.randint(2, 4), rng.randint(2, 4)]
    elif r < 0.7:
        p["seeds"] = ["field", 3]
    else:
        # some of them exactly on the faces between patches or cells
        p["seeds"] = ["points", [[rng.choice([-1.5, -1.0, -0.5, 0.0, 0.0, 0.0, 0.5, 1.0, 1.5, rng.randint(-18, 18) / 10.0])
                                  for _ in range(3)] for _ in range(rng.randint(1, 11))]]
    p["opts"] = {"output": rng.choice([1, 2, 3, 3]), "method": rng.choice(METHODS), "stream_dir": rng.choice([1, 2, 3, 3, 3]),
                 "maxit": rng.choice([1, 2, 12, 40, 40]), "ds0": rng.choice([0.1, 0.25, 0.25, 0.5]), "ibound": rng.choice([0.0, 0.0, 0.3])}
    if rng.random() < 0.3:
        p["opts"]["max_length"] = rng.choice([0.5, 2.0])
    if rng.random() < 0.2:
        p["opts"]["max_t"] = rng.choice([0.5, 2.0])
    if rng.random() < 0.2:
        p["opts"]["topo_style"] = "generic"
    if rng.random() < 0.15:
        p["opts"]["obound_r"] = 1.4
    if rng.random() < 0.2:
        p["opts"]["wrap"] = False
    return p


def gen_call(rng, np_):
    c = {"p": rng.randrange(np_), "np": rng.choice([1, 2, 2, 3, 3, 4, 5, "all"]), "cf": rng.choice([1, 1, 1, 2, 3, 50]),
         "threads": rng.random() < 0.55, "force": rng.random() < 0.3, "bad": rng.random() < 0.06,
         "dur": [rng.choice([0.0, 1.0, 1.0, 2.0, 5.0, 30.0]) for _ in range(rng.randint(1, 6))],
         "pick": [rng.randrange(5) for _ in range(rng.randint(1, 5))], "late": rng.random() < 0.5, "faults": [], "switches": [],
         "alloc": None}
    if c["threads"]:
        dense = rng.random() < 0.6
        c["switches"] = [[rng.choice([0, 0, 0, 1, 2, 4]) if dense else rng.choice([3, 10, 30, 100]), rng.randrange(6)]
                         for _ in range(rng.randint(5, 120))]
    elif rng.random() < 0.2:
        c["faults"] = [{"chunk": rng.randrange(4), "kind": rng.choice(["die_before", "die_after", "stuck", "slow"])}]
    if rng.random() < 0.06:
        c["alloc"] = {"cls": "alloc", "act": "err", "err": "ENOMEM", "pos": round(rng.random(), 4), "sticky": rng.random() < 0.5}
        c["np"], c["force"], c["threads"], c["switches"] = rng.choice([1, 3]), False, True, []
    return ["calc", c]


def generate(rng, tier):
    n = rng.choice([1, 1, 2])
    ps = [gen_problem(rng) for _ in range(n)]
    return {"problems": ps, "cpus": rng.choice([2, 3, 8]),
            "ops": [gen_call(rng, n) for _ in range(rng.randint(2, 6 if tier == "quick" else 12))]}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        c = op[1]
        h = len(c["switches"]) // 2
        for k, v in (("switches", []), ("switches", c["switches"][:h]), ("switches", c["switches"][h:]), ("faults", []),
                     ("dur", [1.0]), ("pick", [0]), ("cf", 1), ("np", 2)):
            if c[k] != v:
                yield dict(plan, ops=plan["ops"][:i] + [[op[0], dict(c, **{k: v})]] + plan["ops"][i + 1:])
    for j, p in enumerate(plan["problems"]):
        s = p["seeds"]
        alts = []
        if s[0] == "points" and len(s[1]) > 1:
            alts = [dict(p, seeds=["points", s[1][:k] + s[1][k + 1:]]) for k in range(len(s[1]))]
        elif s[0] == "line" and s[1] > 1:
            alts = [dict(p, seeds=["line", s[1] - 1, s[2]])]
        for a in alts:
            yield dict(plan, problems=plan["problems"][:j] + [a] + plan["problems"][j + 1:])


def fill(B, seed):
    X, Y, Z = B.get_crds(shaped=True)
    a = 0.3 + 0.1 * (seed % 5)
    B["x"] = 1.0 + a * Y - 0.6 * np.sign(X + 1e-9) * (seed % 2) + 0.0 * Z
    B["y"] = 0.5 - a * X + 0.2 * Z
    B["z"] = 0.3 + 0.4 * np.sin(X + seed) + 0.0 * Y
    return B


def axis(lo, hi, n, nonuni):
    x = np.linspace(lo, hi, n + 1)
    if nonuni:
        t = np.linspace(0.0, 1.0, n + 1)
        x = lo + (hi - lo) * (t + 0.25 * t * (1 - t))
        x[0], x[-1] = lo, hi
    return x


def boxes(split):
    h = {"x2": [(2, 1, 1)], "xy4": [(2, 2, 1)], "oct": [(2, 2, 2)], "fine": [(2, 2, 2)]}[split][0]

    def cut(n, lo, hi):
        e = np.linspace(lo, hi, n + 1)
        return [(float(e[i]), float(e[i + 1])) for i in range(n)]
    out = [(a, b, c) for c in cut(h[2], -2.0, 2.0) for b in cut(h[1], -2.0, 2.0) for a in cut(h[0], -2.0, 2.0)]
    if split == "fine":
        a, b, c = out.pop(3)
        out += [(x, y, z) for z in cut(2, *c) for y in cut(2, *b) for x in cut(2, *a)]
    return out


def build(viscid, p):
    s = p["seed"]
    if p["kind"] == "amr":
        from viscid.amr_field import AMRField
        from viscid.amr_grid import AMRSkeleton
        flds, grids = [], []
        for k, b in enumerate(boxes(p["split"])):
            n = [m + (0 if p["even"] else (k + d) % 3) for d, m in enumerate(p["shape"])]
            crds = [axis(lo, hi, m, p["nonuni"]) for (lo, hi), m in zip(b, n)]
            B = viscid.empty(crds, crd_names="xyz", nr_comps=3, center="cell", name="B", dtype=p["dtype"], layout=p["layout"])
            # patches are told apart by a little in what they hold
            fill(B, s + k)
            g = viscid.grid.Grid()
            g.set_crds(B.crds)
            flds.append(B)
            grids.append(g)
        B = AMRField(flds, AMRSkeleton(grids))
    else:
        n = list(p["shape"])
        crds = [axis(-2.0, 2.0, m, p["kind"] == "nonuni") for m in n]
        if p["kind"] == "flat2d":
            crds[1] = np.array([-0.5, 0.5])
        B = viscid.empty(crds, crd_names="xyz", nr_comps=3, center="node" if p["kind"] == "node" else "cell", name="B",
                         dtype=p["dtype"], layout=p["layout"])
        fill(B, s)
    q = p["seeds"]
    if q[0] == "line":
        k = q[2] * 0.05
        sd = viscid.Line((-1.5 + k, -0.5, -0.9), (1.4, 0.8 - k, 1.1), q[1])
    elif q[0] == "volume":
        sd = viscid.Volume((-1.0, -1.0, -1.0), (1.0, 1.0, 1.0), (q[1], q[2], q[3]))
    elif q[0] == "sphere":
        sd = viscid.Sphere((0.0, 0.1, 0.0), 1.1, ntheta=q[1], nphi=q[2])
    elif q[0] == "plane":
        sd = viscid.Plane((0.0, 0.0, 0.1), (0.2, 0.1, 1.0), (1.0, 0.0, 0.0), 2.0, 1.5, q[1], q[2])
    elif q[0] == "field":
        sd = viscid.zeros([np.linspace(-1.0, 1.0, q[1])] * 3, crd_names="xyz", center="cell", name="seeds")
    else:
        sd = viscid.Point(np.array(q[1], dtype="f8").T)
    return B, sd


def digests(viscid, res):
    lines, topo = res
    out = {"lines": None, "topo": None}
    if lines is not None:
        out["n"] = len(lines)
        out["lines"] = [core.digest(np.asarray(x)) for x in lines]
    if topo is not None:
        t = np.asarray(topo.data if hasattr(topo, "data") and not isinstance(topo, np.ndarray) else topo)
        out["topo"] = [str(t.dtype), list(t.shape), core.digest(t)]
        out["kind"] = type(topo).__name__
    return out


def execute(plan, env):
    import viscid
    world = simpool.start(env, {"cpus": plan["cpus"]})
    try:
        run(viscid, world, plan, env)
    finally:
        simpool.stop(env)


def run(viscid, world, plan, env):
    refs, objs = [], []
    for p in plan["problems"]:
        def alone(p=p):
            B, sd = build(viscid, p)
            return digests(viscid, viscid.calc_streamlines(B, sd, nr_procs=1, threads=False, **p["opts"]))
        r = core.in_child(alone)
        if r[0] == "died":
            env.bad("interpreter-died", "the serial calculation ended with %s" % r[1])
        refs.append(r)
        objs.append(build(viscid, p))
        env.ev("reference", r[0])
        if p["kind"] == "amr":
            env.hit("amr")
    for op in plan["ops"]:
        c = op[1]
        env.step("calc", {k: v for k, v in c.items() if k != "switches"})
        p = plan["problems"][c["p"]]
        B, sd = objs[c["p"]]
        ref = refs[c["p"]]
        world.nchunk = world.npick = 0
        world.order = []
        world.dur, world.pick, world.late = c["dur"], c["pick"], c["late"]
        world.faults = {f["chunk"]: f["kind"] for f in c["faults"]}
        fired0 = dict(env.faults)
        np0 = len(world.pools)
        opts = dict(p["opts"])
        if c["bad"]:
            opts["method"] = 9999
            env.hit("bad_options")
        s = simthread.start(env, c["switches"])
        fn = lambda: viscid.calc_streamlines(B, sd, nr_procs=c["np"], threads=c["threads"], chunk_factor=c["cf"],     # noqa: E731
                                             force_subprocess=c["force"], **opts)
        alloc = [c["alloc"]] if c["alloc"] else []
        with core.Faults(env, alloc, fn) as fl:
            ok, v = env.call("calc", fn)
        if s.error is not None:
            raise s.error
        env.hit("calcs")
        env.hit("switches", s.nswitch)
        fired = sorted(k for k in env.faults if env.faults[k] != fired0.get(k, 0))
        lost = any(k.startswith("worker:d") or k == "worker:stuck" for k in fired)
        env.hit("threads" if c["threads"] else "procs" if len(world.pools) > np0 else "serial")
        env.sig(p["kind"], p["seeds"], p["opts"]["method"], str(c["np"]), c["cf"], c["threads"], list(world.order), s.trail[:60], fired)
        env.ev("switches", s.nswitch, "points", s.points)
        if lost:
            env.hit("lost_chunk")
        for q in world.pools[np0:]:
            if q._state != "TERMINATE" and not q.joined:
                env.bad("pool-left-open", "the calculation left the pool it made open")
        if not ok:
            env.hit("raised")
            if not (c["bad"] or lost or fired or ref[0] == "exc"):
                env.bad("calc-failed", "%s, serially %s" % (core.exc_str(v), core.short(ref)))
            if fl.fired:
                env.hit("alloc_failed")
            continue
        if c["bad"]:
            env.bad("exception-lost", "an unknown method was taken")
        if ref[0] == "exc":
            env.bad("calc-differs", "the serial calculation raised %s, this one returned" % core.short(ref[1], 200))
        got = digests(viscid, v)
        env.hit("compared")
        want = ref[1]
        if got != want:
            what = []
            if got["lines"] != want["lines"] and got["lines"] and want["lines"]:
                what.append("lines %s of %d" % ([i for i in range(min(len(got["lines"]), len(want["lines"])))
                                                 if got["lines"][i] != want["lines"][i]][:8], want["n"]))
            else:
                what.append("%s, serially %s" % (core.short(got["topo"], 100), core.short(want["topo"], 100)))
            env.bad("calc-differs", "%s field, %s seeds, %s procs, chunk factor %s, threads %s: %s" %
                    (p["kind"], p["seeds"][0], c["np"], c["cf"], c["threads"], "; ".join(what)))
    # and alone again, in this session
    simthread.start(env, [])
    world.faults = {}
    for k, p in enumerate(plan["problems"]):
        ok, v = env.call("serial again", viscid.calc_streamlines, objs[k][0], objs[k][1], nr_procs=1, threads=False, **p["opts"])
        if ok != (refs[k][0] == "ok"):
            env.bad("session-broken", "calculating again: %s, in a new process %s" % (core.exc_str(v) if not ok else "ok", refs[k][0]))
        if ok and digests(viscid, v) != refs[k][1]:
            env.bad("session-broken", "calculating again gives something else than in a new process")
