"""C15: results cached on disk are either right or recomputed."""
import hashlib
import os

import numpy as np

from sim import core, session, simio
from sim.props.c08 import keep_tree, restore_tree
from sim.props.c09 import lose_unsynced
from sim.session import seeded

ID = "C15"
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("a run counts when its history of calls, crashes, damage and faults differs from every other run's and at least one result was "
        "compared with the one computed without a cache")
REAL = ["viscid.calculator.mpause.get_mp_info with everything it computes, saves and loads", "the cache handling and the tracing loop of "
        "viscid.calculator.separator.trace_separator", "savers and readers of hdf5/xdmf and npz, h5py/HDF5, numpy, curve_fit of scipy"]
STUB = ["viscid.find_nulls and viscid.get_sep_pts_bisect: cheap deterministic functions of all their arguments stand in for them", "a crash "
        "ends the process inside a chosen system call, a stop of the machine also loses what was not synced; system calls on files below "
        "the run's directory pass a layer that injects faults"]
STATE_MEASURE = "analysis x way of caching x state of the cache file x fault or crash and the call it hit x recomputed or not"
PROBES = ["calls", "from_cache", "recomputed", "crashes", "damaged", "damaged_then_read", "lost_unsynced", "fault_fired", "forced_over_other",
          "same_second", "other_options", "raised", "no_run", "user_open", "write_failed", "no_time"]

CRASHES = ["crash_before", "crash_after", "torn_crash"]
FAULTS = [{"cls": "write", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "torn_err", "err": "EIO"},
          {"cls": "write", "act": "short", "err": 0}, {"cls": "open", "act": "err", "err": "EACCES"},
          {"cls": "open", "act": "err", "err": "EMFILE"}, {"cls": "meta", "act": "err", "err": "EIO"},
          {"cls": "sync", "act": "err", "err": "EIO"}, {"cls": "close", "act": "err", "err": "EIO"},
          {"cls": "read", "act": "err", "err": "EIO"}, {"cls": "read", "act": "short", "err": 0},
          {"cls": "meta", "act": "err", "err": "EROFS"}, {"cls": "open", "act": "err", "err": "EROFS"},
          {"cls": "write", "act": "err", "err": "EDQUOT"}]
TIMES = [1200.0, 1200.25, 1200.4, 1260.0, 0.0, 3600.5, 1199.6]
NAMES = ["mp_xloc", "mp_sheath_edge", "mp_sphere_edge", "mp_width", "mp_shear", "pp_max", "pp_max_xloc", "epar_max", "epar_max_xloc"]
SLCS = [None, None, None, "x=6.5j:10.0j, y=-4.0j:4.0j, z=-3.6j:3.6j", "x=5.5j:11.0j, y=-2.0j:4.0j, z=-3.6j:3.6j"]
BSLCS = [None, None, None, "x=-25j:15j, y=-3j:3j, z=-15j:15j"]
OPTS = [None, None, None, {"ds0": 0.1}, {"ds0": 0.2, "ibound": 3.5}]
CALLS = {"n": 0}


def prepare():
    viscid = session.import_viscid()
    import h5py                                 # noqa: F401
    from scipy.optimize import curve_fit        # noqa: F401
    from viscid.calculator import mpause, separator
    viscid.find_nulls = nulls_stub
    viscid.get_sep_pts_bisect = bisect_stub
    for n, f in (("find_nulls", nulls_stub), ("get_sep_pts_bisect", bisect_stub)):
        if hasattr(separator, n):
            setattr(separator, n, f)
    edges = mpause.find_mp_edges

    def counted(*a, **k):
        CALLS["n"] += 1
        return edges(*a, **k)
    mpause.find_mp_edges = counted


# ------------------------------------------------------------------ stand-ins
def rnd_of(*what):
    h = hashlib.sha256()
    for w in what:
        h.update(np.ascontiguousarray(w).tobytes() if isinstance(w, np.ndarray) else repr(w).encode())
    return np.random.RandomState(int.from_bytes(h.digest()[:4], "big"))


def nulls_stub(fld, ibound=0.0, **kwargs):
    CALLS["n"] += 1
    rnd = rnd_of("nulls", np.array(fld.data), np.array(fld.get_crds()[0]), ibound, sorted(kwargs.items()))
    n = rnd.choice([0, 2, 3, 4, 5], p=[0.03, 0.3, 0.3, 0.3, 0.07])
    return None, np.round(10.0 * rnd.rand(3, n) - 5.0, 3)


def bisect_stub(fld, seed, max_depth=8, plot=False, trace_opts=None, **kwargs):
    # results don't depend on the last bits of the seeds, which differ from one memory layout to another
    CALLS["n"] += 1
    p0 = np.round(np.asarray(seed.p0, dtype="f8").reshape(3), 4) + 0.0
    n = seed.get_nr_points()
    rnd = rnd_of("bisect", np.array(fld.data), p0, n, round(float(seed.r), 6), max_depth, sorted((trace_opts or {}).items()),
                 sorted(kwargs.items()))
    n = rnd.choice([0, 1, 2], p=[0.3, 0.65, 0.05])
    if max_depth == 12:
        n = rnd.choice([0, 1, 2, 3, 13], p=[0.05, 0.3, 0.45, 0.1, 0.1])
    u = rnd.rand(3, n) - 0.5
    u /= np.sqrt(u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
    return np.round(p0.reshape(3, 1) + float(seed.r) * u, 4) + 0.0


# ------------------------------------------------------------------ plans
def gen_call(rng, an=None):
    an = an or rng.choice(["mp", "mp", "sep"])
    o = {"an": an, "run": rng.choice([0, 0, 0, 0, 1, None]), "t": rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]), "in": 0,
         "cache": rng.choice([True, True, True, True, True, False, "force", " Force"]), "dir": rng.choice([0, 0, 0, 0, 0, 1, 2, 3]),
         "fault": None}
    if an == "mp":
        o.update(slc=rng.choice(SLCS), e=rng.random() < 0.8, fit=rng.choice([None, None, "pp_max_xloc"]),
                 p0=rng.choice([None, None, 8.0]))
    else:
        o.update(slc=rng.choice(BSLCS), r=rng.choice([None, None, None, 0.5]), opts=rng.choice(OPTS))
    return o


def generate(rng, tier):
    ops = []
    base = gen_call(rng)
    for _ in range(rng.randint(3, 8 if tier == "quick" else 16)):
        c = gen_call(rng, base["an"] if rng.random() < 0.8 else None)
        if rng.random() < 0.35:
            c = dict(base, cache=True if rng.random() < 0.8 else c["cache"])
        elif c["an"] == base["an"] and rng.random() < 0.75:
            # mostly the same call, with one thing changed
            b = dict(base)
            for k in rng.sample(sorted(c), rng.choice([0, 0, 1, 1, 2])):
                b[k] = c[k]
            b["cache"] = c["cache"]
            c = b
        r = rng.random()
        if r < 0.5:
            ops.append(["call", c])
        elif r < 0.65:
            f = dict(rng.choice(FAULTS))
            f.update(pos=round(rng.random(), 4), frac=round(rng.choice([0.0, 0.3, 0.9]), 2), sticky=rng.random() < 0.35)
            ops.append(["call", dict(c, fault=f)])
        elif r < 0.8:
            k = {"cls": rng.choice(["mutate", "mutate", "mutate", "meta", "write", "open", "close", "sync", "any"]),
                 "act": rng.choice(CRASHES), "pos": round(rng.random(), 4), "frac": round(rng.choice([0.0, 0.1, 0.5, 0.9, 0.99]), 2),
                 "lose": rng.choice([None, None, 0.0, 0.5, 0.97])}
            ops.append(["crash", c, k])
            if rng.random() < 0.6:
                ops.append(["call", dict(c, cache=True)])
        elif r < 0.9:
            ops.append(["damage", rng.randint(0, 40), rng.choice(["trunc", "trunc", "empty", "delete", "dir", "garbage", "old"]),
                        round(rng.random(), 4)])
            ops.append(["call", dict(c if rng.random() < 0.4 else base, cache=True)])
        elif r < 0.94:
            ops.append(["open", rng.randint(0, 9)])
        elif r < 0.97:
            ops.append(["call", dict(c, **{"in": 1, "cache": "force"})])
            ops.append(["call", dict(c, **{"cache": rng.choice([False, "force", "force"])})])
        else:
            ops.append(["rmdir"])
    return {"ops": ops, "seed": rng.randint(0, 9999), "dt": rng.choice(["f8", "f8", "f4"]), "layout": rng.choice(["interlaced", "flat"]),
            "gse": rng.random() < 0.97, "timeless": rng.random() < 0.03}


def shrink(plan):
    for k, v in (("dt", "f8"), ("layout", "interlaced"), ("seed", 0)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for i, op in enumerate(plan["ops"]):
        if op[0] in ("call", "crash"):
            for k, v in (("fault", None), ("dir", 0), ("slc", None), ("fit", None), ("p0", None), ("opts", None), ("r", None), ("e", True),
                         ("cache", True), ("run", 0), ("t", 0)):
                if k in op[1] and op[1][k] != v:
                    yield dict(plan, ops=plan["ops"][:i] + [[op[0], dict(op[1], **{k: v})] + op[2:]] + plan["ops"][i + 1:])


# ------------------------------------------------------------------ inputs
def fields(viscid, plan, o, d):
    """the fields of run o['run'] at its time; every (run, time, in) has its own data"""
    t = TIMES[o["t"]]
    if plan["timeless"]:
        o = dict(o, t=0)        # nothing tells the data of one time from that of another
    rnd = np.random.RandomState((plan["seed"] * 1009 + o["t"] * 31 + (o["run"] or 0) * 7 + o["in"] * 3) % 2 ** 31)
    x, y, z = np.linspace(4.5, 12, 16), np.linspace(-4.5, 4.5, 6), np.linspace(-4.0, 4.0, 7)
    X, Y, Z = np.meshgrid(*[0.5 * (c[1:] + c[:-1]) for c in (x, y, z)], indexing="ij")
    x0 = 9 + rnd.rand() - 0.05 * (Y ** 2 + Z ** 2) + 0.3 * rnd.rand()
    b = np.stack([rnd.rand(*X.shape), rnd.rand(*X.shape), np.tanh(x0 - X) * 50 + rnd.rand(*X.shape)], axis=-1)
    j = np.stack([0.1 * rnd.rand(*X.shape), 1.0 / np.cosh(x0 - X) ** 2, 0.1 * rnd.rand(*X.shape)], axis=-1)
    e = rnd.rand(*(X.shape + (3,)))
    pp = np.exp(-(X - x0 - 1) ** 2) + 0.01 * rnd.rand(*X.shape)
    g = viscid.grid.Grid(name="g")
    out = []
    for a, n in ((pp, "pp"), (b, "b"), (j, "j"), (e, "e")):
        a = np.asarray(a, dtype=plan["dt"])
        f = viscid.arrays2field((x, y, z), a, name=n, center="cell")
        if a.ndim == 4 and plan["layout"] == "flat":
            f = f.as_flat()
        out.append(f)
    g.set_crds(out[0].crds)
    g.time = None if plan["timeless"] else t
    if o["run"] is not None:
        g.set_info("run", "run%d" % o["run"])
    g.set_info("_viscid_dirname", d)
    if plan["gse"]:
        g.set_info("crd_system", "gse")
    for f in out:
        f.time = g.time
        g.add_field(f)
    return g


def show(viscid, o, v):
    """everything of a result that its user sees"""
    if o["an"] == "sep":
        seps, nulls = v
        return [[core.digest(np.asarray(s)) for s in seps], core.digest(np.asarray(nulls))]
    out = {"keys": sorted(v)}
    for n in sorted(v):
        f = v[n]
        if n == "paraboloid":
            out[n] = [str(f.dtype.names), [[float(x) for x in row] for row in f.tolist()]]
            continue
        a = np.ma.getdata(f.data)
        out[n] = [str(a.dtype.newbyteorder("=")), [int(n) for n in f.shape], hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:12],
                  bool(np.ma.is_masked(f.data)), str(f.center), None if f.time is None else float(f.time), f.name, f.pretty_name, list(f.crds.axes),
                  [core.digest(np.asarray(c)) for c in f.get_crds(shaped=False)], str(viscid.as_crd_system(f, None))]
    return out


def run(viscid, plan, o, dirs):
    g = fields(viscid, plan, o, dirs[1 if o["dir"] == 1 else 0])
    a = {}
    if o["dir"] == 2:
        a["cache_dir"] = dirs[1]
    elif o["dir"] == 3:
        a["cache_dir"] = dirs[2]
    if o["cache"] is not True:
        a["cache"] = o["cache"]
    if o["an"] == "sep":
        if o["slc"]:
            a["b_slcstr"] = o["slc"]
        if o["r"]:
            a["r"] = o["r"]
        if o["opts"]:
            a["trace_opts"] = dict(o["opts"])
        return viscid.trace_separator(g, **a)
    if o["slc"]:
        a["slc"] = o["slc"]
    if o["fit"]:
        a["fit"] = o["fit"]
    if o["p0"]:
        a["fit_p0"] = (o["p0"], 0.0, 0.0, 1.0, -1.0, -1.0)
    return viscid.get_mp_info(g["pp"], g["b"], g["j"], g["e"] if o["e"] else None, **a)


def files(dirs):
    return [n for d in dirs if os.path.isdir(d) for n in os.listdir(d)]


def stamps(d):
    """which files there are, and what is in them"""
    out = []
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with open(p, "rb") as f:
                out.append((n, core.digest(f.read())))
    return out


def exc_of(e):
    return ["raised", type(e).__name__, str(e)[:100]]


# ------------------------------------------------------------------ run
def execute(plan, env):
    import viscid
    simio.set_root(env.root)
    root = env.path("data")
    dirs = [env.path("data", "a"), env.path("data", "b"), env.path("data", "none", "such")]
    for d in dirs[:2]:
        os.makedirs(d)
    want = {}               # what every call gives without a cache
    kept = []
    foreign = set()         # caches that were written for other data
    opened = []
    touched = False

    def key(o):
        return repr(sorted((k, v) for k, v in o.items() if k not in ("fault", "cache", "dir")))

    def slot(o):
        d = {0: 0, 1: 1, 2: 1, 3: 2}[o["dir"]]
        return (o["an"], o["run"], d, o["t"])

    def reference(o):
        k = key(o)
        if k not in want:
            def clean():
                simio.disarm()
                simio.set_root(None)
                try:
                    return show(viscid, o, run(viscid, plan, dict(o, cache=False), [env.path("none")] * 3))
                except Exception as e:      # pylint: disable=broad-except
                    return exc_of(e)
            r = core.in_child(clean)
            if r[0] != "ok":
                raise core.HarnessError("reference: %s" % (r,))
            want[k] = r[1]
        return want[k]

    def differ(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return "; ".join("%s: %s, without cache %s" % (n, a.get(n), b.get(n)) for n in sorted(set(a) | set(b))
                             if a.get(n) != b.get(n))[:700]
        return "%s, without cache %s" % (core.short(a, 300), core.short(b, 300))

    def same(a, b):
        """bit by bit, except for the fit, which goes through linear algebra"""
        if isinstance(a, dict) and isinstance(b, dict):
            a, b = dict(a), dict(b)
            x, y = a.pop("paraboloid"), b.pop("paraboloid")
            scale = 1e-3 * max([1.0] + [abs(v) for row in y[1] for v in row if np.isfinite(v)])
            return a == b and x[0] == y[0] and np.allclose(x[1], y[1], rtol=1e-2, atol=scale, equal_nan=True)
        if isinstance(a, dict) != isinstance(b, dict) and "Optimal parameters" in str(a) + str(b):
            env.ev("a fit on the edge")
            return True
        return a == b

    def fix(o):
        """a cache that holds another run's results may only be ignored"""
        o = dict(o, cache=o["cache"])
        if slot(o) in foreign and o["cache"] is True:
            o["cache"] = "force"
        return o

    def what_of(o):
        return "%s(%s)" % ({"mp": "get_mp_info", "sep": "trace_separator"}[o["an"]], ", ".join(
            "%s=%r" % (k, TIMES[v] if k == "t" else v) for k, v in sorted(o.items()) if k not in ("an", "fault")))

    last = None
    for op in plan["ops"]:
        env.step(*op)
        if op[0] == "call":
            o = fix(op[1])
            ref = reference(o)
            what = what_of(o)
            fn = lambda: run(viscid, plan, o, dirs)     # noqa: E731
            n0 = CALLS["n"]
            mine = files(dirs)
            stamp = [stamps(d) for d in dirs]
            if o["fault"]:
                was = keep_tree(root)
                with core.Faults(env, [o["fault"]], fn, lambda: restore_tree(root, was)) as fl:
                    ok, v = env.call("call", fn)
                    # lazily loaded data must not appear later on
                    got = [show(viscid, o, v) if ok else exc_of(v)] if not fl.specs else None
                if fl.fired:
                    env.hit("fault_fired")
                    if o["fault"]["cls"] in ("write", "meta", "sync"):
                        env.hit("write_failed")
                got = show(viscid, o, v) if ok else exc_of(v)
                fired = bool(fl.fired)
            else:
                ok, v = env.call("call", fn)
                got = show(viscid, o, v) if ok else exc_of(v)
                fired = False
            if not same(got, ref):
                env.bad("wrong-result", "%s%s: %s" % (what, " while %s fails" % o["fault"]["cls"] if fired else "", differ(got, ref)))
            for i, d in enumerate(dirs):
                if stamps(d) != stamp[i] and (o["cache"] is False or i != {0: 0, 1: 1, 2: 1, 3: 2}[o["dir"]]):
                    env.bad("wrote-elsewhere", "%s wrote to %s" % (what, d))
            env.hit("calls")
            again = CALLS["n"] != n0
            if ok:
                kept.append((o, v, what))
                env.hit("recomputed" if again else "from_cache")
            else:
                env.hit("raised")
                env.ev(got)
            if o["run"] is None:
                env.hit("no_run")
            if plan["timeless"]:
                env.hit("no_time")
            if touched:
                env.hit("damaged_then_read")
            if last and last["t"] != o["t"] and set([last["t"], o["t"]]) <= set([0, 1, 2, 6]):
                env.hit("same_second")
            if last and last["t"] == o["t"] and key(last) != key(o):
                env.hit("other_options")
            last = o
            if slot(o) in foreign and str(o["cache"]).strip().lower() == "force":
                env.hit("forced_over_other")
            if o["in"] and o["cache"] is not False:
                foreign.add(slot(o))
            env.sig(o["an"], str(o["cache"]), o["dir"], o["run"] is None, touched, again, ok, fired and o["fault"]["cls"],
                    fired and o["fault"]["act"], len(mine))
            touched = False
        elif op[0] == "crash":
            o, c = fix(op[1]), op[2]
            was = keep_tree(root)
            counts = core.dry_counts(lambda: run(viscid, plan, o, dirs))
            restore_tree(root, was)
            n = sum(counts.get(x, 0) for x in parts(c["cls"]))
            if not n:
                env.ev("nothing to hit")
                continue
            nth = int(c["pos"] * n)
            simio.start_log()

            def crash():
                simio.reset()
                simio.rule(c["cls"], nth, c["act"], 0, c["frac"])
                run(viscid, plan, o, dirs)
                return "finished"
            r = core.in_child(crash)
            log = simio.get_log()
            simio.stop_log()
            env.ev("crashed" if r == ("died", simio.CRASH_EXIT) else str(r[0]), "at", nth, "of", n)
            if r == ("died", simio.CRASH_EXIT):
                env.hit("crashes")
                env.fault("%s:%s" % (c["cls"], c["act"]))
                if c["lose"] is not None and lose_unsynced(env.root, log, c["lose"]):
                    env.hit("lost_unsynced")
                    env.fault("machine:unsynced-lost")
                env.sig("crash", o["an"], str(o["cache"]), c["act"], c["cls"], log[-1][0] if log else "-", c["lose"])
            if o["in"]:
                foreign.add(slot(o))
        elif op[0] == "damage":
            fs = sorted(os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns)
            if not fs:
                continue
            p = fs[op[1] % len(fs)]
            with open(p, "rb") as f:
                blob = f.read()
            os.unlink(p)
            if op[2] == "dir":
                os.mkdir(p)
            elif op[2] == "garbage":
                with open(p, "wb") as f:
                    f.write(seeded("garbage", op[1]).randbytes(len(blob)))
            elif op[2] == "trunc":
                n = int(op[3] * len(blob))
                if p.endswith(".xdmf"):
                    n = min(n, len(blob.rstrip()) - 1)
                with open(p, "wb") as f:
                    f.write(blob[:n])
            elif op[2] == "empty":
                open(p, "wb").close()
            elif op[2] == "old":
                # the file of an interrupted copy: nothing but zeros
                with open(p, "wb") as f:
                    f.write(b"\0" * len(blob))
            env.hit("damaged")
            env.fault("disk:" + op[2])
            touched = True
            env.ev(os.path.relpath(p, root))
        elif op[0] == "open":
            fs = sorted(os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns if n.endswith(".xdmf"))
            if fs:
                ok, f = env.call("open", viscid.load_file, fs[op[1] % len(fs)])
                if ok:
                    opened.append(f)
                    env.hit("user_open")
        elif op[0] == "rmdir":
            for d in dirs[:2]:
                for n in os.listdir(d):
                    p = os.path.join(d, n)
                    if os.path.isdir(p):
                        os.rmdir(p)
                    else:
                        os.unlink(p)
    # what was given before is still the same
    for o, v, what in kept:
        ok, got = env.call("again", show, viscid, o, v)
        if not ok or not same(got, reference(o)):
            env.bad("result-changed-later", "%s: %s" % (what, differ(got, reference(o)) if ok else core.exc_str(got)))


def parts(cls):
    return {"mutate": ["write", "meta", "open"], "any": ["open", "read", "write", "close", "meta", "sync"]}.get(cls, [cls])
