"""C16: a multiplot plots every selected time once, with its index and its data."""
import copy
import hashlib
import json
import mmap
import os

from sim import core, formats, session, simio, simpool, simthread
from sim.props.c07 import gen_sel1, gen_slice, make_sel
from sim.session import Disk, gen_fault, look_grid, match_snap, raised_any, seeded

ID = "C16"
RUNS = {"quick": 800, "thorough": 30000}
RULE = ("a run counts when its history of calls, schedules and faults differs from every other run's and at least one multiplot was "
        "judged")
REAL = ["viscid.multiplot, viscid.parallel, readers, dataset, grid, field", "matplotlib's Agg backend and viscid.plot where figures are "
        "drawn", "worker processes are real forks with pickled grids and results"]
STUB = ["multiprocessing.Pool: which worker takes which frames, how long they take, and death of workers are decided by the plan on a "
        "simulated clock", "system calls on files below the run's directory pass a layer that injects faults"]
STATE_MEASURE = "format x plot function x number of processes x kind of selection x number of frames x order of the chunks x faults x outcome"
PROBES = ["calls", "frames", "parallel", "figures", "figures_compared", "raised", "empty", "single_frame", "lost", "fault_fired", "own_layout",
          "dirty_figure"]
SHRINK_LISTS = ["ops"]
CPU_LIMIT = 120

LOG = None
CUR = {}
SIZE = 1 << 20


class PlotError(Exception):
    pass


ERRS = {"plot": PlotError, "value": ValueError, "key": KeyError, "stop": StopIteration, "mem": MemoryError, "os": OSError}


def prepare():
    simpool.install()
    session.import_viscid()
    import matplotlib
    matplotlib.use("Agg")
    from viscid.plot import vpyplot         # noqa: F401
    import matplotlib.pyplot as plt
    import viscid.multiplot                 # noqa: F401
    # fonts are looked up once
    plt.figure(figsize=(1, 1), dpi=20)
    plt.title("0")
    plt.savefig(os.devnull, format="png")
    plt.close("all")


# ------------------------------------------------------------------ what the plot function saw
def record(x):
    b = json.dumps(x).encode() + b"\n"
    n = int.from_bytes(LOG[:8], "little")
    if 8 + n + len(b) > SIZE:
        raise core.HarnessError("record too long")
    LOG[8 + n:8 + n + len(b)] = b
    LOG[:8] = (n + len(b)).to_bytes(8, "little")


def records():
    n = int.from_bytes(LOG[:8], "little")
    return [json.loads(s) for s in LOG[8:8 + n].decode().splitlines()]


def plot(tind, grid, first_run=None, first_run_result=None, **kwargs):
    """the caller's plot function: notes what it is given"""
    r = {"tind": int(tind), "first": bool(first_run), "frr": first_run_result, "bad": None, "kw": None}
    if not (first_run is True or first_run is False):
        r["bad"] = ["wrong-arguments", "first_run is %r" % (first_run,)]
    elif kwargs != CUR["kw"]:
        r["bad"] = ["wrong-arguments", "keyword arguments %r instead of %r" % (kwargs, CUR["kw"])]
    else:
        o = look_grid(grid, seeded(CUR["seed"], tind), [0, 1, 2, 3, 4])
        ks = CUR["ks"]
        if not 0 <= tind < len(ks):
            r["bad"] = ["wrong-index", "index %r of %d frames" % (tind, len(ks))]
        else:
            m = match_snap(o, CUR["truth"][ks[tind]], CUR["K"], CUR["strict"], "frame %d" % tind)
            r["bad"] = list(m) if m else None
        r["raised"] = raised_any({"snaps": [o], "err": None})
    record(r)
    if tind in CUR["bad"]:
        raise ERRS[CUR["err"]](int(tind))
    if r.get("raised"):
        raise PlotError("could not read")
    return {"from": int(tind), "text": "x" * (int(tind) + 1)} if CUR["ret"] else None


# ------------------------------------------------------------------ plans
def gen_op(rng, fig):
    o = {"np": rng.choice([1, 1, 2, 2, 3, 4, 6]), "sel": gen_slice(rng) if rng.random() < 0.75 else gen_sel1(rng),
         "fig": fig and rng.random() < 0.9, "bad": [], "err": rng.choice(sorted(ERRS)), "ret": rng.random() < 0.7, "kw": rng.randint(0, 4),
         "seed": rng.randint(0, 999), "dur": [rng.choice([0.0, 0.1, 1.0, 1.0, 2.0, 5.0, 30.0]) for _ in range(rng.randint(1, 7))],
         "pick": [rng.randrange(5) for _ in range(rng.randint(1, 7))], "late": rng.random() < 0.5, "die": None, "fault": None,
         "close": rng.random() < 0.4, "layout": False}
    r = rng.random()
    if r < 0.25:
        o["bad"] = sorted(set(rng.randrange(6) for _ in range(rng.choice([1, 1, 2]))))
    elif r < 0.4:
        o["fault"] = gen_fault(rng, [f for f in session.READ_FAULTS if f["cls"] != "alloc"] +
                               ([{"cls": "write", "act": "err", "err": "ENOSPC"}] * 3 if o["fig"] else []), 0.4)
    elif r < 0.5:
        o["die"] = [rng.randrange(6), rng.choice(["die_before", "die_after", "stuck", "slow"])]
    elif r < 0.55:
        o["layout"] = True
    return ["plot", o]


def generate(rng, tier):
    kinds = sorted(formats.KINDS)
    fig = rng.random() < 0.22
    if fig:
        kinds += ["xdmfs"] * 8 + ["xdmft", "ggcm", "jrrle"]
    many = rng.random() < 0.9
    for _ in range(20):
        w = formats.gen_world(rng, 0, kinds, nt=rng.choice([2, 3, 4, 5, 6]) if many else 1)
        K = formats.KINDS[w["kind"]]
        if not many or len(K.truth(w, 0)) > 1:
            break
    ops = []
    for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
        r = rng.random()
        if r < 0.75:
            ops.append(gen_op(rng, fig))
        elif r < 0.88:
            ops.append(["damage", rng.randint(0, 40), rng.choice(["trunc", "delete", "empty"]), round(rng.random(), 4)])
            ops.append(gen_op(rng, fig))
        elif r < 0.94:
            ops.append(["heal"])
        else:
            ops.append(["look", rng.randint(0, 99)])
    if not any(o[0] == "plot" for o in ops) or (fig and len(ops) < 2):
        ops.append(gen_op(rng, fig))
    return {"worlds": [w], "ops": ops, "cpus": rng.choice([1, 2, 4]), "style": rng.randint(0, 999)}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op[0] == "plot":
            for k, v in (("bad", op[1]["bad"][:1]), ("dur", [1.0]), ("pick", [0]), ("late", False), ("die", None), ("fault", None),
                         ("np", 1), ("np", 2), ("kw", 0), ("sel", ["all", 0, 0]), ("layout", False), ("close", True)):
                if op[1][k] != v:
                    yield dict(plan, ops=plan["ops"][:i] + [["plot", dict(op[1], **{k: v})]] + plan["ops"][i + 1:])


def user_kw(k):
    return [{}, {"a": 1}, {"kwopts": {"x": [1, 2], "y": {"z": "s"}}}, {"items": [["a", {"b": 1}], ["c", {}]], "scale": 2.5},
            {"kwopts": {}, "show": None}][k]


def fig_vars(plan, truth, seed):
    """fields to draw: scalar ones that are in every snapshot, cut to a plane or a line"""
    rnd = seeded("fig", seed)
    names = None
    for s in truth:
        if len(s["patches"]) != 1:
            return None
        for p in s["patches"]:
            n = set(k for k, x in p["fields"].items() if x["data"].ndim == len(p["crds"]) and "," not in k and "=" not in k)
            names = n if names is None else names & n
    if not names:
        return None
    p = truth[0]["patches"][0]
    axes = [a for a, _ in p["crds"]]
    if len(axes) < 2:
        return None
    pv = []
    n = sorted(names)
    rnd.shuffle(n)
    for k in range(rnd.choice([1, 2, 2])):
        x = n[k % len(n)]
        cut = "" if len(axes) == 2 else ",%s=%d" % (rnd.choice(axes), rnd.randint(0, 1))
        pv.append([x + cut, rnd.choice([{}, {"plot_opts": ""}, {"plot_opts": "lin"}, {"cbar": False}])])
    if rnd.random() < 0.12:
        pv.append(["nosuchfield", {}])
    if len(pv) == 2 and rnd.random() < 0.2:
        pv[1][0] = "^" + pv[1][0]
    return pv


def digest(path):
    """digest of a complete picture, None of one that was cut off"""
    with open(path, "rb") as f:
        b = f.read()
    return hashlib.sha256(b).hexdigest()[:16] if b[-8:-4] == b"IEND" else None


# ------------------------------------------------------------------ run
def execute(plan, env):
    global LOG
    import viscid
    from viscid.multiplot import make_multiplot
    import matplotlib.pyplot as plt
    LOG = mmap.mmap(-1, SIZE)
    disk = Disk(env, plan["worlds"])
    disk.put(0, 0)
    healthy = Disk(env, plan["worlds"], sub=["healthy"])
    healthy.put(0, 0)
    simio.set_root(env.root)
    world = simpool.start(env, {"cpus": plan["cpus"]})
    st = {"f": None, "damaged": False, "fail": None, "n": 0}
    figdir = env.path("figs")
    os.makedirs(figdir, exist_ok=True)
    rnd = seeded("style", plan["style"])
    style = {"plot_size": (2, 1.5), "dpi": 40}
    if rnd.random() < 0.3:
        style["tighten"] = True
    try:
        for op in plan["ops"]:
            env.step(op[0], op[1:])
            if op[0] == "plot":
                one(plan, env, viscid, make_multiplot, plt, disk, healthy, world, st, op[1], style, figdir)
            elif op[0] == "damage":
                open_run(env, viscid, disk, st)
                if disk.damage(0, op[1], op[2], op[3], skip=(".log",)):
                    st["damaged"] = True
            elif op[0] == "heal":
                disk.heal(0)
                st["damaged"] = False
                st["f"] = None
                viscid.unload_all_files()
            elif op[0] == "look" and st["f"] is not None:
                env.call("look", lambda: [look_grid(g) for g in st["f"].iter_times()])
    finally:
        plt.close("all")
        simpool.stop(env)


def do_load(viscid, d):
    f = viscid.load_file(d.target(0), **d.kwargs(0))
    if f is None:
        raise IOError("load_file gave None")
    return f


def open_run(env, viscid, disk, st):
    """it is opened while it is healthy, so its snapshots are known"""
    if st["f"] is None:
        st["f"] = env.must("load-raised", "load", do_load, viscid, disk)


def one(plan, env, viscid, make_multiplot, plt, disk, healthy, world, st, o, style, figdir):
    K = disk.kind(0)
    truth = disk.truth(0)
    times = [s["time"] for s in truth]

    def load(d=disk):
        return do_load(viscid, d)
    open_run(env, viscid, disk, st)
    f = st["f"]
    if len(truth) == 1:
        sel, ks = ":", [0]
    elif any(t is None for t in times) or len(set(times)) < len(times):
        sel, ks = ":", list(range(len(times)))
    else:
        sel, ks = make_sel(o["sel"], times)
    what = "make_multiplot of %s, times %s selected by %r, %d processes" % (K.name, times, sel, o["np"])
    bad = [] if o["fig"] else [k for k in o["bad"] if ks and k < len(ks)]
    kw = copy.deepcopy(user_kw(o["kw"]))
    fig = o["fig"] and bool(ks)
    pv = fig_vars(plan, truth, o["seed"]) if fig else None
    fig = fig and pv is not None
    ref = None
    st["n"] += 1
    if fig:
        prefix = os.path.join(figdir, "f%d" % st["n"])
        kw = {"plot_vars": pv, "kwopts": dict(style, out_prefix=prefix)}
        r = seeded("own style", o["seed"])
        if r.random() < 0.3:
            kw["kwopts"]["transpose"] = True
        if r.random() < 0.4:
            kw["kwopts"]["timeformat"] = r.choice(["none", "none", "hms", ".03f"])
        if r.random() < 0.1:
            kw["kwopts"]["out_format"] = "nosuch"
        if o["kw"] == 1:
            kw["global_popts"] = "lin"
        elif o["kw"] == 2:
            kw["share_axes"] = True
        ref = reference(env, make_multiplot, plt, lambda: load(healthy), len(truth), ks, kw, os.path.join(figdir, "r%d" % st["n"]))
        if o["close"] or style.get("tighten"):
            plt.close("all")
        else:
            env.hit("dirty_figure")
        env.hit("figures")
    elif o["layout"]:
        kw.setdefault("kwopts", {})["subplot_params"] = {"left": 0.1}
        env.hit("own_layout")
    kw0 = copy.deepcopy(kw)
    if not ks:
        env.hit("empty")
    CUR.clear()
    CUR.update(ks=ks or [], truth=truth, K=K, strict=not st["damaged"] and o["fault"] is None, bad=bad, err=o["err"], ret=o["ret"],
               kw=kw0, seed=o["seed"])
    LOG[:8] = b"\0" * 8
    world.nchunk = world.npick = 0
    world.order = []
    world.dur, world.pick, world.late = o["dur"], o["pick"], o["late"]
    world.faults = {o["die"][0]: o["die"][1]} if o["die"] else {}
    npools = len(world.pools)
    fired0 = dict(env.faults)
    simthread.start(env, [])

    def call():
        a = {} if fig else {"plot_func": plot}
        if o["np"] != 1:
            a["nr_procs"] = o["np"]
        return make_multiplot(f, time_slice=sel, **a, **kw)

    faults = [o["fault"]] if o["fault"] else []
    keep = None
    if faults:
        keep = set(os.listdir(figdir))

    def undo():
        for n in os.listdir(figdir):
            if n not in keep:
                os.unlink(os.path.join(figdir, n))
        LOG[:8] = b"\0" * 8
    with core.Faults(env, faults, call, undo) as fl:
        # what workers do counts from there on
        ok, v = env.call("make_multiplot", call)
    env.hit("calls")
    if o["np"] > 1:
        env.hit("parallel")
    if fl.fired:
        env.hit("fault_fired")
    fired = sorted(k for k in env.faults if env.faults[k] != fired0.get(k, 0))
    lost = any(k in ("worker:stuck", "worker:die_before", "worker:die_after") for k in fired)
    if lost:
        env.hit("lost")
    excuse = st["damaged"] or bool(faults) or lost
    env.sig(K.name, fig, o["np"], o["sel"][0], len(ks or ()), list(world.order), fired, ok, bool(bad))
    for p in world.pools[npools:]:
        if p._state == "RUN":
            env.bad("workers-left", "%s left a pool of workers open" % what)
        if p._state == "CLOSE" and not p.joined and (p._lost or p._queue or any(w.busy for w in p._workers)):
            env.bad("workers-left", "%s left worker processes behind" % what)
        p.terminate()
    if kw != kw0:
        env.bad("options-changed", "%s changed its caller's options from %r to %r" % (what, kw0, kw))
    if ks is None or not ks:
        if ok:
            env.bad("no-data-no-error", "%s returned although nothing is selected" % what)
        if records():
            env.bad("plotted-unselected", "%s plotted although nothing is selected" % what)
        return
    recs = records()
    if not fig:
        seen = [r["tind"] for r in recs]
        for r in recs:
            if r["bad"]:
                env.bad(r["bad"][0], "%s: %s" % (what, r["bad"][1]))
        if len(set(seen)) < len(seen):
            env.bad("plotted-twice", "%s plotted frames %s" % (what, seen))
        if o["np"] == 1 and seen != sorted(seen):
            env.bad("wrong-order", "%s plotted frames in the order %s" % (what, seen))
        want = {"from": 0, "text": "x"} if o["ret"] else None
        for r in recs:
            if r["first"] and r["tind"] != 0:
                env.bad("wrong-arguments", "%s: frame %d is told that it is the first" % (what, r["tind"]))
            if not o["layout"] and not r["first"] and r["tind"] == 0:
                env.bad("wrong-arguments", "%s: frame 0 is not told that it is the first" % what)
            if not o["layout"] and not r["first"] and r["frr"] != want:
                env.bad("wrong-arguments", "%s: frame %d gets %r as result of the first" % (what, r["tind"], r["frr"]))
            if r["first"] and r["frr"] is not None:
                env.bad("wrong-arguments", "%s: the first frame gets %r as result of the first" % (what, r["frr"]))
        env.hit("frames", len(recs))
        if ok:
            if sorted(seen) != list(range(len(ks))):
                env.bad("frames-missing", "%s returned but plotted only frames %s of %d" % (what, seen, len(ks)))
            if bad or any(r.get("raised") for r in recs):
                env.bad("failure-not-reported", "%s returned although plots of frames %s failed" % (
                    what, bad or [r["tind"] for r in recs if r.get("raised")]))
            if len(ks) == 1:
                env.hit("single_frame")
        else:
            env.hit("raised")
            if bad and not excuse:
                t = ERRS[o["err"]]
                # a generator may not pass StopIteration on
                if not (type(v) is t and v.args and v.args[0] in bad) and not (o["err"] == "stop" and isinstance(v, RuntimeError)):
                    env.bad("wrong-exception", "%s raised %s where frames %s raise %s" % (what, core.exc_str(v), bad, o["err"]))
                if o["np"] == 1 and seen != list(range(min(bad) + 1)):
                    env.bad("frames-missing", "%s plotted frames %s before frame %d failed" % (what, seen, min(bad)))
            elif not excuse:
                env.bad("raised", "%s raised %s" % (what, core.exc_str(v)))
    else:
        check_figures(env, what, prefix, figdir, ks, ref, ok, v, excuse)


def reference(env, make_multiplot, plt, load, nt, ks, kw, prefix):
    """digests of every frame's picture, drawn alone in a process of its own: (how it ended, {frame: digest or None})"""
    def alone():
        simthread.stop()
        simpool.WORLD = None
        simio.disarm()
        out = []
        layout = None
        import viscid
        viscid.unload_all_files()
        for i, k in enumerate(ks):
            plt.close("all")
            f = load()
            q = copy.deepcopy(kw)
            q["kwopts"]["out_prefix"] = "%s_%d" % (prefix, i)
            if layout is not None:
                q["subplot_params"] = layout
            try:
                make_multiplot(f, time_slice=(k if nt > 1 else ":"), **q)
            except Exception as e:      # pylint: disable=broad-except
                out.append(["exc", type(e).__name__ + ": " + str(e)[:200]])
                continue
            if layout is None and q["kwopts"].get("tighten"):
                p = plt.gcf().subplotpars
                layout = {"left": p.left, "right": p.right, "top": p.top, "bottom": p.bottom, "hspace": p.hspace, "wspace": p.wspace}
            if not os.path.exists("%s_%d_000001.png" % (prefix, i)):
                out.append(["exc", "no figure"])
                continue
            out.append(["ok", digest("%s_%d_000001.png" % (prefix, i))])
        return out
    kind, v = core.in_child(alone)
    if kind != "ok":
        raise core.HarnessError("reference pictures: %s" % (v,))
    for n in os.listdir(os.path.dirname(prefix)):
        if n.startswith(os.path.basename(prefix) + "_"):
            os.unlink(os.path.join(os.path.dirname(prefix), n))
    return v


def check_figures(env, what, prefix, figdir, ks, ref, ok, v, excuse):
    got = {}
    base = os.path.basename(prefix) + "_"
    for n in sorted(os.listdir(figdir)):
        if n.startswith(base):
            i = n[len(base):].split(".")[0]
            if not i.isdigit() or n.endswith(".nosuch") and ok or not n.endswith((".png", ".nosuch")) or not 1 <= int(i) <= len(ks):
                env.bad("wrong-figure-file", "%s wrote %s" % (what, n))
            got[int(i) - 1] = digest(os.path.join(figdir, n))
    if ok and sorted(got) != list(range(len(ks))):
        env.bad("frames-missing", "%s returned but wrote figures %s of %d" % (what, sorted(got), len(ks)))
    if ok and any(d is None for d in got.values()):
        env.bad("figure-incomplete", "%s returned but figures %s are cut off" % (what, [i for i in got if got[i] is None]))
    if not ok:
        env.hit("raised")
    broken = [i for i, r in enumerate(ref) if r[0] != "ok"]
    if ok and broken:
        env.bad("failure-not-reported", "%s returned although %s can't be drawn" % (what, [(i, ref[i]) for i in broken]))
    if not ok and not broken and not excuse:
        env.bad("raised", "%s raised %s" % (what, core.exc_str(v)))
    for i in sorted(got):
        if got[i] is not None and ref[i][0] == "ok":
            env.hit("figures_compared")
            if got[i] != ref[i][1]:
                env.bad("wrong-figure", "%s: the figure of frame %d is not that of its time drawn alone" % (what, i))
