"""C04: reload shows what is on disk now, unload forgets."""
import numpy as np

from sim import core, formats, session, simio
from sim.formats import KINDS, same_axis, same_data
from sim.props.c18 import WITH_LOG, about_log
from sim.session import Disk, Exc, gen_fault, match, match_time, observe, seeded

ID = "C04"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of versions put on disk, reloads and reads differs from every other run's and at least "
        "one file was read after another version was put on disk")
REAL = ["viscid readers of all formats, bucket, dataset, grid, field", "compiled Fortran reader", "h5py/HDF5, numpy, "
        "libgfortran, libc stdio above the system call layer"]
STUB = ["the simulator replaces the files between operations; system calls on files below the run's directory pass a layer that "
        "injects faults"]
STATE_MEASURE = "format x way of reloading x what was read or cached before x versions differ in shape or not"
PROBES = ["reloads", "versions", "loose_reads", "held", "shared_reloads", "reload_failed", "amr", "log_values"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    nw = rng.choice([1, 1, 1, 2])
    worlds = [formats.gen_world(rng, w, ["amr"] if rng.random() < 0.05 else None) for w in range(nw)]
    sels = [[session.gen_sel(rng, worlds[w]) for _ in range(2)] for w in range(nw)]
    ops = []
    for _ in range(rng.randint(4, 10 if tier == "quick" else 20)):
        w = rng.randrange(nw)
        r = rng.random()
        if r < 0.18:
            ops.append(["load", w, rng.randint(0, 1), rng.random() < 0.3])
        elif r < 0.42:
            ops.append(["version", w, rng.randint(0, 2), rng.choice(["replace", "replace", "inplace"])])
        elif r < 0.52:
            ops.append(["look", w, rng.randint(0, 1), rng.randint(0, 99), rng.random() < 0.3])
        elif r < 0.60:
            ops.append(["hold", w, rng.randint(0, 1), rng.randint(0, 99)])
        elif r < 0.90:
            ops.append(["reload", w, rng.randint(0, 1), rng.choice(["method", "method", "handle", "force", "unload", "unload_all",
                                                                    "remove"]),
                        [gen_fault(rng)] if rng.random() < 0.12 else [], rng.randint(0, 99)])
        else:
            ops.append(["clear", w, rng.randint(0, 1)])
    return {"worlds": worlds, "sels": sels, "ops": ops, "longterm": rng.random() < 0.3}


def loose(obs, truths, K, what):
    """every value shown has to come from one of the versions that have been on disk"""
    for i, o in enumerate(obs["snaps"]):
        cand = [t[k] for t in truths for k in range(len(t))]
        if not isinstance(o["time"], Exc) and not any(match_time(o["time"], t["time"]) for t in cand):
            return "time-of-no-version", "%s snapshot %d time %r" % (what, i, o["time"])
        if isinstance(o["patches"], Exc):
            continue
        for j, p in enumerate(o["patches"]):
            pc = [t["patches"][j] for t in cand if j < len(t["patches"])]
            if not isinstance(p["crds"], Exc):
                for n, a in p["crds"]:
                    if not any(m == n and same_axis(a, b) for q in pc for m, b in q["crds"]):
                        return "axis-of-no-version", "%s snapshot %d axis %s is %s" % (what, i, n, a)
            if isinstance(p["fields"], Exc) or K.name == "atht":
                continue        # a column of a text table does not say what shape it has
            for n, x in p["fields"].items():
                if isinstance(x, Exc):
                    continue
                if not any(n in q["fields"] and same_data(x["data"], q["fields"][n]["data"], K.lossy) for q in pc):
                    return "data-of-no-version", "%s snapshot %d field %s holds values of no version" % (what, i, n)
    return None


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    disk = Disk(env, plan["worlds"])
    nw = len(plan["worlds"])
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    past = [[0] for _ in range(nw)]
    roots = {}                      # (w, i of selection) -> object
    current = {}                    # same key -> what it shows is known to be the version on disk
    held = []

    def sel(w, i):
        return plan["sels"][w][i]

    def norm(w, s):
        n = session.nsnap(disk, w)
        if not n:
            return None
        if s is None:
            return tuple(range(n)) if isinstance(disk.target(w, "list"), list) else None
        return tuple(s)

    def alias(w, i):
        """selections that are the same file share one object"""
        for j in range(i):
            if norm(w, sel(w, j)) == norm(w, sel(w, i)):
                return (w, j)
        return (w, i)

    def do_load(k, force=False):
        kw = disk.kwargs(k[0])
        if force:
            kw["force_reload"] = True
        f = viscid.load_file(session.sel_target(disk, k[0], sel(*k)), **kw)
        if f is None:
            raise RuntimeError("None")
        return f

    def ensure(k):
        if k not in roots:
            others = [x for x in roots if x[0] == k[0]]
            roots[k] = env.must("healthy-load-failed", "load %s" % (k,), do_load, k)
            # children that another open file uses already may be of an older version
            current[k] = all(current[x] for x in others)
        return roots[k]

    def strict(k, what, rnd=None, routes=(0,)):
        K = disk.kind(k[0])
        obs = observe(roots[k], rnd or seeded(1), list(routes))
        m = match(obs, session.sel_truth(disk, k[0], sel(*k)), K, True, "%s %s" % (K.name, what))
        if m:
            env.bad("stale-" + m[0] if len(past[k[0]]) > 1 else m[0], m[1])
        p = plan["worlds"][k[0]]
        if K.name in WITH_LOG and p["log"] != "none":
            # the log file is a part of the run
            t = formats.log_truth(p, disk.ver[k[0]])
            got = about_log(roots[k])
            if got != t:
                env.bad("stale-log", "%s %s: the log is understood as %r instead of %r" % (K.name, what, got, t))
            for i, g in enumerate(roots[k].iter_times()):
                v = [g.find_info(x, None) for x in ("ggcm_mhd_bbnorm", "ggcm_mhd_gamma")]
                if v != [t["bbnorm"], t["gamma"]]:
                    env.bad("stale-log", "%s %s snapshot %d: bbnorm, gamma are %r instead of %r" % (
                        K.name, what, i, v, [t["bbnorm"], t["gamma"]]))
            env.hit("log_values")
        if K.name == "amr":
            # what is known about all patches together
            for i, (g, t) in enumerate(zip(roots[k].iter_times(), session.sel_truth(disk, k[0], sel(*k)))):
                lo = np.min([[c[0] for _, c in q["crds"]] for q in t["patches"]], axis=0)
                hi = np.max([[c[-1] for _, c in q["crds"]] for q in t["patches"]], axis=0)
                if not same_axis(g.xl_nc, lo) or not same_axis(g.xh_nc, hi):
                    env.bad("stale-extent", "%s %s snapshot %d reaches from %s to %s instead of %s to %s" % (
                        K.name, what, i, g.xl_nc, g.xh_nc, lo, hi))
                n = sorted(t["patches"][0]["fields"])[i % len(t["patches"][0]["fields"])]
                v, e = formats.nearest_values(viscid, g[n], t, n, "nearest", rnd or seeded(1))
                if not np.array_equal(v, e):
                    env.bad("stale-interpolation", "%s %s snapshot %d field %s: %s" % (K.name, what, i, n, formats.diff_text(v, e)))
                env.hit("amr")

    def look(k, what, rnd, routes):
        if current.get(k):
            strict(k, what, rnd, routes)
        else:
            K = disk.kind(k[0])
            obs = observe(roots[k], rnd, list(routes))
            m = loose(obs, [session.sel_truth(disk, k[0], sel(*k), v) for v in sorted(set(past[k[0]]))], K, "%s %s" % (K.name, what))
            env.hit("loose_reads")
            if m:
                env.bad(m[0], m[1])

    def check_held():
        for arr, was, what in held:
            if not np.array_equal(arr, was):
                env.bad("delivered-values-changed", "%s changed after it was delivered" % what)

    for op in plan["ops"]:
        env.step(*op[:4])
        name, w = op[0], op[1]
        if w >= nw:
            continue
        K = disk.kind(w)
        if name == "version":
            if op[3] == "inplace":
                fs = K.files(disk.params[w], op[2])
                for rel in sorted(fs):
                    with open(disk.dirs[w] + "/" + rel, "wb") as fo:
                        fo.write(fs[rel].encode() if isinstance(fs[rel], str) else fs[rel])
                disk.ver[w] = op[2]
            else:
                disk.put(w, op[2])
            if past[w][-1] != op[2]:
                for k in roots:
                    if k[0] == w:
                        current[k] = False
                past[w].append(op[2])
                env.hit("versions")
            continue
        k = alias(w, op[2])
        if name == "load":
            ensure(k)
            if op[3]:
                look(k, "after load", seeded(3), [0])
        elif name == "look":
            ensure(k)
            if op[4]:
                env.call("get_times", roots[k].get_times)
            look(k, "read", seeded(op[3]), [0, 1, 2, 3, 4])
        elif name == "clear":
            ensure(k)
            env.call("clear_cache", roots[k].clear_cache)
        elif name == "hold":
            ensure(k)
            rnd = seeded(op[3])

            def hold():
                for g in roots[k].iter_times():
                    for q in formats.grid_patches(g):
                        for n in q.field_names:
                            if rnd.random() < 0.5:
                                a = q[n].data
                                held.append((a, np.array(a), "%s field %s" % (K.name, n)))
                        for ax in q.crds.axes:
                            a = q.get_crd_nc(ax)
                            held.append((a, np.array(a), "%s axis %s" % (K.name, ax)))
            env.call("hold", hold)
            env.hit("held")
        elif name == "reload":
            f = ensure(k)
            how = op[3]
            before = [x for x in roots if x[0] == w]

            def do_reload():
                if how == "method":
                    f.reload()
                elif how == "handle":
                    viscid.reload_file(f.handle_name)
                elif how == "force":
                    g = do_load(k, True)
                    if g is not f:
                        raise RuntimeError("another object")
                elif how == "unload":
                    for x in before:
                        roots[x].unload()
                elif how == "unload_all":
                    viscid.unload_all_files()
                else:
                    for x in before:
                        viscid.readers.__filebucket__.remove_item(roots[x])
            with core.Faults(env, op[4] if how in ("method", "handle", "force") else [], do_reload) as fl:
                ok, e = env.call("reload %s" % how, do_reload)
            if how in ("unload", "unload_all", "remove"):
                if not ok:
                    env.bad("unload-fails", core.exc_str(e))
                for x in list(roots):
                    if x[0] == w or how == "unload_all":
                        del roots[x]
                ensure(k)
                current[k] = True
            else:
                if not ok or fl.fired:
                    env.hit("reload_failed")
                    ok, e = env.call("reload again", f.reload)
                    if not ok:
                        env.must("healthy-reload-failed", "reload once more", f.reload)
                current[k] = True
            env.hit("reloads")
            if len(before) > 1:
                env.hit("shared_reloads")
            strict(k, "after reload by %s" % how, seeded(op[5]), [0, 1, 2, 3, 4])
            for x in before:
                if x in roots and x != k:
                    look(x, "sharing files with a reloaded one", seeded(5), [0])
            d0 = [disk.truth(w, v)[0]["patches"][0]["crds"][0][1].shape for v in past[w][-2:]]
            env.sig(K.name, how, len(before), len(past[w]) > 1, len(set(d0)) > 1, bool(held), bool(plan.get("longterm")))
        check_held()
    for k in sorted(roots):
        env.must("healthy-reload-failed", "reload at the end", roots[k].reload)
        current[k] = True
        strict(k, "after the last reload")
    check_held()
