"""C06: what a file shows does not depend on what else the session did."""
import json
import os

import numpy as np

from sim import calcs, core, formats, session, simio
from sim.formats import KINDS
from sim.session import Disk, gen_fault, gen_interrupt, match, observe, seeded

ID = "C06"
RUNS = {"quick": 3200, "thorough": 80000}
RULE = ("a run counts when its history of operations and results differs from every other run's and at least one judged file was "
        "loaded or read after another file was used in the same session")
REAL = ["viscid readers of all formats, bucket, dataset, grid, field, tree, calculator, cython kernels", "compiled Fortran reader",
        "h5py/HDF5, numpy, libgfortran, libc stdio above the system call layer"]
STUB = ["the simulator writes the files; system calls on files below the run's directory pass a layer that injects faults (into "
        "operations on files that are not judged)"]
STATE_MEASURE = "format of the judged file x formats used before in the session x same directory or names or not x how reached"
PROBES = ["loads", "looks", "same_kind", "same_dir", "same_names", "failed_noise", "interleaved", "together", "calcs", "relative"]


def prepare():
    session.import_viscid()


def plain_run(p):
    return p["kind"] not in ("psc", "vpic")


def generate(rng, tier):
    nw = rng.choice([2, 2, 3, 3, 4])
    groups = [["ggcm", "iof", "fortbin", "jrrle"], ["athx", "athb", "atht"], ["xdmf", "xdmft", "amr", "npz"]]
    kinds = rng.choice([None, None, rng.choice(groups), [rng.choice(sorted(KINDS))]])
    worlds = [formats.gen_world(rng, w, kinds) for w in range(nw)]
    layout = rng.choice(["apart", "apart", "together", "samename", "nested"])
    sub = ["w%d" % w for w in range(nw)]
    if layout == "together":
        sub = ["d"] * nw
        base = rng.choice(["run", "a"])
        for w, p in enumerate(worlds):
            if plain_run(p):
                p["run"] = base + ["", "2", "b", "_x"][w]       # one name begins like the other
        for p in worlds:
            if p["kind"] in ("npz", "nda", "hst"):
                p["run"] = "n_" + p["run"]
    elif layout == "samename":
        for p in worlds:
            p["run"] = "p1" if p["kind"] == "psc" else "same"
    elif layout == "nested":
        sub = ["d"] + ["d/" + "s/" * w for w in range(1, nw)]
        sub = [s.rstrip("/") for s in sub]
    njudged = rng.randint(1, min(2, nw - 1))
    ops = []
    for _ in range(rng.randint(4, 12 if tier == "quick" else 24)):
        r = rng.random()
        j = rng.randrange(njudged)
        n = rng.randrange(njudged, nw)
        if r < 0.25:
            ops.append(["judge", j, rng.choice(["list", "list", "glob", "relative"]), rng.choice(["look", "look", "reload", "unload"]),
                        rng.randint(0, 99)])
        elif r < 0.37:
            ops.append(["noise", n, rng.choice(["list", "glob", "parts", "one", "force"]), rng.randint(0, 99),
                        gen_interrupt(rng, [gen_fault(rng, sticky=0.4)], 0.08) if rng.random() < 0.4 else []])
        elif r < 0.47:
            ops.append(["damage", n, rng.randint(0, 40), rng.choice(["trunc", "delete", "empty", "dir"]), round(rng.random(), 3)])
        elif r < 0.52:
            ops.append(["version", n, rng.randint(0, 2)])
        elif r < 0.57:
            ops.append(["unload", n])
        elif r < 0.64:
            ops.append(["write", n, rng.randint(0, 99)])
        elif r < 0.72:
            ops.append(["interleave", j, n, rng.randint(0, 99)])
        elif r < 0.80:
            ops.append(["together", rng.randint(0, 99)])
        elif r < 0.86:
            ops.append(["calc", rng.choice(calcs.WHAT), rng.randint(0, 9)])
        elif r < 0.90:
            ops.append(["nonsense", rng.choice(["missing", "unknown", "emptyname", "dir"])])
        elif r < 0.95:
            ops.append(["info", n, rng.randint(0, 99)])
        else:
            ops.append(["options", n])
    ops.append(["judge", 0, "list", "look", 3])
    return {"worlds": worlds, "sub": sub, "layout": layout, "njudged": njudged, "ops": ops, "longterm": rng.random() < 0.25}


# ------------------------------------------------------------------ everything a file shows
def plain(x, root):
    if isinstance(x, np.ndarray):
        return "array " + core.digest(x)
    if isinstance(x, dict):
        return sorted([str(k), plain(v, root)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v, root) for v in x]
    if isinstance(x, (bool, int, float, str)) or x is None:
        return core.VOLATILE.sub("?", str(x).replace(root, "$ROOT")) if isinstance(x, str) else repr(x)
    return core.VOLATILE.sub("?", str(x).replace(root, "$ROOT"))[:200]


def attempt(fn, root):
    try:
        return plain(fn(), root)
    except Exception as e:
        return "raised " + type(e).__name__


def describe_field(f, root):
    d = {"data": attempt(lambda: np.array(f.data), root)}
    for n in ("shape", "dtype", "center", "name", "pretty_name", "nr_comps", "layout", "time", "fldtype", "nr_patches"):
        d[n] = attempt(lambda: getattr(f, n), root)
    d["class"] = type(f).__name__
    d["crdclass"] = type(f.crds).__name__
    d["axes"] = [[a, attempt(lambda: np.array(f.get_crd(a)), root)] for a in f.crds.axes]
    d["allinfo"] = attempt(f.get_all_info, root)
    return d


def describe(f, root):
    """values first: what else is shown may be completed by reading them"""
    grids = []
    for g in f.iter_times():
        d = {"class": type(g).__name__, "time": attempt(lambda: g.time, root), "patches": []}
        for q in formats.grid_patches(g):
            c = {"crdclass": type(q.crds).__name__, "class": type(q).__name__,
                 "crds": [[a, attempt(lambda: np.array(q.get_crd_nc(a)), root)] for a in q.crds.axes]}
            names = list(q.field_names)
            c["names"] = names
            c["fields"] = [[n, describe_field(q[n], root)] for n in names]
            d["patches"].append(c)
        d["allinfo"] = attempt(g.get_all_info, root)
        d["basetime"] = attempt(lambda: g.basetime, root)
        d["datetime"] = attempt(g.time_as_datetime64, root)
        grids.append(d)
    return {"class": type(f).__name__, "grids": grids, "times": attempt(lambda: [float(t) for t in f.get_times()], root),
            "nr_times": attempt(f.nr_times, root), "info": attempt(f.get_all_info, root), "time": attempt(lambda: f.time, root)}


def first_difference(a, b, where="file"):
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (where, core.short(a, 80), core.short(b, 80))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s: %s is %s" % (where, k, "missing" if k not in a else "new")
            d = first_difference(a[k], b[k], where + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %s instead of %s" % (where, core.short(a, 120), core.short(b, 120))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s instead of %s" % (where, core.short(a, 120), core.short(b, 120))


def kind_of_difference(d):
    for k in ("data", "axes", "crds", "time", "info", "class", "names", "dtype", "center"):
        if k in d.split(":")[0].rsplit(".", 1)[-1]:
            return k
    return "other"


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    disk = Disk(env, plan["worlds"], plan["sub"])
    nw = len(plan["worlds"])
    nj = plan["njudged"]
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    home = os.getcwd()

    def target(w, how):
        if how == "relative":
            t = disk.target(w, "list")
            return [os.path.relpath(x) for x in t] if isinstance(t, list) else os.path.relpath(t)
        return disk.target(w, how)

    def load(w, how="list"):
        f = viscid.load_file(target(w, how), **disk.kwargs(w))
        if f is None:
            raise RuntimeError("None")
        return f

    # what each judged file shows when the process uses nothing else
    alone = {}
    for j in range(nj):
        for how in ("list", "glob"):
            kind, v = core.in_child(lambda: json.loads(json.dumps(describe(load(j, how), env.root))))
            if kind != "ok":
                env.bad("alone-fails", "%s alone in a process: %s %s" % (disk.kind(j).name, kind, v))
            alone[j, how] = v
    used = []
    judged = {}

    def compare(j, f, how, what):
        ok, got = env.call("describe", lambda: json.loads(json.dumps(describe(f, env.root))))
        K = disk.kind(j)
        if not ok:
            env.bad("fails-in-session", "%s %s raised %s" % (K.name, what, core.exc_str(got)))
        d = first_difference(got, alone[j, how])
        if d:
            env.bad("depends-on-session-" + kind_of_difference(d), "%s %s: %s" % (K.name, what, d))
        m = match(observe(f, seeded(1), [0]), disk.truth(j), K, True, "%s %s" % (K.name, what))
        if m:
            env.bad(m[0], m[1])
        env.sig(K.name, tuple(sorted(set(used))), plan["layout"], how, bool(plan.get("longterm")))
        if K.name in used:
            env.hit("same_kind")
        if plan["layout"] == "together":
            env.hit("same_dir")
        if plan["layout"] == "samename":
            env.hit("same_names")

    def get(j, how):
        if j not in judged:
            f = env.must("fails-in-session", "load %d %s" % (j, how), load, j, how)
            judged[j] = (f, "glob" if how == "glob" else "list")
            env.hit("loads")
        return judged[j]

    noise = {}
    for op in plan["ops"]:
        env.step(*op[:4])
        name = op[0]
        if name == "judge":
            j = op[1]
            if j >= nj:
                continue
            if op[2] == "relative":
                os.chdir(disk.dirs[j])
                env.hit("relative")
            f, how = get(j, op[2])
            os.chdir(home)
            if op[3] == "reload":
                env.must("fails-in-session", "reload", f.reload)
            compare(j, f, how, "loaded by %s, %s" % (op[2], op[3]))
            env.hit("looks")
            if op[3] == "unload":
                env.must("fails-in-session", "unload", f.unload)
                del judged[j]
        elif name == "noise":
            w = op[1]
            if w >= nw:
                continue
            kw = disk.kwargs(w)
            t = disk.target(w, "glob" if op[2] == "glob" else "parts")
            if op[2] == "one" and isinstance(t, list):
                t = t[op[3] % len(t)]
            if op[2] == "force":
                kw["force_reload"] = True

            def use():
                f = viscid.load_file(t, **kw)
                return f, observe(f, seeded(op[3]), [0, 1, 2, 3, 4])
            with core.Faults(env, op[4], use):
                ok, x = env.call("noise", use)
            if ok and x[0] is not None:
                noise[w] = x[0]
            if not ok or (ok and session.raised_any(x[1])):
                env.hit("failed_noise")
            used.append(disk.kind(w).name)
        elif name == "damage":
            if op[1] < nw:
                disk.damage(op[1], op[2], op[3], op[4])
        elif name == "version":
            if op[1] < nw:
                disk.put(op[1], op[2])
        elif name == "unload":
            if op[1] in noise:
                env.call("unload noise", noise.pop(op[1]).unload)
        elif name == "write":
            f = noise.get(op[1])
            if f is not None:
                rnd = seeded(op[2])

                def scribble():
                    for g in f.iter_times():
                        for q in formats.grid_patches(g):
                            for n in q.field_names:
                                if rnd.random() < 0.6:
                                    x = q[n]
                                    x.data[...] = -7
                                    x.name = "scribbled"
                                    x.pretty_name = "scribbled"
                                    x.set_info("basetime", None)
                env.call("scribble", scribble)
        elif name == "info":
            f = noise.get(op[1])
            if f is not None:
                def fill():
                    f.set_info("gamma", 99)
                    f.set_info("field_type", "noise")
                    for g in f.iter_times():
                        g.set_info("marked", op[2])
                        g.time = 4711.0
                        for q in formats.grid_patches(g):
                            q.set_info("basetime", "2001-01-01")
                env.call("info", fill)
        elif name == "options":
            f = noise.get(op[1])
            if f is not None:
                def options():
                    for g in f.iter_times():
                        for q in formats.grid_patches(g):
                            q.longterm_field_caches = True
                            q.force_vector_layout = "flat"
                            if hasattr(q, "mhd_to_gse_on_read"):
                                q.mhd_to_gse_on_read = "auto_true"
                env.call("options", options)
        elif name == "interleave":
            j, w = op[1], op[2]
            if j >= nj or w >= nw:
                continue
            f, how = get(j, "list")
            ok, g = env.call("noise", viscid.load_file, disk.target(w, "list"), **disk.kwargs(w))
            if not ok or g is None:
                continue
            used.append(disk.kind(w).name)
            env.hit("interleaved")
            obs = {"snaps": [], "err": None}
            other = iter(())
            ok, it = env.call("iter noise", g.iter_times)
            if ok:
                other = it
            rnd = seeded(op[3])

            def nxt():
                for q in formats.grid_patches(next(other)):
                    for n in q.field_names:
                        np.array(q[n].data)

            def together():
                for gr in f.iter_times():
                    if rnd.random() < 0.7:
                        env.call("next noise", nxt)
                    obs["snaps"].append(session.look_grid(gr, rnd, [0, 3]))
            env.must("fails-in-session", "iterate next to another file", together)
            m = match(obs, disk.truth(j), disk.kind(j), True, "%s read in turns with %s" % (disk.kind(j).name, disk.kind(w).name))
            if m:
                env.bad(m[0], m[1])
        elif name == "together":
            # all files named in one call: each run has to come out as if it were alone
            js = [j for j in range(nj)]
            ws = js + [w for w in range(nj, nw) if not disk.damaged[w]]
            kws = [disk.kwargs(w) for w in ws]
            if any(k != kws[0] for k in kws):
                continue
            names = []
            for w in ws:
                t = disk.target(w, "list")
                names += t if isinstance(t, list) else [t]
            seeded(op[1]).shuffle(names)
            if op[1] % 3 == 0:
                env.call("unload all", viscid.unload_all_files)
                judged.clear()
                noise.clear()
            fs = env.must("fails-in-session", "load_files of several runs", viscid.load_files, names, **kws[0])
            used.extend(disk.kind(w).name for w in ws[nj:])
            env.hit("together")
            if len(fs) != len(ws):
                env.bad("runs-mixed", "%d runs named in one call gave %d files (%s)" % (len(ws), len(fs),
                                                                                      [disk.kind(w).name for w in ws]))
            got = [json.loads(json.dumps(describe(x, env.root))) for x in fs if x is not None]
            for j in js:
                if not any(first_difference(x, alone[j, "list"]) is None for x in got):
                    best = min((first_difference(x, alone[j, "list"]) for x in got), key=lambda s: "class" in s)
                    env.bad("depends-on-session-together", "%s loaded in one call with %s: %s" % (
                        disk.kind(j).name, [disk.kind(w).name for w in ws], best))
        elif name == "calc":
            env.call("calc " + op[1], calcs.run, viscid, op[1], op[2])
            env.hit("calcs")
        elif name == "nonsense":
            t = {"missing": env.path("data", "no.3d.000001.xdmf"), "unknown": env.path("data", "what.qqq"), "emptyname": "",
                 "dir": env.path("data")}[op[1]]
            env.call("nonsense", viscid.load_file, t)
