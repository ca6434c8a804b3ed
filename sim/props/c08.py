"""C08: a save that returns reads back exactly, one that fails says so."""
import os

import numpy as np

from sim import core, formats, saves, session, simio
from sim.session import Disk, gen_fault, seeded

ID = "C08"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of saves, loads and faults differs from every other run's and at least one save was judged")
REAL = ["viscid savers and readers of npz and hdf5/xdmf files, readers of all formats as sources, field, grid, coordinates",
        "h5py/HDF5, numpy, libc stdio above the system call layer"]
STUB = ["system calls on files below the run's directory and numpy's allocations pass a layer that injects faults"]
STATE_MEASURE = "format x way of saving x source of the fields x what was loaded from the target before x faults x outcome"
PROBES = ["saves", "save_failed", "sessions", "resaves", "from_loaded", "derived", "source_failed", "held", "own_save"]
FAULTS = [{"cls": "write", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "err", "err": "EIO"},
          {"cls": "open", "act": "err", "err": "EACCES"}, {"cls": "open", "act": "err", "err": "EMFILE"},
          {"cls": "open", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "torn_err", "err": "ENOSPC"},
          {"cls": "write", "act": "torn_err", "err": "EIO"}, {"cls": "meta", "act": "err", "err": "EIO"},
          {"cls": "meta", "act": "err", "err": "ENOSPC"}, {"cls": "sync", "act": "err", "err": "EIO"},
          {"cls": "sync", "act": "err", "err": "ENOSPC"}, {"cls": "close", "act": "err", "err": "EIO"},
          {"cls": "write", "act": "short"}, {"cls": "write", "act": "err", "err": "EINTR"},
          {"cls": "alloc", "act": "err", "err": "ENOMEM"}]
SOURCE_FAULTS = [{"cls": "open", "act": "err", "err": "EIO"}, {"cls": "read", "act": "err", "err": "EIO"},
                 {"cls": "read", "act": "short"}, {"cls": "open", "act": "err", "err": "EMFILE"}]


def prepare():
    v = session.import_viscid()
    import h5py  # noqa: F401
    np.zeros(4).astype("f2")
    from sim import calcs
    calcs.run(v, "arith", 1)


def generate(rng, tier):
    nt = rng.choice([1, 1, 2])
    specs = [saves.gen_spec(rng) for _ in range(nt)]
    worlds = []
    if rng.random() < 0.35:
        for _ in range(40):
            w = formats.gen_world(rng, 0)
            if w["kind"] in OK_SOURCES:
                worlds = [w]
                break
    ops = []
    for _ in range(rng.randint(2, 7 if tier == "quick" else 14)):
        k = rng.randrange(nt)
        r = rng.random()
        fl = [gen_fault(rng, FAULTS, 0.4) for _ in range(1 if rng.random() < 0.45 else 0)]
        if r < 0.50 or (r < 0.62 and not worlds):
            ops.append(["save", k, rng.randint(0, 2), rng.choice(["built", "built", "built", "derived", "derived", "shown", "shown"]), fl, rng.randint(0, 99)])
        elif r < 0.62 and worlds:
            ops.append(["save", k, rng.randint(0, 9), "world", [gen_fault(rng, SOURCE_FAULTS, 0.4)] if rng.random() < 0.3 else fl,
                        rng.randint(0, 99)])
        elif r < 0.74:
            ops.append(["open", k])
        elif r < 0.82:
            ops.append(["hold", k])
        elif r < 0.88:
            ops.append(["forget", k, rng.choice(["unload", "all"])])
        elif r < 0.94:
            ops.append(["check", k, rng.choice(["reload", "force", "handle", "unload"])])
        else:
            ops.append(["dir", k])
    return {"specs": specs, "worlds": worlds, "ops": ops}


# files whose grids can be written to the formats there are: three dimensional, cartesian, not refined
OK_SOURCES = ["xdmf", "xdmft", "xdmfs", "ggcm", "npz", "jrrle", "fortbin", "vpic", "athb", "psc", "gkeyll", "athx"]


def content(flds):
    """what is to be found in the file: a deep copy of the fields"""
    out = {"fields": {}, "order": list(flds)}
    for n, f in flds.items():
        out["fields"][n] = {"data": saves.comps_last(f), "center": str(f.center).lower(),
                            "vec": bool(f.nr_comps), "crds": [(a, np.array(f.get_crd_nc(a))) for a in f.crds.axes]}
    f0 = next(iter(flds.values()))
    out["time"] = f0.time
    out["cs"] = next((c for c in (f.find_info("crd_system", None) for f in flds.values())
                      if c and c.lower() != "unknown"), None)
    return out


def differs(g, want, fmt, what):
    """None, or how the grid g differs from the content"""
    if fmt == "h5" and want["time"] is not None and g.time != want["time"]:
        return "wrong-time", "%s: time is %r instead of %r" % (what, g.time, want["time"])
    if fmt == "h5" and want["time"] is None and g.time not in (None, 0.0):
        return "wrong-time", "%s: time is %r instead of none" % (what, g.time)
    names = list(g.field_names)
    if fmt == "h5" and want["cs"] and names and str(g[names[0]].find_info("crd_system", None)).lower() != want["cs"].lower():
        return "wrong-crd-system", "%s: coordinate system is %r instead of %r" % (
            what, g[names[0]].find_info("crd_system", None), want["cs"])
    if sorted(names) != sorted(want["fields"]):
        return "wrong-names", "%s: fields %s instead of %s" % (what, sorted(names), sorted(want["fields"]))
    w0 = next(iter(want["fields"].values()))["crds"]
    for a, w in w0:
        c = np.array(g.get_crd_nc(a))
        if c.shape != w.shape or not np.array_equal(c, w):
            return "wrong-coordinates", "%s: axis %s is %s instead of %s" % (what, a, c, w)
    if list(g.crds.axes) != [a for a, _ in w0]:
        return "wrong-coordinates", "%s: axes %s" % (what, g.crds.axes)
    for n in sorted(want["fields"]):
        y = want["fields"][n]
        x = g[n]
        a = saves.comps_last(x)
        w = y["data"]
        if bool(x.nr_comps) != y["vec"]:
            return "wrong-field-type", "%s: field %s is a %s" % (what, n, type(x).__name__)
        if a.dtype != w.dtype:
            return "wrong-type", "%s: field %s has type %s instead of %s" % (what, n, a.dtype, w.dtype)
        if not formats.same_data(a, w):
            return "wrong-data", "%s: field %s: %s" % (what, n, formats.diff_text(a, w))
        if str(x.center).lower() != y["center"]:
            return "wrong-centring", "%s: field %s is %s centred instead of %s" % (what, n, x.center, y["center"])
        if x.name != n:
            return "wrong-names", "%s: field %s is called %s" % (what, n, x.name)
        for a, w in y["crds"]:
            if not np.array_equal(np.array(x.get_crd_nc(a)), w):
                return "wrong-coordinates", "%s: axis %s of field %s is %s instead of %s" % (what, a, n, x.get_crd_nc(a), w)
    return None


def ambiguous(f):
    """known finding KF1: the layout of a vector field with three points along every axis can't be told"""
    return bool(f.nr_comps) and all(k in (2, 3) for k in f.sshape) or (f.nr_comps and 3 in f.sshape[-1:])


def storable(flds, fmt):
    """whether the format can hold the fields: three axes called x y z for hdf5, two points along each axis"""
    c0 = None
    for f in flds.values():
        if not hasattr(f, "sshape"):
            return False
        c = [(a, list(f.get_crd_nc(a))) for a in f.crds.axes]
        c0 = c0 or c
        if c != c0:
            return False            # of different grids
        if any(k < 2 for k in f.sshape) or ambiguous(f) or f.data.size == 0:
            return False
        if fmt == "h5" and list(f.crds.axes) != ["x", "y", "z"]:
            return False
        if f.crds._TYPE.endswith("spherical"):  # pylint: disable=protected-access
            return False
        if str(f.center).lower() not in ("cell", "node"):
            return False
    return bool(flds)


def derive(viscid, flds, rnd):
    """fields calculated from others: all with the same coordinates"""
    out = saves.OrderedDict()
    kind = rnd.choice(["arith", "slice", "slice", "step", "neg", "layout", "node"])
    for n, f in flds.items():
        if f.dtype.kind in "?bc":
            continue
        if kind == "arith":
            x = 2 * f + 1
        elif kind == "slice":
            x = f["x=1:"]
        elif kind == "step":
            x = f["x=::2"]
        elif kind == "neg":
            x = -f
        elif kind == "layout":
            x = f.as_flat() if f.nr_comps and f.layout == "interlaced" else (f.as_interlaced() if f.nr_comps else f)
        else:
            x = f.as_centered("cell")
        out[n] = x
    if not out:
        return flds
    for n, f in out.items():
        if hasattr(f, "name"):
            f.name = n
    return out


def mem_changed(flds, want):
    for n, f in flds.items():
        y = want["fields"][n]
        a = saves.comps_last(f)
        if a.dtype != y["data"].dtype or not formats.same_data(a, y["data"]):
            return "field %s: %s" % (n, formats.diff_text(a, y["data"]))
        if str(f.center).lower() != y["center"] or f.name is None:
            return "field %s: centring %s" % (n, f.center)
        for ax, w in y["crds"]:
            if not np.array_equal(np.array(f.get_crd_nc(ax)), w):
                return "field %s: axis %s" % (n, ax)
    f0 = next(iter(flds.values()))
    if f0.time != want["time"]:
        return "time %r" % f0.time
    return None


def keep_tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[p] = f.read()
    return out


def restore_tree(root, was):
    for d, _, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            if p not in was:
                os.unlink(p)
    for p, b in was.items():
        formats.write_bytes(p, b)


def execute(plan, env):
    import viscid
    specs = plan["specs"]
    simio.set_root(env.root)
    disk = Disk(env, plan["worlds"])
    if plan["worlds"]:
        disk.put(0, 0)
    sdir = env.path("data", "saved")
    os.makedirs(sdir)
    paths = [saves.path_of(sdir, s, "s%d" % k) for k, s in enumerate(specs)]
    want = [None] * len(specs)          # content known to be there
    objs = [None] * len(specs)
    fresh = [False] * len(specs)        # the open file shows what is there
    held = []
    srcof = [None]

    def load(k, force=False):
        kw = {"force_reload": True} if force else {}
        f = viscid.load_file(saves.index_of(paths[k]), **kw)
        if f is None:
            raise IOError("load_file gave None")
        return f

    def judge(f, k, what):
        ok, m = env.call("read back", lambda: differs(f.get_grid(), want[k], specs[k]["fmt"], what))
        if not ok:
            env.bad("saved-but-unreadable", "%s raises %s" % (what, core.exc_str(m)))
        if m:
            env.bad(m[0], m[1])

    def elsewhere(k, what):
        """load it in another session"""
        env.hit("sessions")

        def other():
            viscid.unload_all_files()
            f = load(k)
            return differs(f.get_grid(), want[k], specs[k]["fmt"], what + " loaded in another session")
        r = core.in_child(other)
        if r[0] != "ok":
            env.bad("saved-but-unreadable", "%s can't be loaded in another session: %s" % (what, r[1]))
        if r[1]:
            env.bad(*r[1])

    def source(op, k):
        """{name: field} to be saved; None if there are none that the format can hold"""
        spec = specs[k]
        rnd = seeded("src", op[5])
        if op[3] == "built":
            flds = saves.build(viscid, spec, k, op[2])
            if op[5] % 4 == 0:
                for f in flds.values():
                    f.set_info("crd_system", ["gse", "mhd", "sm"][op[5] % 3])
            return flds
        if op[3] == "derived":
            env.hit("derived")
            return derive(viscid, saves.build(viscid, spec, k, op[2]), rnd)
        if op[3] == "shown":
            j = rnd.randrange(len(specs))
            srcof[0] = j
            if want[j] is None:
                return None
            f = objs[j] if objs[j] is not None and fresh[j] else load(j, True)
            objs[j], fresh[j] = f, True
            if op[5] % 2 == 0 and specs[j]["fmt"] == spec["fmt"] == "npz":
                # everything it holds, by the file's own method
                g = f.get_grid()
                return saves.OrderedDict((n, g[n]) for n in g.field_names)
        else:
            f = viscid.load_file(disk.target(0, "list"), **disk.kwargs(0))
        env.hit("from_loaded")
        gs = list(f.iter_times())
        g = gs[op[2] % len(gs)]
        g = formats.grid_patches(g)[0]
        names = sorted(set(g.field_names))
        names = rnd.sample(names, min(len(names), rnd.randint(1, 3)))
        return saves.OrderedDict((n, g[n]) for n in names)

    for op in plan["ops"]:
        env.step(*op[:4])
        k = op[1]
        spec, path = specs[k], paths[k]
        if op[0] == "save":
            flds = env.must("source-failed", "fields to save", source, op, k)
            if not flds:
                continue
            lazy = op[3] in ("world", "shown")
            # what the fields hold is looked at in a copy of the session if looking reads it from disk
            if lazy:
                mem = core.in_child(lambda: storable(flds, spec["fmt"]))
                if mem[0] != "ok" or not mem[1]:
                    continue
                if seeded(op[5]).random() < 0.5:
                    w = content(flds)
                else:
                    src = source(op, k) if op[3] == "shown" else flds
                    w = content(src)
                    for f in src.values():
                        f.clear_cache()
            else:
                if not storable(flds, spec["fmt"]):
                    continue
                w = content(flds)
            env.hit("saves")
            if want[k] is not None:
                env.hit("resaves")
            how = dict(spec)
            if how["how"] == "one" and not (op[3] == "shown" and op[5] % 2 == 0 and specs[srcof[0]]["fmt"] == spec["fmt"] == "npz"):
                n = next(iter(flds))
                flds = saves.OrderedDict([(n, flds[n])])
                w["fields"] = {n: w["fields"][n]}
            was = keep_tree(env.path("data"))
            fn = lambda: saves.save(viscid, path, how, flds)      # noqa: E731
            if op[3] == "shown" and op[5] % 2 == 0 and specs[srcof[0]]["fmt"] == spec["fmt"] == "npz":
                how["how"] = "self" if srcof[0] == k else "selfto"
                fn = objs[srcof[0]].save if srcof[0] == k else (lambda: objs[srcof[0]].save(path))
                env.hit("own_save")
            with core.Faults(env, op[4], fn, lambda: restore_tree(env.path("data"), was)) as fl:
                ok, e = env.call("save %s" % spec["fmt"], fn)
            syncfail = fl.fired and any(s["cls"] == "sync" for s in op[4])
            env.sig(spec["fmt"], how["how"], op[3], objs[k] is not None, [s["cls"] + s["act"] for s in op[4]], ok)
            if ok and op[3] == "shown" and srcof[0] == k:
                # the file these fields are read from is another one now
                ok2, m = True, None
            else:
                ok2, m = env.call("memory", mem_changed, flds, w)
            if ok2 and m:
                env.bad("fields-changed-by-save", "%s after a save that %s: %s" % (spec["fmt"], "returned" if ok else "failed", m))
            if not ok2:
                env.must("fields-changed-by-save", "reading the fields once more", mem_changed, flds, w)
            if objs[k] is not None:
                fresh[k] = False
            if not ok:
                if not fl.fired:
                    env.bad("save-fails", "saving to %s (%s) raised %s" % (spec["fmt"], how["how"], core.exc_str(e)))
                env.hit("save_failed")
                if lazy:
                    env.hit("source_failed")
                want[k] = None
                continue
            if syncfail and ok:
                env.bad("sync-failure-swallowed", "the storage failed to sync the file, saving to %s returned" % spec["fmt"])
            want[k] = w
            elsewhere(k, "%s saved as %s" % (spec["fmt"], how["how"]))
            if objs[k] is None:
                f = env.must("saved-but-unreadable", "load it", load, k)
                judge(f, k, "%s saved as %s" % (spec["fmt"], how["how"]))
                if op[5] % 3:
                    env.call("unload", f.unload)
                else:
                    objs[k], fresh[k] = f, True
            elif op[5] % 2:
                f = env.must("saved-but-unreadable", "load it again", load, k, True)
                judge(f, k, "%s saved over a loaded file" % spec["fmt"])
                objs[k], fresh[k] = f, True
        elif op[0] == "open":
            if want[k] is not None and objs[k] is None:
                objs[k] = env.must("saved-but-unreadable", "open", load, k)
                fresh[k] = True
        elif op[0] == "hold":
            if objs[k] is not None and fresh[k]:
                def hold():
                    g = objs[k].get_grid()
                    for n in g.field_names:
                        f = g[n]
                        held.append((f.data, np.array(f.data), "field %s of %s" % (n, spec["fmt"])))
                env.must("saved-but-unreadable", "hold", hold)
                env.hit("held")
        elif op[0] == "forget":
            if op[2] == "all":
                env.call("unload all", viscid.unload_all_files)
                objs = [None] * len(specs)
            elif objs[k] is not None:
                env.call("unload", objs[k].unload)
                objs[k] = None
        elif op[0] == "check":
            if want[k] is None:
                continue
            if objs[k] is None:
                objs[k] = env.must("saved-but-unreadable", "open", load, k)
            elif op[2] == "force":
                objs[k] = env.must("saved-but-unreadable", "force", load, k, True)
            elif op[2] == "handle":
                env.must("saved-but-unreadable", "reload", viscid.reload_file, objs[k].handle_name)
            elif op[2] == "unload":
                env.call("unload", objs[k].unload)
                objs[k] = env.must("saved-but-unreadable", "open", load, k)
            else:
                env.must("saved-but-unreadable", "reload", objs[k].reload)
            fresh[k] = True
            judge(objs[k], k, "%s loaded later" % spec["fmt"])
        elif op[0] == "dir":
            # into a directory that isn't there: has to be said
            fl = saves.build(viscid, spec, k, 0)
            ok, e = env.call("save into nothing", saves.save, viscid, os.path.join(sdir, "none", "x." + spec["fmt"]), spec, fl)
            if ok:
                env.bad("failed-save-returned", "saving into a directory that does not exist returned")
        for a, b, what in held:
            if not formats.same_data(a, b) and not (a != a).any():
                env.bad("delivered-values-changed", "%s changed after it was delivered" % what)
    for k in range(len(specs)):
        if want[k] is not None:
            elsewhere(k, "%s at the end" % specs[k]["fmt"])
