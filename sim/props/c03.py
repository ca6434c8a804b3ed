"""C03: the table of open files agrees with what was loaded and unloaded."""
from sim import core, formats, session, simio
from sim.session import Disk, gen_fault, gen_interrupt, match, observe, raised_any, seeded

ID = "C03"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of operations and results differs from every other run's and at least one file was "
        "opened; after every operation the whole table is compared with the model")
REAL = ["viscid readers of all formats, bucket, dataset, grid", "compiled Fortran reader", "h5py/HDF5, libgfortran, libc stdio "
        "above the system call layer"]
STUB = ["system calls on files below the run's directory pass a layer that injects faults; disk contents are written by the "
        "simulator"]
STATE_MEASURE = "operation x format x size of the table x shared or not x outcome"
PROBES = ["loads", "same_object", "shared", "unloads", "reloads", "failed", "emptied", "fresh_version"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    nw = rng.choice([1, 1, 2, 2, 3])
    multi = [k for k in formats.KINDS if formats.KINDS[k].multi]
    worlds = [formats.gen_world(rng, w, multi if rng.random() < 0.6 else None) for w in range(nw)]
    sels = [[session.gen_sel(rng, worlds[w]) for _ in range(3)] for w in range(nw)]
    ops = []
    for _ in range(rng.randint(4, 12 if tier == "quick" else 24)):
        w = rng.randrange(nw)
        r = rng.random()
        fl = gen_interrupt(rng, [gen_fault(rng, sticky=0.4)], 0.15) if rng.random() < 0.3 else []
        if r < 0.40:
            ops.append(["load", w, rng.choice(sels[w]), rng.choice(["names", "names", "force", "relative", "files"]), fl])
        elif r < 0.48:
            ops.append(["reload", rng.randint(0, 5), rng.choice(["method", "handle", "number"]), fl])
        elif r < 0.54:
            ops.append(["damaged", w, rng.choice(sels[w]), rng.randint(0, 40), rng.choice(["trunc", "delete", "empty", "dir"]),
                        round(rng.random(), 3), rng.choice(["load", "force", "reload"]), rng.randint(0, 5)])
        elif r < 0.78:
            ops.append(["unload", rng.randint(0, 5), rng.choice(["method", "handle", "number", "with", "file", "method"])])
        elif r < 0.82:
            ops.append(["read", rng.randint(0, 5)])
        elif r < 0.86:
            ops.append(["times", rng.randint(0, 5), rng.choice(["get_times", "unresolved", "get_time", "first", "nr_times"])])
        elif r < 0.92:
            ops.append(["version", w, rng.randint(0, 2)])
        elif r < 0.97:
            ops.append(["unload_each", rng.randint(0, 99)])
        else:
            ops.append(["unload_all"])
    return {"worlds": worlds, "ops": ops}


def execute(plan, env):
    import os
    import viscid
    import viscid.readers
    disk = Disk(env, plan["worlds"])
    nw = len(plan["worlds"])
    simio.set_root(env.root)
    for w in range(nw):
        disk.put(w, 0)
    bucket = viscid.readers.__filebucket__
    roots = {}          # (w, sel as tuple or None) -> file object; in order of loading

    def key(w, sel):
        n = session.nsnap(disk, w)
        if n == 0:
            return (w, None)
        if sel is None:
            t = disk.target(w, "list")
            return (w, None) if isinstance(t, str) else (w, tuple(range(n)))
        return (w, tuple(sel))

    def sel_of(k):
        return None if k[1] is None else list(k[1])

    def number_of(f):
        hs = [h for handles, item in bucket.items() if item is f for h in handles if isinstance(h, int)]
        if len(hs) != 1:
            env.bad("numbers", "an open file has the numbers %s" % hs)
        return hs[0]

    def table(after):
        """the whole table against the model"""
        entries = [(list(hs), it) for hs, it in bucket.items()]
        if len(entries) != len(bucket) or len(set(id(it) for _, it in entries)) != len(entries):
            env.bad("listed-twice", "after %s a file is in the table more than once" % after)
        seen = {}
        for hs, it in entries:
            for h in hs:
                if h in seen:
                    env.bad("handle-twice", "after %s two files have the handle %r" % (after, h))
                seen[h] = it
                ok, g = env.call("get", viscid.get_file, h)
                if not ok or g is not it:
                    env.bad("handle-wrong", "after %s get_file(%r) does not give the file listed under it" % (after, h))
        for k, f in roots.items():
            if not any(it is f for _, it in entries):
                env.bad("open-file-missing", "after %s an open file (%s) is not in the table" % (after, f.handle_name))
            ok, g = env.call("get", viscid.get_file, f.handle_name)
            if not ok or g is not f:
                env.bad("open-file-name", "after %s get_file(%r) does not give the open file" % (after, f.handle_name))
            n = number_of(f)
            if viscid.get_file(n) is not f:
                env.bad("open-file-number", "after %s get_file(%d) gives another file" % (after, n))
            if f not in bucket:
                env.bad("open-file-missing", "after %s an open file is said not to be in the table" % after)
        if len(set(id(f) for f in roots.values())) != len(roots):
            env.bad("same-object-for-different-files", "after %s different selections share one object" % after)
        # whatever else is in the table belongs to an open file
        live = [disk.dirs[w] for w in set(k[0] for k in roots)]
        for hs, it in entries:
            if any(it is f for f in roots.values()):
                continue
            fname = getattr(it, "fname", None) or str(hs[0])
            if not any(str(fname).startswith(d + os.sep) for d in live):
                env.bad("left-in-table", "after %s %s is still in the table though nothing open uses it" % (
                    after, hs))
        if not roots and len(bucket):
            env.bad("table-not-empty", "after %s everything is unloaded but the table holds %s" % (after, [h for h, _ in entries]))

    def gone(f, names, after):
        """f was unloaded: not in the table under any name, unless an open file refers to it"""
        for h in names:
            if isinstance(h, int):
                ok, g = env.call("get", viscid.get_file, h)
                if ok and g is f:
                    env.bad("unloaded-number", "after %s the number %d still gives the unloaded file" % (after, h))
        w = [k[0] for k in roots]
        if any(disk.dirs[x] == os.path.dirname(f.fname) for x in w if f.fname):
            return
        for h in names:
            ok, g = env.call("get", viscid.get_file, h)
            if ok:
                env.bad("unloaded-file-found", "after %s get_file(%r) still gives a file" % (after, h))
        if f in bucket:
            env.bad("unloaded-file-found", "after %s the unloaded file is still in the table" % after)

    def names_of(f):
        return [h for handles, item in bucket.items() if item is f for h in handles]

    def read(k, what):
        K = disk.kind(k[0])
        obs = observe(roots[k], seeded("r"), [0])
        m = match(obs, session.sel_truth(disk, k[0], sel_of(k)), K, True, "%s %s" % (K.name, what))
        if m:
            env.bad("read-" + m[0], m[1])

    def shared(k):
        return any(x != k and x[0] == k[0] for x in roots)

    def pick(i):
        ks = sorted(roots, key=repr)
        return ks[i % len(ks)] if ks else None

    def do_load(k, how):
        w, sel = k[0], sel_of(k)
        t = session.sel_target(disk, w, sel)
        kw = disk.kwargs(w)
        if how == "force":
            kw["force_reload"] = True
        if how == "relative":
            t = [os.path.relpath(x) for x in t] if isinstance(t, list) else os.path.relpath(t)
        if how == "files":
            fs = viscid.load_files(t, **kw)
            if len(fs) != 1:
                raise RuntimeError("%d files" % len(fs))
            return fs[0]
        return viscid.load_file(t, **kw)

    healthy = True

    for op in plan["ops"]:
        env.step(*op[:4])
        name = op[0]
        if name in ("load", "damaged"):
            w = op[1]
            if w >= nw:
                continue
            k = key(w, op[2])
            K = disk.kind(w)
        if name == "load":
            was = roots.get(k)
            with core.Faults(env, op[4], lambda: do_load(k, op[3])) as fl:
                ok, f = env.call("load %s" % (k,), do_load, k, op[3])
            if ok and f is not None:
                env.hit("loads")
                if was is not None:
                    env.hit("same_object")
                    if f is not was:
                        env.bad("another-object", "%s: loading an open file again gave another object" % K.name)
                elif any(f is x for x in roots.values()):
                    env.bad("wrong-object", "%s: loading %s gave the object of %s" % (K.name, k, [
                        y for y, x in roots.items() if x is f]))
                if shared(k):
                    env.hit("shared")
                roots[k] = f
                if not fl.fired:
                    read(k, "after load")
            else:
                env.hit("failed")
                if not op[4] or not fl.fired:
                    env.bad("healthy-load-failed", "%s: %s" % (K.name, core.exc_str(f) if not ok else "None"))
                # an open file whose forced reload failed stays open
            env.sig("load", K.name, op[3], len(roots), shared(k), ok, bool(fl.fired))
        elif name == "reload":
            k = pick(op[1])
            if k is None:
                continue
            f = roots[k]

            def do_reload():
                if op[2] == "method":
                    f.reload()
                elif op[2] == "handle":
                    viscid.reload_file(f.handle_name)
                else:
                    viscid.reload_file(number_of(f))
            with core.Faults(env, op[3], do_reload) as fl:
                ok, e = env.call("reload %s" % (k,), do_reload)
            env.hit("reloads")
            if not ok:
                env.hit("failed")
                if not fl.fired:
                    env.bad("healthy-reload-failed", core.exc_str(e))
            env.sig("reload", disk.kind(k[0]).name, op[2], len(roots), shared(k), ok)
        elif name == "damaged":
            rel = disk.damage(w, op[3], op[4], op[5])
            if rel is None:
                continue
            env.fault("disk:" + op[4])
            was = roots.get(k)
            if op[6] == "reload" and was is not None:
                ok, e = env.call("reload damaged", was.reload)
            else:
                ok, f = env.call("load damaged", do_load, k, "force" if op[6] == "force" else "names")
                # with a file missing it may be a collection of fewer files, or one that is open already
                if ok and f is not None and not any(f is x for x in roots.values()):
                    env.call("unload", f.unload)
            if not ok:
                env.hit("failed")
            disk.heal(w)
            table("a damaged %s" % op[6])
            # everything of this world can be read again after it was reloaded
            for x in sorted((x for x in roots if x[0] == w), key=repr):
                ok, e = env.call("reload healed", roots[x].reload)
                if not ok:
                    env.must("healthy-reload-failed", "reload after the damage was healed", roots[x].reload)
                read(x, "after damage was healed and it was reloaded")
            env.sig("damaged", K.name, op[4], op[6], ok, len(roots))
        elif name == "unload":
            k = pick(op[1])
            if k is None:
                continue
            f = roots[k]
            names = names_of(f)

            def do_unload():
                if op[2] == "method":
                    f.unload()
                elif op[2] == "handle":
                    viscid.unload_file(f.handle_name)
                elif op[2] == "number":
                    viscid.unload_file(number_of(f))
                elif op[2] == "with":
                    with f:
                        pass
                else:
                    bucket.remove_item(f)
            env.must("unload-fails", "unload %s" % (k,), do_unload)
            env.hit("unloads")
            sh = shared(k)
            del roots[k]
            gone(f, names, "unload by %s" % op[2])
            env.sig("unload", disk.kind(k[0]).name, op[2], len(roots), sh)
            # the others go on working
            for x in sorted((x for x in roots if x[0] == k[0]), key=repr):
                ok, m = env.call("reload", roots[x].reload) if False else (True, None)
                obs = observe(roots[x], seeded("r"), [0])
                m = match(obs, session.sel_truth(disk, x[0], sel_of(x)), disk.kind(x[0]), True, "%s after another file was unloaded" %
                          disk.kind(x[0]).name)
                if m:
                    # what an earlier failed operation left behind is put right by one reload
                    ok, e = env.call("reload", roots[x].reload)
                    if not ok:
                        env.must("healthy-reload-failed", "reload", roots[x].reload)
                    if healthy:
                        env.bad("others-" + m[0], m[1])
        elif name == "read":
            k = pick(op[1])
            if k is not None:
                if healthy:
                    read(k, "read")
                else:
                    env.call("reload", roots[k].reload)
                    read(k, "read after reload")
        elif name == "times":
            k = pick(op[1])
            if k is None:
                continue
            f = roots[k]

            def times():
                if op[2] == "get_times":
                    return len(f.get_times())
                if op[2] == "unresolved":
                    return len([0 for _ in f.iter_times(resolved=False)])
                if op[2] == "nr_times":
                    return f.nr_times()
                if op[2] == "first":
                    for _ in f.iter_times():
                        break
                    return None
                f.get_time(0)
                return None
            n = env.must("times-fail", "%s %s" % (op[2], k), times)
            if n is not None and n != len(session.sel_truth(disk, k[0], sel_of(k))):
                env.bad("times-number", "%s: %s gives %d times" % (disk.kind(k[0]).name, op[2], n))
        elif name == "version":
            w = op[1]
            if w >= nw or any(k[0] == w for k in roots):
                continue
            disk.put(w, op[2])
            env.hit("fresh_version")
        elif name == "unload_each":
            rnd = seeded(op[1])
            ks = sorted(roots, key=repr)
            rnd.shuffle(ks)
            for k in ks:
                f = roots.pop(k)
                names = names_of(f)
                env.must("unload-fails", "unload", f.unload)
                env.hit("unloads")
                gone(f, names, "unload")
                table("unloading %s" % (k,))
            env.hit("emptied")
        elif name == "unload_all":
            olds = [(f, names_of(f)) for f in roots.values()]
            env.must("unload-fails", "unload_all", viscid.unload_all_files)
            roots.clear()
            for f, names in olds:
                gone(f, names, "unload_all_files")
            env.hit("emptied")
        if any(o and isinstance(o, list) for o in [op[-1]]) and name in ("load", "reload") and op[-1]:
            # a fault was armed: put open files right before anything strict is asked of them
            for x in sorted(roots, key=repr):
                ok, e = env.call("reload", roots[x].reload)
                if not ok:
                    env.must("healthy-reload-failed", "reload", roots[x].reload)
        table(name)
    env.must("unload-fails", "unload_all", viscid.unload_all_files)
    roots.clear()
    table("unloading everything at the end")
