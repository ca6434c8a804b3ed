"""C09: after a crash in a save the old or the new version loads, never a mix."""
import os

import numpy as np

from sim import core, saves, session, simio
from sim.props.c08 import keep_tree, restore_tree
from sim.session import seeded

ID = "C09"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("a run counts when its history of saves, crashes and loads differs from every other run's and at least one save was cut "
        "off by a crash or a failure that really happened")
REAL = ["viscid savers and readers of npz and hdf5/xdmf files, field, grid", "h5py/HDF5, numpy, libc stdio above the system call "
        "layer"]
STUB = ["a crash ends the saving process inside a chosen system call, as _exit does; a stop of the machine also loses what was "
        "written to files that were not synced; system calls on files below the run's directory pass a layer that injects faults"]
STATE_MEASURE = "format x way of saving x kind of crash x system call it hit x state before x state after"
PROBES = ["crashes", "old_survived", "new_survived", "unloadable", "saved_again", "no_old", "lost_unsynced", "double_crash",
          "loaded_before"]

CRASHES = ["crash_before", "crash_after", "torn_crash"]
ERRS = [{"cls": "write", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "torn_err", "err": "EIO"},
        {"cls": "open", "act": "err", "err": "EMFILE"}, {"cls": "open", "act": "err", "err": "EACCES"},
        {"cls": "meta", "act": "err", "err": "EIO"}, {"cls": "sync", "act": "err", "err": "EIO"},
        {"cls": "close", "act": "err", "err": "EIO"}, {"cls": "write", "act": "torn_err", "err": "ENOSPC"}]


def prepare():
    session.import_viscid()
    import h5py  # noqa: F401


def generate(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    specs = [saves.gen_spec(rng) for _ in range(nt)]
    if nt == 2 and rng.random() < 0.5:
        specs[1] = saves.gen_spec(rng, specs[0]["fmt"])
    ops = [["save", 0, rng.randint(0, 2)]] if rng.random() < 0.7 else []
    for _ in range(rng.randint(2, 6 if tier == "quick" else 12)):
        k = rng.randrange(nt)
        r = rng.random()
        v = rng.randint(0, 2)
        if r < 0.2:
            ops.append(["save", k, v])
        elif r < 0.7:
            c = {"cls": rng.choice(["mutate", "mutate", "mutate", "meta", "write", "open", "close", "sync", "any"]),
                 "act": rng.choice(CRASHES), "pos": round(rng.random(), 4), "frac": round(rng.choice([0.0, 0.1, 0.5, 0.9, 0.99]), 2)}
            ops.append(["crash", k, v, c, rng.random() < 0.4, rng.randint(0, 99), rng.random() < 0.3])
        elif r < 0.85:
            c = dict(rng.choice(ERRS))
            c.update(pos=round(rng.random(), 4), frac=round(rng.choice([0.0, 0.3, 0.9]), 2), sticky=rng.random() < 0.4)
            ops.append(["fail", k, v, c, rng.randint(0, 99)])
        elif r < 0.93:
            ops.append(["look", k])
        else:
            ops.append(["open", k])
    return {"specs": specs, "ops": ops, "where": rng.choice(["abs", "abs", "rel", "link"])}


def lose_unsynced(root, log, frac):
    """what the machine's stop does to files that were written and not synced; returns how many lost something"""
    dirty = {}
    src = None
    for op, path, size, res, flt in log:
        if op == "from":
            src = path
        elif op == "rename" and res == 0 and src is not None:
            if src in dirty:
                dirty[path] = dirty.pop(src)
            else:
                dirty.pop(path, None)
        elif op in ("write", "fwrite", "wrtorn", "ftrunc", "writev") or (op == "openw" and size):
            dirty[path] = True
        elif op == "sync" and res == 0:
            dirty.pop(path, None)
        elif op == "unlink" and res == 0:
            dirty.pop(path, None)
    n = 0
    for rel in sorted(dirty):
        p = os.path.join(root, rel.lstrip("/"))
        if os.path.isfile(p) and os.path.getsize(p):
            os.truncate(p, int(frac * os.path.getsize(p)))
            n += 1
    return n


def execute(plan, env):
    import viscid
    specs = plan["specs"]
    simio.set_root(env.root)
    sdir = env.path("data", "saved")
    os.makedirs(sdir)
    if plan["where"] == "link":
        os.makedirs(env.path("data", "elsewhere"))
    paths = []
    for k, s in enumerate(specs):
        p = saves.path_of(sdir, s, "s%d" % k)
        if plan["where"] == "rel":
            p = os.path.relpath(p)
        paths.append(p)
    # versions that may be there; None: nothing is there, or something that can't be loaded
    may = [set([None]) for _ in specs]
    objs = [None] * len(specs)
    root = env.path("data")

    def do_save(k, v):
        saves.save(viscid, paths[k], specs[k], saves.build(viscid, specs[k], k, v))

    def state(k):
        """the version a new process finds: ('version', v), ('error', why) or ('mix', what)"""
        def look():
            viscid.unload_all_files()
            try:
                f = viscid.load_file(saves.index_of(paths[k]))
                if f is None:
                    return ["error", "None"]
                why = {}
                for v in range(3):
                    m = saves.mismatch(f, specs[k], k, v)
                    if not m:
                        return ["version", v]
                    why[v] = m
            except Exception as e:      # pylint: disable=broad-except
                return ["error", core.exc_str(e)]
            return ["mix", why]
        r = core.in_child(look)
        if r[0] != "ok":
            return ["died", r[1]]
        return r[1]

    def check(k, what):
        s = state(k)
        if s[0] == "died":
            env.bad("load-kills-the-process", "%s after %s: loading %s" % (specs[k]["fmt"], what, s[1]))
        if s[0] == "mix":
            env.bad("mixture", "%s after %s loads as none of the versions: %s" % (specs[k]["fmt"], what, s[1]))
        if s[0] == "version":
            same = [v for v in range(3) if specs_equal(specs[k], v, s[1])]
            if not any(v in may[k] for v in same):
                env.bad("version-of-neither", "%s after %s is version %s, which may not be there (%s)" % (
                    specs[k]["fmt"], what, s[1], sorted(str(x) for x in may[k])))
            may[k] = set(same) & may[k] or set([s[1]])
        else:
            if None not in may[k]:
                env.bad("saved-version-lost", "%s after %s does not load: %s" % (specs[k]["fmt"], what, s[1]))
        return s

    def cut(k, v, what):
        """the outcome of a save that did not finish"""
        old = set(may[k])
        may[k] = old | set([v, None])
        s = check(k, what)
        if s[0] == "version":
            env.hit("old_survived" if s[1] in old else "new_survived")
        else:
            env.hit("unloadable")
            may[k] = old | set([v, None])
        return s[0]

    for op in plan["ops"]:
        env.step(*op[:3])
        k = op[1]
        spec = specs[k]
        if op[0] in ("save", "crash", "fail"):
            v = op[2]
        if op[0] == "save":
            ok, e = env.call("save", do_save, k, v)
            if not ok:
                env.bad("save-fails-after-a-crash", "saving %s: %s" % (spec["fmt"], core.exc_str(e)))
            may[k] = set([v])
            check(k, "a save")
            if plan["where"] == "link" and not os.path.islink(paths[k]) and len(specs) == 1:
                # the target is a link from now on
                for p in saves.target_files(paths[k]):
                    q = os.path.join(env.path("data", "elsewhere"), os.path.basename(p))
                    os.rename(p, q)
                    os.symlink(q, p)
        elif op[0] == "open":
            if None not in may[k] and objs[k] is None:
                ok, objs[k] = env.call("open", viscid.load_file, saves.index_of(paths[k]))
                if ok:
                    env.hit("loaded_before")
                    g = objs[k].get_grid()
                    env.call("read", lambda: [np.array(g[n].data) for n in g.field_names])
        elif op[0] == "look":
            s = check(k, "nothing in particular")
            env.ev(s[0])
        elif op[0] == "crash":
            if may[k] == set([None]):
                env.hit("no_old")
            c = op[3]
            was = keep_tree(root)
            counts = core.dry_counts(lambda: do_save(k, v))
            restore_tree(root, was)
            n = sum(counts.get(x, 0) for x in parts(c["cls"]))
            if not n:
                env.ev("nothing to hit")
                continue
            nth = int(c["pos"] * n)
            simio.start_log()

            def crash():
                simio.reset()
                simio.rule(c["cls"], nth, c["act"], 0, c["frac"])
                do_save(k, v)
                return "finished"
            r = core.in_child(crash)
            log = simio.get_log()
            simio.stop_log()
            last = log[-1][0] if log else "-"
            if os.environ.get("VSIM_LOG"):
                env.ev("LOG", log)
            env.ev("crashed" if r == ("died", simio.CRASH_EXIT) else str(r[0]), "at", nth, "of", n)
            if r == ("died", simio.CRASH_EXIT):
                env.hit("crashes")
                if len(may[k]) > 2:
                    env.hit("double_crash")
                env.fault("%s:%s" % (c["cls"], c["act"]))
                if op[4]:
                    lost = lose_unsynced(env.root, log, [0.0, 0.5, 0.97][op[5] % 3])
                    if lost:
                        env.hit("lost_unsynced")
                        env.fault("machine:unsynced-lost")
                s = cut(k, v, "a %s at %s call %d of %d%s" % (c["act"], c["cls"], nth, n, ", machine stopped" if op[4] else ""))
                env.sig(spec["fmt"], spec["how"], c["act"], c["cls"], last, op[4], s, plan["where"])
            elif r[0] == "ok":
                may[k] = set([v])
                check(k, "a save")
            else:
                env.bad("save-fails-after-a-crash", "saving %s: %s" % (spec["fmt"], r[1]))
            if op[6]:
                # saving again is possible at once
                ok, e = env.call("save again", do_save, k, v)
                if not ok:
                    env.bad("save-fails-after-a-crash", "saving %s again: %s" % (spec["fmt"], core.exc_str(e)))
                env.hit("saved_again")
                may[k] = set([v])
                check(k, "saving again after a crash")
        elif op[0] == "fail":
            was = keep_tree(root)
            fn = lambda: do_save(k, v)      # noqa: E731
            with core.Faults(env, [op[3]], fn, lambda: restore_tree(root, was)) as fl:
                ok, e = env.call("save", fn)
            if ok:
                may[k] = set([v])
                check(k, "a save that returned")
            else:
                if not fl.fired:
                    env.bad("save-fails-after-a-crash", "saving %s: %s" % (spec["fmt"], core.exc_str(e)))
                env.hit("crashes")
                s = cut(k, v, "a save that failed (%s %s)" % (op[3]["cls"], op[3]["act"]))
                env.sig(spec["fmt"], spec["how"], "fail", op[3]["cls"], op[3]["act"], s)
        # the other targets are what they were
        for j in range(len(specs)):
            if j != k:
                check(j, "a save of another file")
    for k in range(len(specs)):
        v = 1
        ok, e = env.call("last save", do_save, k, v)
        if not ok:
            env.bad("save-fails-after-a-crash", "saving %s in the end: %s" % (specs[k]["fmt"], core.exc_str(e)))
        may[k] = set([v])
        check(k, "the last save")
        if objs[k] is not None:
            f = env.must("saved-version-lost", "load in a session that had an older version", viscid.load_file,
                         saves.index_of(paths[k]), force_reload=True)
            m = saves.mismatch(f, specs[k], k, v)
            if m:
                env.bad("stale-after-save", "%s: %s" % (specs[k]["fmt"], m))


def parts(cls):
    return {"mutate": ["write", "meta", "open"], "any": ["open", "read", "write", "close", "meta", "sync"]}.get(cls, [cls])


def specs_equal(spec, a, b):
    """whether two versions are the same one; different versions always differ in some value"""
    return a == b
