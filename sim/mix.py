"""A session that does a bit of everything, with and without faults; what it may leave behind is judged by the property."""
import os

import numpy as np

from sim import calcs, core, formats, saves, session
from sim.session import Disk, gen_fault, observe, raised_any, seeded

WRITE_FAULTS = [{"cls": "write", "act": "err", "err": "ENOSPC"}, {"cls": "write", "act": "err", "err": "EIO"},
                {"cls": "open", "act": "err", "err": "EACCES"}, {"cls": "open", "act": "err", "err": "EMFILE"},
                {"cls": "write", "act": "torn_err", "err": "ENOSPC"}, {"cls": "meta", "act": "err", "err": "EIO"},
                {"cls": "sync", "act": "err", "err": "EIO"}, {"cls": "close", "act": "err", "err": "EIO"}]
NOTHING = ["no.3df.000100", "no.3d.000100.xdmf", "no.xdmf", "no.npz", "no.h5", "no_q_1.h5", "no.0001.bin", "no.0001.tab",
           "no.3df.000100.b", "no.vpc", "no.nda", "no.txt", "no.hst", "no.iof.000100", "no.iof.000100.b", "pfd.000001.xdmf",
           "no.py_0.000100", "no.mp_info.000100.xdmf", "no.0001.ath.xdmf", "no.xmf"]


def gen_ops(rng, nw, n, saving=True):
    ops = []
    for _ in range(n):
        w = rng.randrange(nw)
        r = rng.random()
        fl = [gen_fault(rng, sticky=0.4)] if rng.random() < 0.35 else []
        if r < 0.18:
            ops.append(["load", w, rng.choice(["list", "glob", "some", "one", "relative"]), rng.random() < 0.2, rng.randint(0, 99), fl])
        elif r < 0.34:
            ops.append(["look", w, rng.randint(0, 999), fl])
        elif r < 0.42:
            ops.append(["partial", w, rng.randint(0, 999), rng.choice(["break", "raise", "next", "with"]), fl])
        elif r < 0.47:
            ops.append(["times", w, rng.choice(["get_times", "nr_times", "print", "times0", "info"]), fl])
        elif r < 0.54:
            ops.append(["reload", w, rng.choice(["method", "handle", "force"]), fl])
        elif r < 0.60:
            ops.append(["unload", w])
        elif r < 0.70:
            ops.append(["damage", w, rng.randint(0, 40), rng.choice(["trunc", "truncinplace", "delete", "empty", "dir", "perm"]),
                        round(rng.random(), 3)])
        elif r < 0.75:
            ops.append(["heal", w])
        elif r < 0.80:
            ops.append(["nothing", rng.choice(NOTHING), rng.choice(["absent", "empty", "garbage", "dir", "link"]), rng.randint(0, 99)])
        elif r < 0.83:
            ops.append(["detect", w])
        elif r < 0.87:
            ops.append(["fields", w, rng.randint(0, 999), fl])
        elif r < 0.90:
            ops.append(["calc", rng.choice(calcs.WHAT), rng.randint(0, 9)])
        elif r < 0.97 and saving:
            ops.append(["save", rng.randint(0, 1), rng.randint(0, 2), [gen_fault(rng, WRITE_FAULTS, 0.5)] if rng.random() < 0.5 else [],
                        rng.random() < 0.5])
        else:
            ops.append(["unload_all"])
    return ops


class Mix(object):
    """executes operations; `objs` holds the files that the session keeps open"""

    def __init__(self, env, plan, viscid):
        self.env, self.plan, self.viscid = env, plan, viscid
        self.disk = Disk(env, plan["worlds"], plan.get("sub"))
        self.nw = len(plan["worlds"])
        self.objs = {}
        self.perms = []
        self.outcome = None
        self.sdir = env.path("data", "saved")
        os.makedirs(self.sdir)
        for w in range(self.nw):
            self.disk.put(w, 0)

    # -- pieces
    def target(self, w, how, k):
        d = self.disk
        if how == "relative":
            t = d.target(w, "list")
            return [os.path.relpath(x) for x in t] if isinstance(t, list) else os.path.relpath(t)
        if how in ("some", "one"):
            t = d.target(w, "parts")
            if not isinstance(t, list):
                return t
            rnd = seeded("part", k)
            return rnd.sample(t, rnd.randint(1, len(t))) if how == "some" else rnd.choice(t)
        return d.target(w, how)

    def load(self, w, how="list", k=0, force=False):
        kw = self.disk.kwargs(w)
        if force:
            kw["force_reload"] = True
        f = self.viscid.load_file(self.target(w, how, k), **kw)
        if f is None:
            raise IOError("load_file gave None")
        return f

    def get(self, w):
        if w not in self.objs:
            self.objs[w] = self.load(w)
        return self.objs[w]

    def under(self, label, faults, fn):
        with core.Faults(self.env, faults, fn) as fl:
            ok, v = self.env.call(label, fn)
        self.outcome = (ok, bool(fl.fired))
        return ok, v

    def read_some(self, w, seed):
        return observe(self.get(w), seeded(seed), [0, 1, 2, 3, 4, 5])

    # -- one operation; returns the label of what was done
    def do(self, op):
        env, viscid, disk = self.env, self.viscid, self.disk
        name = op[0]
        self.outcome = (True, False)
        if name == "load":
            w = op[1]
            ok, f = self.under("load", op[5], lambda: self.load(w, op[2], op[4], op[3]))
            if ok and op[2] in ("list", "glob", "relative"):
                self.objs[w] = f
        elif name == "look":
            w = op[1]
            ok, o = self.under("look", op[3], lambda: self.read_some(w, op[2]))
            env.ev("read" if ok and not raised_any(o) else "read failed")
            if ok and raised_any(o):
                self.outcome = (False, self.outcome[1])
        elif name == "partial":
            w = op[1]
            rnd = seeded(op[2])

            def partial():
                f = self.get(w)
                if op[3] == "next":
                    it = f.iter_times()
                    g = next(it)
                    for q in formats.grid_patches(g)[:1]:
                        np.array(q[list(q.field_names)[0]].data)
                    del it
                    return
                for g in f.iter_times():
                    for q in formats.grid_patches(g):
                        for n in q.field_names:
                            if op[3] == "with":
                                with q[n] as x:
                                    np.array(x.data)
                                    if rnd.random() < 0.3:
                                        raise KeyError("caller")
                            else:
                                np.array(q[n].data)
                            if rnd.random() < 0.3:
                                if op[3] == "raise":
                                    raise KeyError("caller")
                                return
            self.under("partial", op[4], partial)
        elif name == "times":
            w = op[1]

            def times():
                f = self.get(w)
                if op[2] == "get_times":
                    [t for t in f.get_times()]
                elif op[2] == "nr_times":
                    f.nr_times()
                elif op[2] == "print":
                    f.print_tree()
                elif op[2] == "times0":
                    f.activate_time(0)
                    f.get_grid().time
                else:
                    f.get_all_info()
                    for g in f.iter_times():
                        g.time_as_datetime64()
            self.under("times " + op[2], op[3], times)
        elif name == "reload":
            w = op[1]

            def reload():
                f = self.get(w)
                if op[2] == "method":
                    f.reload()
                elif op[2] == "handle":
                    viscid.reload_file(f.handle_name)
                else:
                    self.load(w, "list", 0, True)
            self.under("reload " + op[2], op[3], reload)
        elif name == "unload":
            if op[1] in self.objs:
                env.call("unload", self.objs.pop(op[1]).unload)
        elif name == "unload_all":
            env.call("unload all", viscid.unload_all_files)
            self.objs.clear()
        elif name == "damage":
            w = op[1]
            if op[3] == "perm":
                fs = disk.files(w)
                p = os.path.join(disk.dirs[w], fs[op[2] % len(fs)])
                if os.path.exists(p):
                    os.chmod(p, [0o444, 0o000, 0o400][op[2] % 3] if os.path.isfile(p) else 0o555)
                    self.perms.append(p)
                    env.fault("disk:perm")
            elif disk.damage(w, op[2], op[3], op[4]) is not None:
                env.fault("disk:" + op[3])
        elif name == "heal":
            for p in self.perms:
                if os.path.exists(p):
                    os.chmod(p, 0o755 if os.path.isdir(p) else 0o644)
            del self.perms[:]
            disk.heal(op[1])
        elif name == "nothing":
            p = env.path("data", "other", op[1])
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            if not os.path.lexists(p):
                if op[2] == "empty":
                    open(p, "wb").close()
                elif op[2] == "garbage":
                    rnd = seeded(op[3])
                    with open(p, "wb") as fo:
                        fo.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([3, 100, 3000]))))
                elif op[2] == "dir":
                    os.mkdir(p)
                elif op[2] == "link":
                    os.symlink("/nowhere/at/all", p)
            if self.after_disk:
                self.after_disk()

            def use():
                f = viscid.load_file(p)
                if f is not None:
                    observe(f, seeded(1), [0])
                    f.unload()
            self.outcome = env.call("nothing", use)[0], False
        elif name == "detect":
            from viscid.readers.vfile import VFile
            for rel in disk.files(op[1]):
                env.call("detect", VFile.detect_type, os.path.join(disk.dirs[op[1]], rel))
        elif name == "fields":
            w = op[1]
            rnd = seeded(op[2])

            def fields():
                f = self.get(w)
                for g in f.iter_times():
                    for q in formats.grid_patches(g)[:1]:
                        n = rnd.choice(sorted(q.field_names))
                        x = q[n]
                        np.array(x[(slice(0, 1),)].data)
                        np.array((x + 1).data)
                        q.field_dict()
                        list(q.iter_fields())
                        try:
                            np.array(q["%s_new=%s * 2" % (n, n)].data)
                        except Exception:
                            pass
            self.under("fields", op[3], fields)
        elif name == "calc":
            self.outcome = env.call("calc " + op[1], calcs.run, viscid, op[1], op[2])[0], False
        elif name == "save":
            spec = self.plan["saves"][op[1]]
            path = saves.path_of(self.sdir, spec, "s%d" % op[1])
            flds = saves.build(viscid, spec, op[1], op[2])
            ok, v = self.under("save", op[3], lambda: saves.save(viscid, path, spec, flds))
            if ok and op[4]:
                g = env.call("load saved", viscid.load_file, saves.index_of(path), force_reload=True)
                if g[0] and g[1] is not None:
                    env.call("look at saved", observe, g[1], seeded(1), [0])
                    env.call("unload saved", g[1].unload)
        return name

    after_disk = None


CHANGES = ("damage", "heal")


def gen_plan(rng, tier, saving=True, lo=4):
    nw = rng.choice([1, 1, 2, 3])
    worlds = [formats.gen_world(rng, w) for w in range(nw)]
    return {"worlds": worlds, "saves": [saves.gen_spec(rng), saves.gen_spec(rng)],
            "ops": gen_ops(rng, nw, rng.randint(lo, 12 if tier == "quick" else 25), saving),
            "longterm": rng.random() < 0.2, "nobody": rng.random() < 0.3}
