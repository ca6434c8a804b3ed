"""C17: iterating a run keeps at most one snapshot's data in memory."""
import _tracemalloc
import gc
import math
import tracemalloc

import numpy as np

from sim import core, formats, session, simio
from sim.formats import KINDS
from sim.session import Disk, Exc, gen_fault, match, match_snap, observe, seeded

ID = "C17"
RUNS = {"quick": 1400, "thorough": 80000}
RULE = ("a run counts when its history of operations and results differs from every other run's; the blocks of memory that hold "
        "field data are counted at every step of every iteration and after it")
REAL = ["viscid readers of all formats with data read on access, bucket, dataset, grid, field, iteration and with-blocks",
        "compiled Fortran reader", "h5py/HDF5, numpy and its allocator"]
STUB = ["the simulator writes the files; system calls on files below the run's directory pass a layer that injects faults; numpy's "
        "memory is counted through its allocator's own tracing"]
STATE_MEASURE = "format x how the data was read x how the iteration or block was left x caches kept for long or not x fault"
PROBES = ["iterations", "moved_on", "ended_early", "broken", "fields_iterated", "with_grid", "with_field", "with_file", "longterm",
          "reread", "faulted", "amr", "selected", "held"]
WAYS = ["data", "data", "iter_fields", "iter_items", "force", "slice", "equation", "with", "centring", "derived", "dict", "file_fields"]
ENDS = ["full", "full", "break", "raise", "throw", "close", "drop", "next"]
BIG = 1024
# a failed allocation leaves a trace of a block that does not exist
FAULTS = [f for f in session.READ_FAULTS if f["cls"] != "alloc"]


def prepare():
    session.import_viscid()


def enlarge(rng, p):
    """field data are the only large blocks: 1024 bytes and more, all coordinates stay below"""
    p["inl"] = None             # values in the index itself stay in memory with it
    if p.get("sect", "").startswith("p"):
        p["sect"] = "3df"
    for ver in p["vers"]:
        nd = len(ver["dims"])
        if p["kind"] == "amr":
            ver["dims"] = [8] * 3
        elif nd == 2:
            ver["dims"] = [rng.randint(19, 22) for _ in range(2)]
        else:
            ver["dims"] = [rng.randint(8, 10) for _ in range(3)]
        for key in ("nc", "cc"):
            for k, c in enumerate(ver.get(key, [])[:nd]):
                n = ver["dims"][k] + (1 if key == "nc" else 0)
                d = c[-1] - c[-2]
                while len(c) < n:
                    c.append(c[-1] + d)
                if key == "cc":
                    del c[n:]
    return p


def generate(rng, tier):
    kinds = sorted(k for k in KINDS if KINDS[k].lazy)
    nw = rng.choice([1, 1, 2])
    worlds = []
    while len(worlds) < nw:
        p = formats.gen_world(rng, len(worlds), kinds)
        if len(p["vers"][0]["dims"]) > 1:       # in one dimension coordinates are as large as fields
            worlds.append(enlarge(rng, p))
    ops = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 18)):
        w = rng.randrange(nw)
        r = rng.random()
        fl = [gen_fault(rng, FAULTS, sticky=0.4)] if rng.random() < 0.25 else []
        way = rng.choice(WAYS)
        if r < 0.5:
            ops.append(["iter", w, rng.choice(["all", "all", "sel", "grid", "files"]), [rng.choice(WAYS) for _ in range(rng.randint(1, 2))],
                        rng.choice(ENDS), rng.randint(0, 999), fl])
        elif r < 0.68:
            ops.append(["with", w, rng.choice(["grid", "grid", "field", "file", "dataset"]), way, rng.random() < 0.4,
                        rng.randint(0, 999), fl])
        elif r < 0.78:
            ops.append(["again", w])
        elif r < 0.86:
            ops.append(["reload", w])
        elif r < 0.93:
            ops.append(["nested", w, rng.randrange(nw), rng.randint(0, 999)])
        else:
            ops.append(["activate", w, rng.randint(0, 9), way, rng.randint(0, 999)])
    return {"worlds": worlds, "ops": ops, "longterm": rng.random() < 0.6}


def blocks():
    """blocks of memory that can hold a field: (number, bytes)"""
    n = b = 0
    for t in _tracemalloc._get_traces():
        if t[0] == np.lib.tracemalloc_domain and t[1] >= BIG:
            n += 1
            b += t[1]
    return n, b


class Stop(Exception):
    pass


class Run(object):
    def __init__(self, env, plan, viscid):
        self.env, self.plan, self.viscid = env, plan, viscid
        self.disk = Disk(env, plan["worlds"])
        self.objs = {}
        self.kept = []

    def load(self, w, **kw):
        kw.update(self.disk.kwargs(w))
        f = self.viscid.load_file(self.disk.target(w), **kw)
        if f is None:
            raise IOError("load_file gave None")
        return f

    def get(self, w):
        if w not in self.objs:
            self.objs[w] = self.load(w)
        return self.objs[w]

    def nothing_left(self, when, cls="kept"):
        n, b = blocks()
        if n > self.base:
            gc.collect()
            n, b = blocks()
        if n > self.base:
            self.env.bad(cls, "%s: %d blocks of field data (%d bytes) are still in memory" % (when, n - self.base, b))

    def read(self, g, f, way, rnd, budget=None):
        """read some of the data of a grid; nothing is kept by us"""
        env = self.env
        for q in formats.grid_patches(g):
            if way == "derived":
                for n in ("b", "v", "j", "e", "bx", "vx", "pp", "h"):
                    try:
                        np.array(q[n].data)
                    except (KeyError, ValueError, AttributeError, NotImplementedError, RuntimeError):
                        pass
                continue
            names = sorted(q.field_names)
            rnd.shuffle(names)
            if way in ("iter_fields", "iter_items", "file_fields"):
                before = blocks()[0]
                k = 0
                if way == "file_fields" and q is g:
                    it = f.iter_fields()
                else:
                    it = q.iter_fields() if way != "iter_items" else q.iter_field_items()
                early = rnd.random() < 0.3
                for x in it:
                    x = x[1] if isinstance(x, tuple) else x
                    now = blocks()[0]
                    if now > before:
                        gc.collect()
                        now = blocks()[0]
                    if now > before:
                        env.bad("kept-field", "%s: at the next field, %d blocks of the one before are still in memory" % (
                            way, now - before))
                    self.touch(x, rnd)
                    k += 1
                    if early and k == 1:
                        break
                del it, x
                now = blocks()[0]
                if now > before:
                    gc.collect()
                    now = blocks()[0]
                if now > before:
                    env.bad("kept-field", "%s: after the last field, %d blocks are still in memory" % (way, now - before))
                env.hit("fields_iterated")
                continue
            if way == "dict":
                for x in q.field_dict().values():
                    self.touch(x, rnd)
                del x
                continue
            for n in names[:rnd.randint(1, len(names))]:
                if way == "force" and q is g:
                    self.touch(q.get_field(n, force_longterm_caches=True), rnd)
                elif way == "slice":
                    np.array(q[n][0:3].data)
                elif way == "equation":
                    try:
                        np.array(q["q=%s*2" % n].data)
                    except (KeyError, ValueError, SyntaxError, TypeError, RuntimeError):
                        pass
                elif way == "with":
                    before = blocks()[0]
                    with q[n] as x:
                        self.touch(x, rnd)
                    if blocks()[0] > before:
                        env.bad("kept-field", "after the with-block of a field")
                    del x
                elif way == "centring":
                    x = q[n]
                    if x.nr_comps == 0 or True:
                        x = x.as_cell_centered() if rnd.random() < 0.5 else x.as_node_centered()
                        self.touch(x, rnd)
                    del x
                else:
                    self.touch(q[n], rnd)

    @staticmethod
    def touch(x, rnd):
        r = rnd.random()
        if r < 0.7:
            d = x.data
        elif r < 0.8:
            d = x.resolve().data
        elif r < 0.9:
            d = np.array(x)
        else:
            d = x.flat_data
        del d

    def iterator(self, w, what, rnd):
        f = self.get(w)
        nt = len(self.disk.truth(w))
        if what == "sel" and nt > 1:
            a = rnd.randrange(nt)
            self.env.hit("selected")
            return f, f.iter_times(rnd.choice([slice(a, None), slice(None, None, -1), "%d:" % a, slice(a, a + 2)]))
        if what == "grid":
            return f, f.get_grid().iter_times()
        if what == "files":
            return f, f.iter_times(resolved=False) if nt > 1 else f.iter_times()
        return f, f.iter_times()

    def iterate(self, w, what, ways, end, seed):
        env = self.env
        rnd = seeded("it", seed)
        f, it = self.iterator(w, what, rnd)
        stop_at = rnd.randint(0, 3)
        k = 0
        if end == "next":
            g = next(it).resolve().get_grid()
            for way in ways:
                self.read(g, f, way, rnd)
            del g, it
            return "ended_early"
        for g in it:
            if k:
                self.nothing_left("at the next snapshot", "kept-snapshot")
                env.hit("moved_on")
            g = g.resolve().get_grid()
            for way in ways:
                self.read(g, f, way, rnd)
            if end != "full" and k == stop_at:
                if end == "break":
                    break
                if end == "raise":
                    raise Stop("caller")
                if end == "throw":
                    del g
                    it.throw(Stop("thrown"))
                if end == "close":
                    del g
                    it.close()
                    return "ended_early"
                if end == "drop":
                    del g, it
                    return "ended_early"
            k += 1
        return "ended_early" if k == stop_at and end == "break" else "iterations"

    def with_block(self, w, what, way, err, seed):
        env = self.env
        rnd = seeded("with", seed)
        if what == "file":
            self.objs.pop(w, None)
            with self.load(w) as f:
                self.kept.append(f)
                for g in [f.get_grid()]:
                    self.read(g, f, way, rnd)
                del g
                if err:
                    raise Stop("caller")
            return
        f = self.get(w)
        if what == "grid":
            with f.get_grid() as g:
                self.kept.append(g)
                if way == "data":
                    self.kept.extend(formats.grid_patches(g))
                self.read(g, f, way, rnd)
                if err:
                    raise Stop("caller")
        elif what == "dataset":
            # everything in the file, whatever snapshot it belongs to
            ds = list(f.children)[0] if not isinstance(f.children, list) else f
            if not hasattr(ds, "__exit__") or isinstance(ds, type(f)):
                ds = f.get_grid()
            with ds as d:
                self.read(d.get_grid(), f, way, rnd)
                if err:
                    raise Stop("caller")
        else:
            g = f.get_grid()
            for q in formats.grid_patches(g):
                for n in sorted(q.field_names):
                    with q.get_field(n) as x:
                        self.kept.append(x)
                        self.touch(x, rnd)
                        if err:
                            raise Stop("caller")


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    viscid.calculator.evaluator.enabled = True
    simio.set_root(env.root)
    tracemalloc.start(1)
    r = Run(env, plan, viscid)
    disk = r.disk
    for w in range(len(plan["worlds"])):
        disk.put(w, 0)
    gc.collect()
    r.base = blocks()[0]
    if plan["longterm"]:
        env.hit("longterm")
    for op in plan["ops"]:
        env.step(*op[:5])
        w = op[1]
        if w >= len(plan["worlds"]):
            continue
        kind = plan["worlds"][w]["kind"]
        if kind == "amr":
            env.hit("amr")
        fired = False
        if op[0] in ("iter", "with"):
            fn = ((lambda: r.iterate(w, op[2], op[3], op[4], op[5])) if op[0] == "iter" else
                  (lambda: r.with_block(w, op[2], op[3], op[4], op[5])))
            with core.Faults(env, op[6], fn) as fl:
                ok, v = env.call(op[0], fn)
            fired = bool(fl.fired)
            if fired:
                env.hit("faulted")
            if not ok and not isinstance(v, Stop) and not fired:
                env.bad("raised", "%s of healthy files raised %s" % (op[0], core.exc_str(v)))
            if ok and op[0] == "iter":
                env.hit(v)
            if not ok:
                env.hit("broken")
            if op[0] == "with":
                env.hit("with_" + (op[2] if op[2] != "dataset" else "grid"))
            out = "ok" if ok else type(v).__name__
            v = None
            r.nothing_left("%s %s, left by %s" % (op[0], op[2], out), "kept-after-" + op[0])
            del r.kept[:]
            env.sig(kind, op[:5], bool(plan["longterm"]), fired, out)
        elif op[0] == "again":
            ok, o = env.call("again", lambda: observe(r.get(w), seeded(3), [0, 1, 2]))
            if not ok:
                env.bad("raised", "reading healthy files raised")
            m = match(o, disk.truth(w), KINDS[kind], True, "file")
            if m:
                env.bad("reread-" + m[0], m[1])
            env.hit("reread")
            o = None
            r.nothing_left("after reading everything", "kept-after-again")
        elif op[0] == "reload":
            env.must("raised", "reload", lambda: r.get(w).reload())
            r.nothing_left("after a reload", "kept-after-reload")
        elif op[0] == "nested":
            def nested():
                rnd = seeded("nest", op[3])
                f, f2 = r.get(w), r.get(op[2] % len(plan["worlds"]))
                for g in f.iter_times():
                    r.read(g, f, "data", rnd)
                    for h in f2.iter_times():
                        r.read(h, f2, "data", rnd)
                        if rnd.random() < 0.2:
                            break
                    if rnd.random() < 0.2:
                        break
            env.must("raised", "nested", nested)
            r.nothing_left("after nested iterations", "kept-after-iter")
        elif op[0] == "activate":
            rnd = seeded("act", op[4])

            def activate():
                f = r.get(w)
                t = disk.truth(w)
                try:
                    f.activate_time(op[2] % len(t))
                except AttributeError:
                    pass
                r.read(f.get_grid(), f, op[3], rnd)
                # what is read outside an iteration may stay until it is cleared
                f.clear_cache()
            env.must("raised", "activate", activate)
            r.nothing_left("after clear_cache of the file", "kept-after-clear")
    r.objs.clear()
    env.call("unload all", viscid.unload_all_files)
    r.nothing_left("after everything was unloaded", "kept-after-unload")
    tracemalloc.stop()
