"""C07: a run's snapshots form one time series: complete, sorted, each once."""
import logging
import os

import numpy as np

from sim import core, formats, session, simio
from sim.formats import KINDS
from sim.session import Disk, gen_fault, match, match_snap, match_time, look_grid, observe, seeded

ID = "C07"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of operations and results differs from every other run's and at least one series of two or "
        "more snapshots was loaded and selected from")
REAL = ["viscid readers of the 11 formats with time series, bucket, dataset, selection of times, glob handling", "compiled Fortran "
        "reader", "h5py/HDF5, numpy, libgfortran, libc stdio above the system call layer"]
STUB = ["the order in which directories list their entries (os.scandir, os.listdir) is chosen by the simulator", "the simulator "
        "writes and damages the files; system calls on files below the run's directory pass a layer that injects faults"]
STATE_MEASURE = "format x way of naming the files x operation x kind of selection x time order against name order"
PROBES = ["series", "selections", "empty_selections", "activated", "nested", "permuted_times", "glob_slices", "repeated_names",
          "listed_order", "snapshot_unreadable", "reported", "out_of_range", "interrupted"]
SERIES = ["ggcm", "iof", "fortbin", "jrrle", "athx", "athb", "atht", "gkeyll", "xdmft", "xdmfs", "amr", "vpic"]
FREE_TIMES = ["ggcm", "iof", "athx", "athb", "atht", "gkeyll", "xdmft", "xdmfs", "amr"]
SLICED = {"ggcm": "%s.%s.[%s].xdmf", "iof": "%s.%s.[%s].xdmf", "athb": "%s.[%s].bin", "atht": "%s.[%s].tab",
          "gkeyll": "%s_q_[%s].h5", "athx": "%s.[%s].ath.xdmf", "fortbin": "%s.%s.[%s].b", "jrrle": "%s.%s.[%s]"}


def prepare():
    session.import_viscid()


class Listing(object):
    """directory listings in an order of the simulator's choice"""

    def __init__(self, env, seed):
        self.env, self.rnd = env, seeded("listing", seed)
        self.scandir, self.listdir = os.scandir, os.listdir

    def __enter__(self):
        def order(es, key):
            es = sorted(es, key=key)
            self.rnd.shuffle(es)
            self.env.hit("listed_order")
            self.env.fault("directory listed in another order")
            return es

        scandir = self.scandir
        class Scan(object):
            def __init__(s, *a):
                with scandir(*a) as it:
                    s.es = iter(order(list(it), lambda e: e.name))

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.es)

            def close(s):
                pass
        os.scandir = Scan
        os.listdir = lambda *a: order(self.listdir(*a), str)
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir
        return False


# ------------------------------------------------------------------ selections and what they select
class Warnings(logging.Handler):
    """what the library reports in its log"""

    def __init__(self, logger):
        logging.Handler.__init__(self, logging.WARNING)
        self.lines = []
        for h in list(logger.handlers):
            logger.removeHandler(h)
        logger.addHandler(self)
        logger.propagate = False
        logger.setLevel(logging.WARNING)

    def emit(self, record):
        self.lines.append(record.getMessage())


def near(rng, times, k):
    """a time that is nearest to snapshot k, exactly representable"""
    r = rng.random()
    if r < 0.5:
        return times[k]
    lo = times[k] - (times[k] - times[k - 1]) * 0.375 if k else times[k] - rng.choice([0.5, 100.0])
    hi = times[k] + (times[k + 1] - times[k]) * 0.375 if k + 1 < len(times) else times[k] + rng.choice([0.5, 100.0])
    return rng.choice([lo, hi])


def gen_sel1(rng):
    return [rng.choice(["int", "int", "j", "strj", "strf", "strint", "out", "npint"]), rng.randint(0, 99), rng.randint(0, 10 ** 6)]


def gen_slice(rng):
    return [rng.choice(["all", "ints", "ints", "strints", "vals", "vals", "strvals", "strvals", "mixed", "array", "none"]),
            rng.randint(0, 99), rng.randint(0, 10 ** 6)]


def edge(rnd, times):
    """an end of a slice by time: a snapshot's time, a point between two, or one beyond the ends"""
    n = len(times)
    k = rnd.randrange(n)
    r = rnd.random()
    if r < 0.45:
        return times[k]
    if r < 0.85 and n > 1:
        k = min(k, n - 2)
        return times[k] + rnd.choice([0.125, 0.5, 0.875]) * (times[k + 1] - times[k])
    return rnd.choice([times[0] - 3.5, times[-1] + 3.5])


def by_value(times, a, b, step):
    """documented rule: from a to b, both included"""
    n = len(times)
    if step > 0:
        ks = [k for k in range(n) if (a is None or times[k] >= a) and (b is None or times[k] <= b)]
    else:
        ks = [k for k in reversed(range(n)) if (a is None or times[k] <= a) and (b is None or times[k] >= b)]
    return ks[::abs(step)]


def make_sel(spec, times):
    """(selection for the library, indices it stands for or None: out of range)"""
    how, k, seed = spec
    rnd = seeded("sel", seed)
    n = len(times)
    k = k % n
    if how in ("int", "strint", "npint"):
        i = rnd.choice([k, k - n])
        return {"int": i, "strint": str(i), "npint": np.int64(i)}[how], [k]
    if how == "out":
        return rnd.choice([n, n + 3, -n - 1]), None
    if how in ("j", "strj", "strf"):
        t = near(rnd, times, k)
        return {"j": 1j * t, "strj": "%rj" % t, "strf": "%rf" % t}[how], [k]
    step = rnd.choice([None, None, 1, 2, 3, -1, -2])
    st = step or 1
    if how in ("all", "none"):
        return (slice(None) if how == "all" else ":"), list(range(n))
    if how in ("ints", "strints"):
        a, b = [rnd.choice([None, rnd.randint(-n, n)]) for _ in range(2)]
        s = slice(a, b, step)
        ks = list(range(n))[s]
        if how == "strints":
            s = ":".join("" if x is None else str(x) for x in ((a, b) if step is None else (a, b, step)))
        return s, ks
    if how in ("vals", "strvals"):
        a, b = [rnd.choice([None, edge(rnd, times), edge(rnd, times)]) for _ in range(2)]
        if a is None and b is None:
            a = edge(rnd, times)
        if a is not None and b is not None and ((a > b) if st > 0 else (a < b)) and rnd.random() < 0.8:
            a, b = b, a
        ks = by_value(times, a, b, st)
        if how == "vals":
            s = slice(None if a is None else 1j * a, None if b is None else 1j * b, step)
        else:
            u = rnd.choice("jf")
            s = ":".join("" if x is None else "%r%s" % (x, u) for x in (a, b)) + ("" if step is None else ":%d" % step)
        return s, ks
    if how == "mixed":
        a, b = edge(rnd, times), rnd.randint(0, n)
        if rnd.random() < 0.5:
            return slice(1j * a, b, abs(st)), [i for i in range(n) if times[i] >= a and i < b][::abs(st)]
        return slice(b, 1j * a, abs(st)), [i for i in range(n) if times[i] <= a and i >= b][::abs(st)]
    ks = [rnd.randrange(n) for _ in range(rnd.randint(1, 4))]
    return (list(ks) if rnd.random() < 0.5 and ks else np.array(ks)), ks


def generate(rng, tier):
    name = rng.choice(SERIES)
    w = KINDS[name].gen(rng, rng.randint(0, 7), rng.randint(2, 6))
    perm = name in FREE_TIMES and w.get("tstyle") != "slab" and rng.random() < 0.4
    if perm:
        order = list(range(len(w["vers"][0]["times"])))
        rng.shuffle(order)
        for ver in w["vers"]:
            ver["times"] = [ver["times"][k] for k in order]
    ops = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 20)):
        r = rng.random()
        if r < 0.16:
            ops.append(["load", rng.choice(["list", "shuffled", "shuffled", "glob", "glob", "relative", "repeated", "overlap", "sliced",
                                            "some"]), rng.randint(0, 10 ** 6)])
        elif r < 0.34:
            ops.append(["iter", gen_slice(rng) if rng.random() < 0.7 else gen_sel1(rng), rng.randint(0, 99)])
        elif r < 0.46:
            ops.append(["times", rng.choice(["nr_times", "get_times", "get_time", "unresolved"]),
                        gen_slice(rng) if rng.random() < 0.6 else gen_sel1(rng)])
        elif r < 0.58:
            ops.append(["grid", gen_sel1(rng)])
        elif r < 0.66:
            ops.append(["field", gen_sel1(rng), rng.randint(0, 99)])
        elif r < 0.76:
            ops.append(["activate", gen_sel1(rng), rng.randint(0, 99)])
        elif r < 0.82:
            ops.append(["nested", gen_slice(rng), gen_slice(rng)])
        elif r < 0.88:
            ops.append(["break", gen_slice(rng), rng.randint(0, 5), rng.choice(["break", "raise", "close"])])
        elif r < 0.93:
            ops.append(["fault", gen_fault(rng, sticky=0.3), gen_slice(rng)])
        else:
            ops.append(["damage", rng.randint(0, 40), rng.choice(["trunc", "empty", "delete", "dir"]), round(rng.random(), 3),
                        gen_slice(rng)])
    return {"worlds": [w], "perm": perm, "ops": ops, "first": rng.choice(["list", "shuffled", "glob", "glob"]),
            "listing": rng.randint(0, 10 ** 6), "longterm": rng.random() < 0.2}


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    log = Warnings(viscid.logger)
    disk = Disk(env, plan["worlds"])
    simio.set_root(env.root)
    disk.put(0, 0)
    K = disk.kind(0)
    p = plan["worlds"][0]
    everything = disk.truth(0)
    kw = disk.kwargs(0)
    cur = {"f": None, "truth": None, "active": None}
    if plan.get("perm"):
        env.hit("permuted_times")

    def by_time(snaps):
        return sorted(snaps, key=lambda s: s["time"])

    def parts():
        t = disk.target(0, "parts")
        return t if isinstance(t, list) else None

    def naming(how, seed):
        """(what is given to load_file, the snapshots it names)"""
        rnd = seeded("naming", seed)
        t = disk.target(0, "list")
        names = parts()
        if how == "relative":
            t = [os.path.relpath(x) for x in t] if isinstance(t, list) else os.path.relpath(t)
            return t, everything
        if names is None or how == "list":
            return t, everything
        if how == "glob":
            return disk.target(0, "glob"), everything
        if how == "shuffled":
            names = list(names)
            rnd.shuffle(names)
            return names, everything
        if how == "repeated":
            names = names + [rnd.choice(names) for _ in range(rnd.randint(1, 3))]
            rnd.shuffle(names)
            env.hit("repeated_names")
            return names, everything
        if how == "overlap":
            g = disk.target(0, "glob")
            if "*" not in str(g):
                return t, everything
            env.hit("repeated_names")
            names = [g, rnd.choice(names)]
            rnd.shuffle(names)
            return names, everything
        if how == "some":
            ks = sorted(rnd.sample(range(len(names)), rnd.randint(2, len(names))))
            names = [names[k] for k in ks]
            rnd.shuffle(names)
            return names, [everything[k] for k in ks]
        # a slice in the file name: numbers in the names are what is sliced
        steps = [float(s) for s in p["steps"]]
        if K.name not in SLICED or len(set(len(x) for x in names)) > 1 and K.name != "gkeyll":
            return t, everything
        for attempt in range(20):
            s, ks = make_sel([rnd.choice(["strints", "strvals"]), 0, rnd.randrange(10 ** 6)], steps)
            if len(ks) > 1 and (s.count(":") < 2 or "-" not in s.split(":")[2]):
                break
        else:
            return t, everything
        env.hit("glob_slices")
        args = (p["run"], p.get("ft") or p.get("sect"), s) if K.name in ("ggcm", "iof", "fortbin", "jrrle") else (p["run"], s)
        return os.path.join(disk.dirs[0], SLICED[K.name] % args), [everything[k] for k in ks]

    def load(how, seed):
        t, snaps = naming(how, seed)
        with Listing(env, (plan["listing"], seed)):
            ok, f = env.call("load %s" % how, viscid.load_file, t, **kw)
        if not ok or f is None:
            env.bad("healthy-load-failed", "%s named by %s (%s): %s" % (K.name, how, t, f if ok else core.exc_str(f)))
        cur.update(f=f, truth=by_time(snaps), active=None)
        if len(snaps) > 1:
            env.hit("series")
        m = match(observe(f, seeded(1), [0]), cur["truth"], K, True, "%s named by %s" % (K.name, how))
        if m:
            env.bad(m[0], m[1])
        env.sig("load", K.name, how, bool(plan.get("perm")), len(snaps))

    def name_of(spec):
        return spec[0]

    def check_grid(g, k, what):
        m = match_snap(look_grid(g, seeded(2), [0, 3]), cur["truth"][k], K, True, what)
        if m:
            env.bad("selected-" + m[0], m[1])

    def select(spec):
        times = [s["time"] for s in cur["truth"]]
        if len(times) < 2:
            return None
        sel, ks = make_sel(spec, times)
        env.hit("selections")
        if ks is None:
            env.hit("out_of_range")
        elif not ks:
            env.hit("empty_selections")
        env.sig("select", K.name, name_of(spec), bool(plan.get("perm")), ks is None, not ks)
        return sel, ks, "%s times %s selected by %r" % (K.name, times, sel)

    def expect_raise(what, fn):
        ok, v = env.call("out of range", fn)
        if ok:
            env.bad("index-out-of-range-accepted", "%s gave %s" % (what, v))

    load(plan["first"], 0)
    for op in plan["ops"]:
        env.step(*op)
        name = op[0]
        f = cur["f"]
        if name == "load":
            if op[2] % 3:
                env.must("unload-failed", "unload", f.unload)
            load(op[1], op[2])
            continue
        if name in ("grid", "field", "iter", "activate"):
            s = select(op[1])
        elif name == "times":
            s = select(op[2])
        else:
            s = None
        if name == "iter" and s:
            sel, ks, what = s
            if ks is None:
                expect_raise(what, lambda: list(f.iter_times(sel)))
                continue
            got = []

            def run():
                for i, g in enumerate(f.iter_times(sel)):
                    if i >= len(ks):
                        env.bad("selected-too-many", "%s gives more than the snapshots %s" % (what, ks))
                    check_grid(g, ks[i], what + " item %d" % i)
                    got.append(g.time)
            env.must("selection-raised", what, run)
            if len(got) != len(ks):
                env.bad("selected-too-few", "%s gives the times %s instead of snapshots %s" % (what, got, ks))
        elif name == "times" and s:
            sel, ks, what = s
            if op[1] == "nr_times":
                if ks is None:
                    expect_raise(what, lambda: f.nr_times(sel))
                    continue
                n = env.must("selection-raised", what, f.nr_times, sel)
                if n != len(ks):
                    env.bad("wrong-number-selected", "%s: nr_times is %r instead of %d" % (what, n, len(ks)))
            elif op[1] == "get_time":
                if not ks:
                    expect_raise(what, lambda: f.get_time(sel))
                    continue
                g = env.must("selection-raised", what, f.get_time, sel)
                if not match_time(g.time, cur["truth"][ks[0]]["time"]):
                    env.bad("selected-wrong-time", "%s: get_time gives time %r" % (what, g.time))
            else:
                if ks is None:
                    expect_raise(what, lambda: f.get_times(sel))
                    continue
                ts = env.must("selection-raised", what,
                              lambda: [g.time for g in (f.get_times(sel) if op[1] == "get_times" else
                                                        f.iter_times(sel, resolved=False))])
                if len(ts) != len(ks) or not all(match_time(t, cur["truth"][k]["time"]) for t, k in zip(ts, ks)):
                    env.bad("selected-wrong-times", "%s: %s gives %s" % (what, op[1], ts))
        elif name == "grid" and s:
            sel, ks, what = s
            if ks is None:
                expect_raise(what, lambda: f.get_grid(time=sel))
                continue
            check_grid(env.must("selection-raised", what, f.get_grid, time=sel), ks[0], what + " by get_grid")
        elif name == "field" and s:
            sel, ks, what = s
            if ks is None:
                expect_raise(what, lambda: f.get_field("x", time=sel))
                continue
            t = cur["truth"][ks[0]]
            if len(t["patches"]) > 1:
                continue
            names = sorted(t["patches"][0]["fields"])
            n = names[op[2] % len(names)]
            x = env.must("selection-raised", what, f.get_field, n, time=sel)
            a = env.must("selection-raised", what, lambda: np.array(x.data))
            if not formats.same_data(a, t["patches"][0]["fields"][n]["data"], K.lossy):
                env.bad("selected-wrong-data", "%s: get_field(%s): %s" % (what, n, formats.diff_text(
                    a, t["patches"][0]["fields"][n]["data"])))
            if not match_time(x.time, t["time"]):
                env.bad("selected-wrong-time", "%s: get_field(%s) has time %r" % (what, n, x.time))
            many = env.must("selection-raised", what, lambda: dict((k, np.array(v.data)) for k, v in
                                                                   f.field_dict(time=sel).items()))
            for m in many:
                if m in names and not formats.same_data(many[m], t["patches"][0]["fields"][m]["data"], K.lossy):
                    env.bad("selected-wrong-data", "%s: field_dict()[%s]" % (what, m))
        elif name == "activate" and s:
            sel, ks, what = s
            if ks is None:
                continue
            env.must("selection-raised", what, f.activate_time, sel)
            env.hit("activated")
            cur["active"] = ks[0]
        elif name == "nested":
            a, b = select(op[1]), select(op[2])
            if not a or not b or a[1] is None or b[1] is None:
                continue

            def nested():
                for i, g in enumerate(f.iter_times(a[0])):
                    for j, h in enumerate(f.iter_times(b[0])):
                        check_grid(h, b[1][j], b[2] + " inside another iteration")
                    check_grid(g, a[1][i], a[2] + " after an inner iteration")
            env.must("selection-raised", "nested", nested)
            env.hit("nested")
        elif name == "break":
            s = select(op[1])
            if not s or s[1] is None:
                continue
            sel, ks, what = s

            def stopped():
                it = f.iter_times(sel)
                for i, g in enumerate(it):
                    check_grid(g, ks[i], what)
                    if i == op[2] % len(ks):
                        if op[3] == "raise":
                            raise KeyError("stop here")
                        break
                if op[3] == "close":
                    it.close()
            ok, e = env.call("stopped", stopped)
            if not ok and "stop here" not in str(e):
                env.bad("selection-raised", "%s raised %s" % (what, core.exc_str(e)))
            env.hit("interrupted")
        elif name in ("fault", "damage"):
            s = select(op[2] if name == "fault" else op[4])
            if not s or s[1] is None:
                continue
            sel, ks, what = s
            obs = {"snaps": [], "err": None}

            def reading():
                obs["snaps"] = []
                for i, g in enumerate(f.iter_times(sel)):
                    obs["snaps"].append((ks[i], look_grid(g, seeded(4), [0])))
            if name == "fault":
                with core.Faults(env, [op[1]], reading):
                    ok, e = env.call("iterate under a fault", reading)
                if ok and len(obs["snaps"]) != len(ks):
                    env.bad("snapshot-not-reported", "%s gives %d snapshots" % (what, len(obs["snaps"])))
                for k, o in obs["snaps"]:
                    m = match_snap(o, cur["truth"][k], K, False, what + " under a fault")
                    if m:
                        env.bad("unreadable-" + m[0], m[1])
                env.must("unload-failed", "unload", f.unload)
                load(plan["first"], 1)
            else:
                fs = [x for x in disk.files(0) if K.snapshot_of(p, x) is not None]
                if not fs:
                    continue
                rel = fs[op[1] % len(fs)]
                how = "empty" if K.name == "vpic" and op[2] in ("delete", "dir") else op[2]
                env.must("unload-failed", "unload", f.unload)
                if disk.damage_file(0, rel, how, op[3]) is None:
                    load(plan["first"], 1)
                    continue
                env.fault("snapshot " + how)
                env.hit("snapshot_unreadable")
                kbad = [by_time(everything).index(everything[K.snapshot_of(p, rel)])]
                t, snaps = naming("list", 0)
                del log.lines[:]

                def load_damaged():
                    with Listing(env, 5):
                        g = viscid.load_file(t, **kw)
                    if g is None:
                        raise IOError("not loaded")
                    return g
                ok, g = env.call("load damaged", load_damaged)
                if not ok:
                    env.hit("reported")
                else:
                    cur.update(f=g, truth=by_time(everything), active=None)
                    f = g
                    n = env.must("selection-raised", "nr_times", g.nr_times)
                    if n != len(everything) and how == "delete" and (p.get("index") or any(
                            os.path.basename(rel) in x for x in log.lines)):
                        env.hit("reported")
                        left = [x for x in everything if x is not everything[K.snapshot_of(p, rel)]]
                        m = match(observe(g, seeded(4), [0]), by_time(left), K, True, "%s without %s" % (K.name, rel))
                        if m:
                            env.bad("unreadable-" + m[0], m[1])
                        n = 0
                    elif n != len(everything):
                        env.bad("snapshot-not-reported", "%s with an unreadable snapshot loads with %d of %d snapshots" % (
                            K.name, n, len(everything)))
                    ks = list(range(n))
                    sel = slice(None)
                    for k in ks:
                        ok, q = env.call("get_grid", g.get_grid, time=k)
                        if not ok:
                            if k not in kbad and K.snapshot_of(p, rel):
                                env.bad("other-snapshot-unreadable", "%s snapshot %d raised %s though %s is damaged" % (
                                    K.name, k, core.exc_str(q), rel))
                            env.hit("reported")
                            continue
                        m = match_snap(look_grid(q, seeded(4), [0]), cur["truth"][k], K, False,
                                       "%s snapshot %d of a series where %s is damaged" % (K.name, k, rel))
                        if m:
                            env.bad("unreadable-" + m[0], m[1])
                    env.call("unload", g.unload)
                disk.heal(0)
                env.call("unload all", viscid.unload_all_files)
                load(plan["first"], 1)
        # whatever happened: what was activated stays active
        if cur["active"] is not None and name in ("activate", "times", "grid", "field", "nested", "break", "iter"):
            t = cur["truth"][cur["active"]]
            g = env.must("selection-raised", "active grid", cur["f"].get_grid)
            check_grid(g, cur["active"], "%s active snapshot %d after %s" % (K.name, cur["active"], name))
