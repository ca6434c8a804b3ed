"""Simulated sessions: worlds on a simulated disk, the library used on them, and what it shows against the truth."""
import os
import random

import numpy as np

from sim import core, formats, simio
from sim.formats import KINDS, diff_text, grid_patches, same_axis, same_data


def import_viscid():
    import viscid
    import viscid.readers
    viscid.logger.setLevel(100)
    # modules the library imports on demand: loaded before the forks
    import viscid.calculator.evaluator  # noqa: F401
    return viscid


class Exc(object):
    """marker: this access raised"""

    def __init__(self, e):
        self.s = core.exc_str(e)

    def __repr__(self):
        return "<%s>" % self.s


class Disk(object):
    """the worlds of one run, their versions on disk, and the damage done to them"""

    def __init__(self, env, worlds, sub=None):
        self.env = env
        self.params = worlds
        self.ver = [0] * len(worlds)
        self.dirs = []
        self.damaged = [set() for _ in worlds]
        for w in range(len(worlds)):
            d = env.path("data", sub[w] if sub else "w%d" % w)
            if not os.path.isdir(d):
                os.makedirs(d)
            self.dirs.append(os.path.realpath(d))

    def kind(self, w):
        return KINDS[self.params[w]["kind"]]

    def truth(self, w, v=None):
        return self.kind(w).truth(self.params[w], self.ver[w] if v is None else v)

    def files(self, w):
        return sorted(self.kind(w).files(self.params[w], self.ver[w]))

    def put(self, w, v):
        self.kind(w).write(self.dirs[w], self.params[w], v)
        self.ver[w] = v
        self.damaged[w] = set()

    def heal(self, w):
        self.put(w, self.ver[w])

    def target(self, w, how="list"):
        return self.kind(w).target(self.params[w], self.dirs[w], how)

    def kwargs(self, w):
        return dict(self.kind(w).kwargs(self.params[w]))

    def damage(self, w, k, how, frac, skip=()):
        """damage the k-th file of world w; returns its relative name or None"""
        fs = [x for x in self.files(w) if not x.endswith(tuple(skip))]
        rel = fs[k % len(fs)]
        return self.damage_file(w, rel, how, frac)

    def damage_file(self, w, rel, how, frac):
        path = os.path.join(self.dirs[w], rel)
        blob = self.kind(w).files(self.params[w], self.ver[w])[rel]
        if isinstance(blob, str):
            blob = blob.encode()
        if how == "delete":
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.unlink(path)
        elif how == "empty":
            formats.write_bytes(path, b"")
        elif how == "trunc":
            n = trunc_point(self.kind(w), rel, blob, frac)
            if n >= len(blob):
                return None
            formats.write_bytes(path, blob[:n])
        elif how == "truncinplace":
            n = trunc_point(self.kind(w), rel, blob, frac)
            if n >= len(blob) or not os.path.isfile(path) or os.path.getsize(path) < n:
                return None
            os.truncate(path, n)
        elif how == "dir":
            if os.path.exists(path) and not os.path.isdir(path):
                os.unlink(path)
                os.mkdir(path)
        self.damaged[w].add(rel)
        return rel


def trunc_point(K, rel, blob, frac):
    """where a file is cut: any byte, except that free-form text which records no sizes is cut at a line end"""
    n = int(frac * len(blob))
    base = os.path.basename(rel)
    if base.endswith((".grid2", ".nda", ".tab", ".log", ".vpc")):
        i = blob.rfind(b"\n", 0, n)
        n = i + 1
    elif base.endswith(".hst"):         # fewer lines are a shorter history
        n = 0 if frac < 0.5 else blob.find(b"[1]")
    return n


def load(viscid, disk, w, how="list", **kw):
    k = disk.kwargs(w)
    k.update(kw)
    return viscid.load_file(disk.target(w, how), **k)


# ------------------------------------------------------------------ what a loaded file shows
def read_field(g, name, route=0, rnd=None):
    """(field data, field object) by one of several equivalent routes"""
    if route == 1:
        f = g.get_field(name)
        return np.array(f.data), f
    if route == 2:
        f = g[name]
        _ = f.shape, f.dtype
        return np.array(f.data), f
    if route == 3:
        with g.get_field(name) as f:
            return np.array(f.data), f
    if route == 4:
        f = g[name][...]
        return np.array(f.data), f
    if route == 5:
        f = g[name]
        d1 = np.array(f.data)
        f.clear_cache()
        d2 = np.array(f.data)
        if (d1.shape, d1.dtype, d1.tobytes()) != (d2.shape, d2.dtype, d2.tobytes()):    # == hides failing allocations
            raise core.Violation("reread-differs", "%s read again after clear_cache differs" % name)
        return d2, f
    f = g[name]
    return np.array(f.data), f


def look_patch(q, rnd, routes, names=None):
    out = {"crds": None, "fields": {}, "note": None}
    try:
        out["note"] = q.find_info("note", None)
        out["crds"] = [(n, np.array(q.get_crd_nc(n))) for n in q.crds.axes]
    except core.Violation:
        raise
    except Exception as e:
        out["crds"] = Exc(e)
    try:
        fn = list(q.field_names)
        if len(fn) != len(set(fn)):
            raise core.Violation("field-listed-twice", "field names %s" % fn)
        fn = sorted(set(fn))
    except core.Violation:
        raise
    except Exception as e:
        out["fields"] = Exc(e)
        return out
    if rnd is not None:
        rnd.shuffle(fn)
    for n in fn:
        try:
            data, f = read_field(q, n, rnd.choice(routes) if routes and rnd else 0)
            out["fields"][n] = {"data": data, "center": str(f.center).lower(),
                                "crds": [(a, np.array(f.get_crd_nc(a))) for a in f.crds.axes], "time": f.time,
                                "note": f.find_info("unit", None)}
        except core.Violation:
            raise
        except Exception as e:
            out["fields"][n] = Exc(e)
    return out


def look_grid(g, rnd=None, routes=None):
    s = {"time": None, "patches": []}
    try:
        s["time"] = g.time
    except Exception as e:
        s["time"] = Exc(e)
    try:
        ps = grid_patches(g)
    except Exception as e:
        s["patches"] = Exc(e)
        return s
    for q in ps:
        s["patches"].append(look_patch(q, rnd, routes))
    return s


def observe(f, rnd=None, routes=None):
    obs = {"snaps": [], "err": None}
    try:
        for g in f.iter_times():
            obs["snaps"].append(look_grid(g, rnd, routes))
            if len(obs["snaps"]) > 50:
                raise core.Violation("endless-iteration", "iter_times does not end")
    except core.Violation:
        raise
    except Exception as e:
        obs["err"] = Exc(e)
    return obs


# ------------------------------------------------------------------ judging it
def match_time(a, b):
    if b is None:
        return True
    if a is None:
        return False
    try:
        return abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))
    except (TypeError, ValueError):
        return False


def match_patch(o, t, K, strict, where, skip_time=None):
    """None or (cls, message); with strict=False exceptions and missing fields are accepted"""
    if isinstance(o["crds"], Exc):
        if strict:
            return "raised", "%s coordinates raised %r" % (where, o["crds"])
    else:
        if [n for n, _ in o["crds"]] != [n for n, _ in t["crds"]]:
            return "wrong-coordinates", "%s axes %s instead of %s" % (where, [n for n, _ in o["crds"]],
                                                                      [n for n, _ in t["crds"]])
        for (n, a), (_, b) in zip(o["crds"], t["crds"]):
            if not same_axis(a, b):
                return "wrong-coordinates", "%s axis %s is %s instead of %s" % (where, n, a, b)
    if isinstance(o["fields"], Exc):
        if strict:
            return "raised", "%s field list raised %r" % (where, o["fields"])
        return None
    for n in sorted(o["fields"]):
        x = o["fields"][n]
        if n not in t["fields"]:
            if isinstance(x, Exc) and not strict:
                continue
            return "unknown-field", "%s field %s is not in the file" % (where, n)
        y = t["fields"][n]
        if isinstance(x, Exc):
            if strict:
                return "raised", "%s field %s raised %r" % (where, n, x)
            continue
        if not same_data(x["data"], y["data"], K.lossy):
            return "wrong-data", "%s field %s: %s" % (where, n, diff_text(x["data"], y["data"]))
        if x["center"] != y["center"]:
            return "wrong-centring", "%s field %s is %s centred instead of %s" % (where, n, x["center"], y["center"])
        for (a, c), (b, d) in zip(x["crds"], t["crds"]):
            if a != b or not same_axis(c, d):
                return "wrong-coordinates", "%s field %s axis %s: %s instead of %s" % (where, n, a, c, d)
        if strict and "note" in y and x["note"] != y["note"]:
            return "wrong-metadata", "%s field %s: the note says %r instead of %r" % (where, n, x["note"], y["note"])
    if strict and "note" in t and o["note"] != t["note"]:
        return "wrong-metadata", "%s: the note says %r instead of %r" % (where, o["note"], t["note"])
    if strict:
        miss = sorted(set(t["fields"]) - set(o["fields"]))
        if miss:
            return "field-missing", "%s fields %s are missing" % (where, miss)
    return None


def match_snap(o, t, K, strict, where):
    if isinstance(o["time"], Exc):
        if strict:
            return "raised", "%s time raised %r" % (where, o["time"])
    elif not match_time(o["time"], t["time"]):
        return "wrong-time", "%s time is %r instead of %r" % (where, o["time"], t["time"])
    if isinstance(o["patches"], Exc):
        if strict:
            return "raised", "%s patches raised %r" % (where, o["patches"])
        return None
    if len(o["patches"]) != len(t["patches"]):
        return "wrong-patches", "%s has %d patches instead of %d" % (where, len(o["patches"]), len(t["patches"]))
    for k, (a, b) in enumerate(zip(o["patches"], t["patches"])):
        m = match_patch(a, b, K, strict, where + (" patch %d" % k if len(t["patches"]) > 1 else ""))
        if m:
            return m
    return None


def match(obs, truth, K, strict=True, what="file"):
    """None, or (class, message) when what was seen contradicts the truth"""
    if obs["err"] is not None and strict:
        return "raised", "%s: iterating raised %r" % (what, obs["err"])
    if strict:
        if len(obs["snaps"]) != len(truth):
            return "wrong-number-of-snapshots", "%s shows %d snapshots instead of %d (times %s)" % (
                what, len(obs["snaps"]), len(truth), [s["time"] for s in obs["snaps"]])
        for i, (o, t) in enumerate(zip(obs["snaps"], truth)):
            m = match_snap(o, t, K, True, "%s snapshot %d" % (what, i))
            if m:
                return m
        return None
    used = set()
    last = -1
    for i, o in enumerate(obs["snaps"]):
        where = "%s snapshot %d" % (what, i)
        if isinstance(o["time"], Exc):
            continue
        cand = [k for k, t in enumerate(truth) if match_time(o["time"], t["time"])]
        if not cand:
            return "wrong-time", "%s has time %r, which is in no snapshot (%s)" % (where, o["time"],
                                                                                  [t["time"] for t in truth])
        k = cand[0]
        if k in used:
            return "snapshot-twice", "%s: time %r shown twice" % (where, o["time"])
        if k < last:
            return "snapshots-unsorted", "%s: times %s" % (where, [s["time"] for s in obs["snaps"]])
        used.add(k)
        last = k
        m = match_snap(o, truth[k], K, False, where)
        if m:
            return m
    return None


def raised_any(obs):
    if obs["err"] is not None:
        return True
    for s in obs["snaps"]:
        if isinstance(s["time"], Exc) or isinstance(s["patches"], Exc):
            return True
        for p in s["patches"]:
            if isinstance(p["crds"], Exc) or isinstance(p["fields"], Exc):
                return True
            if any(isinstance(x, Exc) for x in p["fields"].values()):
                return True
    return False


def nread(obs):
    n = 0
    for s in obs["snaps"]:
        if isinstance(s["patches"], Exc):
            continue
        for p in s["patches"]:
            if not isinstance(p["fields"], Exc):
                n += sum(not isinstance(x, Exc) for x in p["fields"].values())
    return n


# ------------------------------------------------------------------ faults
READ_FAULTS = [
    {"cls": "open", "act": "err", "err": "EIO"}, {"cls": "open", "act": "err", "err": "EACCES"},
    {"cls": "open", "act": "err", "err": "EMFILE"}, {"cls": "open", "act": "err", "err": "ENOENT"},
    {"cls": "read", "act": "err", "err": "EIO"}, {"cls": "read", "act": "err", "err": "EIO"},
    {"cls": "read", "act": "err", "err": "EINTR"}, {"cls": "read", "act": "short"}, {"cls": "read", "act": "short"},
    {"cls": "alloc", "act": "err", "err": "ENOMEM"},
]


def gen_fault(rng, kinds=READ_FAULTS, sticky=0.2):
    f = dict(rng.choice(kinds))
    f["pos"] = round(rng.random(), 4)
    if f["act"] == "short":
        f["frac"] = round(rng.choice([0.0, 0.3, 0.5, 0.9]), 2)
    if rng.random() < sticky and f["err" if "err" in f else "act"] != "EINTR":
        f["sticky"] = True
    return f


# where a KeyboardInterrupt reaches the reader: while it waits for data (an interrupted open of a Fortran file leaves its unit
# open, and what this simulator forks from the process would then move its file position)
INTERRUPTIBLE = ["read"]


def gen_interrupt(rng, fl, p=0.1):
    """fl, or with probability p the user pressing ctrl-c during a system call instead"""
    if rng.random() < p:
        return [{"cls": rng.choice(INTERRUPTIBLE), "act": "sigint", "pos": round(rng.random(), 4)}]
    return fl


def seeded(*what):
    return random.Random(repr(what))


# ------------------------------------------------------------------ selections of a run's snapshots
def nsnap(disk, w):
    """snapshots that lie in files of their own; 0: the world is one file"""
    t = disk.target(w, "parts")
    return len(t) if isinstance(t, list) else 0


def sel_target(disk, w, sel):
    """what is given to load_file for the snapshots sel of world w (None: all)"""
    if sel is None:
        return disk.target(w, "list")
    t = disk.target(w, "parts")
    names = [t[i] for i in sel]
    return names if len(names) > 1 else names[0]


def sel_truth(disk, w, sel, v=None):
    t = disk.truth(w, v)
    return t if sel is None else [t[i] for i in sel]


def gen_sel(rng, params):
    """a selection of a multi-file world, or None"""
    K = KINDS[params["kind"]]
    t = K.target(params, "/x", "parts")
    if not isinstance(t, list) or rng.random() < 0.35:
        return None
    n = len(t)
    return sorted(rng.sample(range(n), rng.randint(1, n)))
