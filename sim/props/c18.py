"""C18: damaged companion files degrade only what depends on them."""
import copy
import os

import numpy as np

from sim import core, formats, session, simio
from sim.formats import KINDS
from sim.session import Disk, Exc, gen_fault, match, match_time, observe, raised_any, seeded

ID = "C18"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of operations and results differs from every other run's and at least one file was read while "
        "one of its companions was damaged")
REAL = ["viscid readers of the formats with companions (OpenGGCM xdmf, fortran and ionosphere files with log files, xdmf indices with "
        "data files per snapshot, patch or field, Athena and Gkeyll collections, VPIC), bucket, dataset, grid, field",
        "compiled Fortran reader", "h5py/HDF5, numpy, libgfortran, libc stdio above the system call layer"]
STUB = ["the simulator writes, damages and heals the files; system calls on files below the run's directory pass a layer that injects "
        "faults"]
STATE_MEASURE = "format x companion x kind of damage x before or after loading x what was still read"
# what tells how the axes of a run lie
BOX = ["l", "h", "type", "ic"]
PROBES = ["loads", "load_raised", "log_damaged", "data_damaged", "exact_parts", "absent_parts", "healed", "log_info", "late_damage",
          "transient", "log_mangled"]
WITH_LOG = ["ggcm", "iof", "fortbin", "jrrle"]
KINDS_HERE = ["ggcm", "ggcm", "iof", "fortbin", "jrrle", "xdmft", "xdmfs", "xdmfs", "amr", "athx", "athb", "atht", "gkeyll", "vpic", "xdmf",
              "psc"]
# data that an index (xdmf, vpc) refers to: the index can be read without it
INDEXED = ["ggcm", "iof", "xdmft", "xdmfs", "amr", "athx", "vpic", "xdmf", "psc"]
DIPOLES = ["1967:01:01:00:00:00.000", "1998:07:21:12:30:00.000"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    nw = rng.choice([1, 1, 2])
    worlds = [formats.gen_world(rng, w, KINDS_HERE) for w in range(nw)]
    for p in worlds:
        if p["kind"] in WITH_LOG and p["log"] == "none" and rng.random() < 0.7:
            p["log"] = rng.choice(["mhd", "gse"] if p["kind"] in ("ggcm", "iof") else ["mhd"])
    ops = []
    for _ in range(rng.randint(3, 10 if tier == "quick" else 20)):
        w = rng.randrange(nw)
        r = rng.random()
        if r < 0.35:
            ops.append(["damage", w, rng.choice(["log", "log", "data"] if worlds[w].get("log", "none") != "none" else ["data"]), rng.randint(0, 60),
                        rng.choice(["delete", "empty", "trunc", "trunc", "dir", "perm", "garbage", "otherrun"] + ["mangle", "mangle"]), round(rng.random(), 4)])
        elif r < 0.65:
            ops.append(["fresh", w, rng.randint(0, 999)])
        elif r < 0.75:
            ops.append(["look", w, rng.randint(0, 999)])
        elif r < 0.85:
            ops.append(["transient", w, rng.choice([".log", ""]), [gen_fault(rng, sticky=0.4)], rng.randint(0, 999)])
        else:
            ops.append(["heal", w, rng.choice(["method", "handle", "force", "unload"]), rng.randint(0, 999)])
    ops.append(["heal", rng.randrange(nw), rng.choice(["method", "handle", "force", "unload"]), rng.randint(0, 999)])
    return {"worlds": worlds, "ops": ops, "longterm": rng.random() < 0.2}


class Run(object):
    def __init__(self, env, plan, viscid):
        self.env, self.plan, self.viscid = env, plan, viscid
        self.disk = Disk(env, plan["worlds"])
        self.objs = {}
        self.hurt = {}          # world -> {relative path: how}
        self.log_text = {}      # world -> what is left of the log, or None: cannot be read at all
        self.mangled = {}       # world -> what the mangled line of its log said
        self.ref = {}           # world -> other things that depend on the log

    def load(self, w, **kw):
        kw.update(self.disk.kwargs(w))
        f = self.viscid.load_file(self.disk.target(w), **kw)
        if f is None:
            raise IOError("load_file gave None")
        return f

    def log_of(self, w):
        fs = [x for x in self.disk.files(w) if x.endswith(".log")]
        return fs[0] if fs else None

    def blob(self, w, rel):
        b = self.disk.kind(w).files(self.plan["worlds"][w], self.disk.ver[w])[rel]
        return b.encode() if isinstance(b, str) else b


def flips(p, text):
    """what a log of which this much can be read says; lines that are not complete say nothing"""
    if p["assume"]:
        return True
    if text is None:
        return False
    lines = text[: text.rfind("\n") + 1].split("\n")
    secs, cur = {}, None
    for x in lines:
        if x.startswith("====") and "class ==" in x:
            cur = secs.setdefault(x.split("class ==")[1].strip(), {})
        elif cur is not None and "-- type --" in x:
            cur["type"] = x.split("-- type --")[1].strip()
        elif cur is not None and "|" in x:
            k, v = x.split("|")
            cur[k.strip()] = v.strip()
    crds = secs.get("mrc_crds", {})
    if "l" not in crds or "h" not in crds or "type" not in secs.get("ggcm_mhd", {}):
        return False
    return p["log"] == "mhd"


# what a value looks like after ranks wrote over each other
MANGLED = ["abc", "", "7", "-1", "66", "1, 2", "1.5", "-3.5, x, 2", "x:y", "a | b", "-", "1.2.3", "0", "nan", "5:6:7", "-1e400"]
MANGLE_KEYS = {"dipoltime": "dipoletime", "l": "l", "h": "h", "bbnorm": "bbnorm", "currcor": "currcor", "mhd_type": "mhd_type"}


def mangle(p, text, n, frac):
    """the log with one mangled line, and the name of what it said"""
    lines = text.split("\n")
    secs, cur = [], None
    for i, x in enumerate(lines):
        if x.startswith("===="):
            cur = x.split("class ==")[1].strip()
        k = x.split("|")[0].strip()
        if "|" in x and k in MANGLE_KEYS and cur != "ggcm_diag":
            secs.append((i, MANGLE_KEYS[k]))
        elif "-- type --" in x and cur in ("mrc_crds", "ggcm_mhd", "ggcm_mhd_ic"):
            secs.append((i, {"mrc_crds": "crds_type", "ggcm_mhd": "type", "ggcm_mhd_ic": "ic"}[cur]))
        if x.lstrip().startswith("cp="):
            break
    i, name = secs[int(frac * len(secs))]
    x = lines[i]
    how = n % 4
    if "-- type --" in x:
        new = [[], [x[: x.index("type")]], [x.split("type --")[0] + "type -- 12"], [x[:40], x[40:]]][how]
    elif how == 0:
        new = []
    elif how == 1:
        new = [x[: x.index("|") + 2 + (n // 4) % 3], "rank 3 says hello"]
    else:
        new = [x[: x.index("|") + 2] + MANGLED[(n // 4) % len(MANGLED)]]
    return "\n".join(lines[:i] + new + lines[i + 1:]), name


def expected(r, w, flip=None):
    """truth for what the log that is on disk says; flip overrides"""
    p = r.plan["worlds"][w]
    K = KINDS[p["kind"]]
    if p["kind"] not in WITH_LOG or K.unflippable(p):
        return K.truth(p, r.disk.ver[w])
    if flip is None:
        flip = flips(p, r.log_text[w]) if w in r.log_text else K.flips(p)
    q = copy.deepcopy(p)
    q["assume"] = flip
    if not flip and q["log"] == "mhd":
        q["log"] = "gse"
    assert bool(K.flips(q)) == bool(flip)
    return K.truth(q, r.disk.ver[w])


def broken_parts(r, w):
    """(snapshot, names, patch) that may not be readable; and whether the load may raise as a whole"""
    p = r.plan["worlds"][w]
    K = KINDS[p["kind"]]
    parts, may_raise = [], False
    for rel, how in r.hurt.get(w, {}).items():
        if rel.endswith(".log"):
            if how in ("dir", "perm", "garbage"):
                may_raise = True        # it can't be said to have been read
            continue
        if p["kind"] in INDEXED and not rel.endswith((".xdmf", ".vpc")):
            parts.append(K.part_of(p, rel))
            # coordinates, and the base of times of an OpenGGCM run, are read along with the index
            if p.get("crds") == "h5" or p["kind"] in ("ggcm", "iof") and how not in ("delete", "otherrun"):
                may_raise = True
        else:
            parts.append((K.snapshot_of(p, rel), None, None))
            may_raise = True
    return parts, may_raise


def judge(r, w, o, truth, parts, where):
    """what depends on nothing damaged is there and exact, the rest is exact or raises"""
    env = r.env
    p = r.plan["worlds"][w]
    K = KINDS[p["kind"]]
    m = match(o, truth, K, False, where)
    if m:
        env.bad(m[0], m[1])

    def touched(i, name, k):
        for a, ns, b in parts:
            if a in (None, i) and (ns is None or name in ns) and (b is None or b == k):
                return True
        return False

    whole = [i for i in range(len(truth)) if touched(i, None, None) or any(a in (None, i) and ns is None for a, ns, b in parts)]
    if o["err"] is not None and not parts:
        env.bad("raised", "%s: iterating raised %r although nothing it needs is damaged" % (where, o["err"]))
    exact = absent = 0
    for i, t in enumerate(truth):
        s = [x for x in o["snaps"] if not isinstance(x["time"], Exc) and match_time(x["time"], t["time"])]
        if not s:
            # its time is in a file of its own
            if i in whole or any(a in (None, i) for a, _, _ in parts):
                absent += 1
                continue
            if o["err"] is not None and i > 0 and any(a is None or a < i for a, _, _ in parts):
                absent += 1
                continue
            env.bad("snapshot-lost", "%s: the snapshot at time %s is not shown although its files are healthy (%s)" % (
                where, t["time"], o["err"]))
        s = s[0]
        if isinstance(s["patches"], Exc):
            if any(a in (None, i) for a, _, _ in parts):
                absent += 1
                continue
            env.bad("snapshot-lost", "%s: snapshot %d: %r" % (where, i, s["patches"]))
        for k, tp in enumerate(t["patches"]):
            if k >= len(s["patches"]):
                break
            sp = s["patches"][k]
            for n in tp["fields"]:
                bad = touched(i, n, k)
                if isinstance(sp["fields"], Exc):
                    got = sp["fields"]
                else:
                    got = sp["fields"].get(n, "absent")
                ok = isinstance(got, dict)
                if ok:
                    exact += 1
                elif bad or any(a in (None, i) and ns is None for a, ns, _ in parts):
                    absent += 1
                else:
                    env.bad("field-lost", "%s: field %s of snapshot %d (patch %d): %r although the files it is in are healthy" % (
                        where, n, i, k, got))
            if isinstance(sp["crds"], Exc) and not any(a in (None, i) for a, _, _ in parts):
                env.bad("coordinates-lost", "%s: coordinates of snapshot %d: %r" % (where, i, sp["crds"]))
    env.hit("exact_parts", exact)
    env.hit("absent_parts", absent)
    return exact, absent


def about_log(f):
    """other things that depend on the log file only"""
    out = {}
    for name, fn in (("dipoletime", lambda: str(f.dipoletime)[:19].replace(" ", "T")[:13] + ":00:00.000"),
                     ("gamma", lambda: f.find_info("ggcm_mhd_gamma")),
                     ("bbnorm", lambda: f.find_info("ggcm_mhd_bbnorm")), ("currcor", lambda: f.find_info("ggcm_mhd_ic_currcor")),
                     ("type", lambda: f.find_info("ggcm_mhd_type")), ("ic", lambda: f.find_info("ggcm_mhd_ic_type")),
                     ("crds_type", lambda: f.find_info("mrc_crds_type")),
                     ("mhd_type", lambda: f.find_info("ggcm_mhd_fld_mhd_type_str")),
                     ("l", lambda: [float(x) for x in f.find_info("mrc_crds_l")]),
                     ("h", lambda: [float(x) for x in f.find_info("mrc_crds_h")])):
        try:
            out[name] = fn()
        except Exception:
            pass
    if out.get("mhd_type") == "UNKNOWN":
        # the same as nothing
        del out["mhd_type"]
    return out


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    simio.set_root(env.root)
    r = Run(env, plan, viscid)
    disk = r.disk
    for w, p in enumerate(plan["worlds"]):
        disk.put(w, 0)
        f = env.must("raised", "first load", r.load, w)
        m = match(observe(f, seeded(1), [0]), expected(r, w), KINDS[p["kind"]], True, "healthy file")
        if m:
            env.bad("healthy-" + m[0], m[1])
        r.ref[w] = about_log(f)
        if p["kind"] in WITH_LOG and p["log"] != "none":
            t = formats.log_truth(p, 0)
            if r.ref[w] != t:
                env.bad("healthy-log-values", "the log is understood as %r instead of %r" % (r.ref[w], t))
            env.hit("log_values")
        r.objs[w] = f
    for op in plan["ops"]:
        env.step(*op[:6])
        w = op[1]
        if w >= len(plan["worlds"]):
            continue
        p = plan["worlds"][w]
        K = KINDS[p["kind"]]
        where = "%s with %s" % (p["kind"], sorted("%s: %s" % (("log" if k.endswith(".log") else "data"), v)
                                                   for k, v in r.hurt.get(w, {}).items()))
        if op[0] == "damage":
            log = r.log_of(w)
            if op[2] == "log":
                rel = log
            else:
                fs = [x for x in disk.files(w) if not x.endswith((".log", ".vpc", ".grid2"))]
                if p["kind"] in INDEXED:
                    fs = [x for x in fs if not x.endswith(".xdmf")]
                else:
                    # the first file of a collection tells what is in the others
                    fs = [x for x in fs if K.snapshot_of(p, x)]
                rel = fs[op[3] % len(fs)] if fs else None
            if rel is None or rel in r.hurt.get(w, {}):
                continue
            how = op[4]
            path = os.path.join(disk.dirs[w], rel)
            blob = r.blob(w, rel)
            if how == "garbage":
                rnd = seeded("garbage", op[3])
                if rel == log:
                    k = int(op[5] * len(blob))
                    b = blob[:k] + bytes(rnd.randrange(128, 256) for _ in range(40)) + blob[k:]
                elif rel.endswith(".h5"):
                    b = bytes(rnd.randrange(256) for _ in range(rnd.choice([5, 300, 3000])))
                else:
                    continue
                formats.write_bytes(path, b)
            elif how == "mangle":
                if rel != log:
                    continue
                text, r.mangled[w] = mangle(p, blob.decode(), op[3], op[5])
                formats.write_bytes(path, text.encode())
                env.hit("log_mangled")
            elif how == "otherrun":
                # what is there belongs to another run, and is named so
                os.rename(path, os.path.join(os.path.dirname(path), "zzother" + os.path.basename(path)))
            elif how == "perm":
                if os.geteuid() == 0:
                    continue
            elif rel == log and how == "trunc":
                formats.write_bytes(path, blob[: int(op[5] * len(blob))])
            else:
                if disk.damage_file(w, rel, how, op[5]) is None:
                    continue
            env.fault("disk:" + how)
            disk.damaged[w].add(rel)
            r.hurt.setdefault(w, {})[rel] = how
            if rel == log:
                r.log_text[w] = (blob[: int(op[5] * len(blob))].decode() if how == "trunc" else "" if how == "empty" else
                                 blob.decode() if how == "mangle" else None)
                env.hit("log_damaged")
            else:
                env.hit("data_damaged")
        elif op[0] in ("fresh", "look"):
            parts, may_raise = broken_parts(r, w)
            if op[0] == "fresh":
                env.call("unload all", viscid.unload_all_files)
                r.objs.clear()
                ok, f = env.call("load", r.load, w)
                env.hit("loads")
                if not ok:
                    env.hit("load_raised")
                    env.sig(p["kind"], sorted(r.hurt.get(w, {}).values()), "raised")
                    if not may_raise:
                        env.bad("load-raised", "%s: loading raised %s" % (where, core.exc_str(f)))
                    continue
                r.objs[w] = f
                truths = [expected(r, w)]
                if r.mangled.get(w) in BOX:
                    truths = [expected(r, w, x) for x in (False, True)]
                elif may_raise:
                    # an unreadable log: as it says or as without one
                    truths = [expected(r, w, x) for x in ((False, True) if p["kind"] in WITH_LOG and
                                                          r.log_of(w) in r.hurt.get(w, {}) else (None,))]
            else:
                if w not in r.objs:
                    continue
                # loaded before: its log was read then
                f = r.objs[w]
                env.hit("late_damage")
                truths = [expected(r, w, x) for x in (False, True)] if p["kind"] in WITH_LOG else [expected(r, w)]
            o = observe(f, seeded(op[2]), [0, 1, 2])
            if len(truths) > 1:
                truths = [t for t in truths if not match(o, t, K, False, "")] or truths[:1]
            e, a = judge(r, w, o, truths[0], parts, where)
            info = about_log(f)
            if p["kind"] in WITH_LOG and p["log"] != "none":
                for k in sorted(info):
                    if k == r.mangled.get(w):
                        continue
                    if k not in r.ref[w] or r.ref[w][k] != info[k]:
                        env.bad("wrong-log-value", "%s: %s is %r instead of %r or being absent" % (where, k, info[k], r.ref[w].get(k)))
                if op[0] == "fresh" and (r.log_of(w) not in r.hurt.get(w, {}) or w in r.mangled):
                    miss = sorted(set(r.ref[w]) - set(info) - {r.mangled.get(w)})
                    if miss:
                        env.bad("log-value-lost", "%s: %s are absent although the log is healthy" % (where, miss))
                env.hit("log_info", len(info))
            env.sig(p["kind"], op[0], sorted(r.hurt.get(w, {}).values()), e > 0, a > 0)
        elif op[0] == "transient":
            # reading fails once while the file is loaded: right afterwards everything is as on disk
            env.call("unload all", viscid.unload_all_files)
            r.objs.clear()
            spec = [dict(x, sub=op[2]) for x in op[3]]
            fn = lambda: observe(r.load(w), seeded(op[4]), [0, 1])
            with core.Faults(env, spec, fn) as fl:
                ok, o = env.call("load under faults", fn)
            parts, may_raise = broken_parts(r, w)
            if ok and fl.fired:
                env.hit("transient")
                m0 = match(o, expected(r, w), K, False, where)
                if m0 and p["kind"] in WITH_LOG and r.log_of(w) in r.hurt.get(w, {}):
                    m0 = match(o, expected(r, w, True), K, False, where) and match(o, expected(r, w, False), K, False, where)
                if m0:
                    env.bad("transient-" + m0[0], m0[1])
            o = None
            env.call("unload all", viscid.unload_all_files)
        elif op[0] == "heal":
            other = [x for x in os.listdir(disk.dirs[w]) if x.startswith("zzother")]
            for d, _, files in os.walk(disk.dirs[w]):
                for x in files:
                    if x.startswith("zzother"):
                        os.unlink(os.path.join(d, x))
            for rel in r.hurt.get(w, {}):
                path = os.path.join(disk.dirs[w], rel)
                if os.path.isdir(path):
                    os.rmdir(path)
            disk.heal(w)
            # files that were not there when a collection was loaded are no part of it
            fresh = p["kind"] not in INDEXED and any(x in ("delete", "otherrun") for x in r.hurt.get(w, {}).values())
            r.hurt.pop(w, None)
            r.log_text.pop(w, None)
            r.mangled.pop(w, None)

            def again():
                f = r.objs.get(w)
                if f is None or fresh or op[2] == "unload":
                    if f is not None:
                        f.unload()
                    return r.load(w)
                if op[2] == "force":
                    return r.load(w, force_reload=True)
                if op[2] == "handle":
                    viscid.reload_file(f.handle_name)
                else:
                    f.reload()
                return f
            f = env.must("healed-raised", "reload (%s) after healing" % op[2], again)
            r.objs[w] = f
            m = match(observe(f, seeded(op[3]), [0, 1, 2]), expected(r, w), K, True, "healed file")
            if m:
                env.bad("healed-" + m[0], m[1])
            info = about_log(f)
            if info != r.ref[w]:
                env.bad("healed-log-values", "after healing %r instead of %r" % (info, r.ref[w]))
            env.hit("healed")
