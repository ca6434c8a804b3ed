"""C10: reading never creates, changes or deletes files."""
import hashlib
import os
import stat

from sim import core, mix, saves, session, simio

ID = "C10"
RUNS = {"quick": 3600, "thorough": 90000}
RULE = ("a run counts when its history of operations and results differs from every other run's; after every operation the whole "
        "directory tree is compared with what the simulator left there")
REAL = ["viscid readers of all formats, savers, bucket, dataset, grid, field", "compiled Fortran reader", "h5py/HDF5, numpy, "
        "libgfortran, libc stdio above the system call layer"]
STUB = ["the simulator writes, damages and write-protects the files; system calls on files below the run's directory pass a layer "
        "that injects faults and counts those that change something"]
STATE_MEASURE = "operation x formats x damage on disk x outcome under fault x as root or as an unprivileged user"
PROBES = ["compared", "failed_ops", "saves", "saves_failed", "unprivileged", "damaged"]


def prepare():
    session.import_viscid()


def generate(rng, tier):
    return mix.gen_plan(rng, tier)


def tree(root):
    """names, kinds, contents, modes, times of modification and inodes of everything below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            h = ""
            if stat.S_ISREG(st.st_mode):
                try:
                    with open(p, "rb") as f:
                        h = hashlib.sha256(f.read()).hexdigest()
                except OSError:
                    h = "unreadable"
            elif stat.S_ISLNK(st.st_mode):
                h = os.readlink(p)
            out[os.path.relpath(p, root)] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), st.st_size, h, st.st_mtime_ns,
                                             st.st_ino, st.st_nlink if stat.S_ISREG(st.st_mode) else 0)
    return out


FIELDS = ["kind", "permissions", "size", "contents", "time of modification", "inode", "links"]


def difference(a, b, ok=lambda rel: False):
    for rel in sorted(set(a) | set(b)):
        if ok(rel):
            continue
        if rel not in a:
            return "created", "%s was created" % rel
        if rel not in b:
            return "deleted", "%s is gone" % rel
        for k, (x, y) in enumerate(zip(a[rel], b[rel])):
            if x != y:
                return "changed", "%s has another %s" % (rel, FIELDS[k])
    return None


def execute(plan, env):
    import viscid
    import viscid.readers
    viscid.grid.Grid.longterm_field_caches = bool(plan.get("longterm"))
    simio.set_root(env.root)
    m = mix.Mix(env, plan, viscid)
    if plan.get("nobody") and os.geteuid() == 0:
        for d, dirs, files in os.walk(env.root):
            for n in dirs + files:
                os.chown(os.path.join(d, n), 65534, 65534)
        os.chown(env.root, 65534, 65534)
        os.setegid(65534)
        os.seteuid(65534)
        env.hit("unprivileged")
    state = {}

    def remember():
        state["tree"] = tree(env.root)
        simio.zero_mutations()
    m.after_disk = remember
    remember()
    for op in plan["ops"]:
        env.step(*op[:4])
        w = op[1] if op[0] not in ("save", "calc", "nothing", "unload_all") else None
        if w is not None and w >= m.nw:
            continue
        if op[0] in mix.CHANGES:
            if os.geteuid() != 0:
                os.seteuid(0)
                m.do(op)
                os.seteuid(65534)
            else:
                m.do(op)
            env.hit("damaged")
            remember()
            continue
        if op[0] == "nothing":
            env.call("unload all", viscid.unload_all_files)
            m.objs.clear()
        m.do(op)
        ok, fired = m.outcome
        if not ok:
            env.hit("failed_ops")
        mut = simio.mutations()
        now = tree(env.root)
        own = ()
        if op[0] == "save":
            env.hit("saves" if ok else "saves_failed")
            spec = plan["saves"][op[1]]
            own = [os.path.relpath(p, env.root) for p in saves.target_files(saves.path_of(m.sdir, spec, "s%d" % op[1]))]
            own.append(os.path.relpath(m.sdir, env.root))       # its time of modification
        def theirs(rel):
            # what could not be removed, since removing was made to fail, is left over
            if rel in own:
                return True
            if op[0] != "save" or not rel.endswith(".tmp") or not any(rel.startswith(o + ".") for o in own):
                return False
            return (fired and op[3][0]["cls"] == "meta") if rel in now else True
        d = difference(state["tree"], now, theirs)
        if d:
            env.bad("%s-by-%s" % (d[0], "saving" if op[0] == "save" else "reading"), "%s: %s" % (op[0], d[1]))
        if op[0] != "save" and mut:
            env.bad("written-by-reading", "%s made %d calls that change files" % (op[0], mut))
        env.hit("compared")
        env.sig(op[0], sorted(p["kind"] for p in plan["worlds"]) if w is None else plan["worlds"][w]["kind"],
                bool(w is not None and m.disk.damaged[w]), ok, fired, bool(plan.get("nobody")))
        if op[0] == "save":
            remember()
