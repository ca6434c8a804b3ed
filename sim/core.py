"""Core of the deterministic simulator: seeds, run environment, violations, fault bookkeeping.

One run = one plan (plain JSON made by a generator from one seeded PRNG) executed by a pure function of the plan and of
the code under test, in a forked process with a scratch directory of its own.
"""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import sys
import traceback

import numpy as np

from sim import simio


# wall clock times and addresses in messages of other libraries
VOLATILE = re.compile(r"(?<=time = )\w{3} \w{3} +\d+ [\d:]+ \d{4}|0x[0-9a-f]{5,}|(?<=\.)\d+(?=\.tmp)")


class Violation(Exception):
    """A property is broken; `cls` is the stable class used for minimising and for known findings."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


def rng_for(seed, prop, index):
    h = hashlib.sha256(("%s/%s/%s" % (seed, prop, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def exc_str(e):
    return "%s: %s" % (type(e).__name__, short(e, 200))


def digest(*arrs):
    h = hashlib.sha256()
    for a in arrs:
        if isinstance(a, np.ndarray):
            h.update(str(a.dtype.newbyteorder("=")).encode() + str(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()[:16]


class Env(object):
    """What a run may touch: a scratch directory, the event log, probes and fault counters."""

    def __init__(self, root):
        self.root = root
        self.events = []
        self.probes = {}
        self.faults = {}
        self.sigs = set()
        self.steps = 0
        self.simtime = 0.0

    # -- history
    def ev(self, *what):
        s = " ".join(str(w) for w in what).replace(self.root, "$ROOT")
        s = VOLATILE.sub("?", s)
        self.events.append(s)

    def step(self, *what):
        self.steps += 1
        self.ev("#%d" % self.steps, *what)

    def hit(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind, n=1):
        """count a fault that really happened"""
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def sig(self, *what):
        """a state / interleaving signature reached by this run"""
        self.sigs.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def bad(self, cls, msg):
        self.ev("VIOLATION", cls, msg)
        raise Violation(cls, short(msg, 1500).replace(self.root, "$ROOT"))

    def path(self, *p):
        return os.path.join(self.root, *p)

    # -- calling the code under test
    def call(self, label, fn, *a, **k):
        """returns (True, value) or (False, exception); never lets an Exception through"""
        try:
            v = fn(*a, **k)
        except Violation:
            raise
        except MemoryError as e:
            self.ev(label, "-> raised MemoryError")
            return False, e
        except (Exception, KeyboardInterrupt) as e:
            self.ev(label, "-> raised", type(e).__name__)
            return False, e
        self.ev(label, "-> ok")
        return True, v

    def must(self, cls, label, fn, *a, **k):
        """the call has to succeed: an exception is a violation of class `cls`"""
        ok, v = self.call(label, fn, *a, **k)
        if not ok:
            self.bad(cls, "%s raised %s" % (label, exc_str(v)))
        return v

    def event_hash(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ storage faults inside one call
class Faults(object):
    """Arms storage rules around one call of the code under test.

    A fault is {"cls","act","err","frac","pos","sticky","sub"}; `pos` in [0,1) is the place of the failing call among the
    calls of its class that the same operation makes when nothing fails, which a dry run in a forked copy of the session
    counts first.
    """

    def __init__(self, env, specs, dry, undo=None):
        self.undo = undo        # puts the disk back to what it was before the dry run
        self.env = env
        self.specs = specs or []
        self.dry = dry
        self.ids = []
        self.fired = 0

    def __enter__(self):
        simio.reset()
        if not self.specs:
            return self
        alloc = any(s["cls"] == "alloc" for s in self.specs)
        counts = dry_counts(self.dry, alloc) if self.dry is not None else {}
        if self.undo is not None:
            self.undo()
        simio.reset()
        if alloc:
            simio.alloc_seam(True, 64)
        if any(s["act"] == "sigint" for s in self.specs):
            signal.signal(signal.SIGINT, interrupted)
        for s in self.specs:
            n = counts.get(s["cls"], 0) if self.dry is not None else 1000
            nth = int(s["pos"] * n) if n else 0
            if "nth" in s:
                nth = s["nth"]
            self.ids.append((simio.rule(s["cls"], nth, s["act"], s.get("err", 0) or 0, s.get("frac", 0.5),
                                        s.get("sticky", False), s.get("sub", "")), s))
        return self

    def __exit__(self, *a):
        for i, s in self.ids:
            f = simio.fired(i)
            if f > 0:
                self.fired += 1
                self.env.fault("%s:%s%s" % (s["cls"], s["act"], ":" + str(s["err"]) if s.get("err") else ""))
            self.env.ev("fault", s["cls"], s["act"], "fired" if f > 0 else "idle")
        simio.disarm()
        if any(s["act"] == "sigint" for s in self.specs):
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        return False


SIM_DIRS = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")]


def interrupted(signum, frame):
    """the user interrupts what the code under test does; the simulator itself is never interrupted"""
    if os.path.dirname(os.path.abspath(frame.f_code.co_filename)) not in SIM_DIRS:
        raise KeyboardInterrupt


def dry_counts(fn, alloc=False):
    """counts of every call class made by fn() when nothing fails, measured in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            simio.reset()
            if alloc:
                simio.alloc_seam(True, 64)
            simio.zero_counts()
            try:
                fn()
            except BaseException:
                pass
            out = {k: simio.count(v) for k, v in simio.CLS.items()}
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return {}


def in_child(fn, timeout_cpu=30):
    """run fn() in a forked copy of this process; returns (kind, value): ('ok', json) | ('exc', str) | ('died', status)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                v = ("ok", fn())
            except Violation as e:
                v = ("violation", [e.cls, e.msg])
            except BaseException as e:
                v = ("exc", exc_str(e) + "\n" + traceback.format_exc()[-1500:])
            data = json.dumps(v).encode()
            simio.set_root(None)
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        try:
            return tuple(json.loads(data.decode()))
        except ValueError:
            pass
    return ("died", os.waitstatus_to_exitcode(st))


# ------------------------------------------------------------------ shadow of a directory tree
def snapshot_tree(root):
    """{relative path: (kind, size, digest)} of everything below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in sorted(dirs):
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = ("d", 0, "")
        for n in sorted(files):
            p = os.path.join(d, n)
            try:
                with open(p, "rb") as f:
                    b = f.read()
                out[os.path.relpath(p, root)] = ("f", len(b), hashlib.sha256(b).hexdigest()[:16])
            except OSError as e:
                out[os.path.relpath(p, root)] = ("?", 0, str(e.errno))
    return out


def wipe(path):
    assert path.startswith("/") and "vsim" in path and ".." not in path
    shutil.rmtree(path, ignore_errors=True)
