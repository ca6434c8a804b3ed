"""Deterministic threads: of all threads that take part only one runs at a time, and the plan says when another goes on.

A switch can come before any line of the library's Python code (a trace function sees them), at every wait, and, in
compiled code, where it takes or gives up the interpreter lock (sim/simio.c, gil seam).  A plan's schedule is a list of
[number of switch points to pass, which of the runnable threads goes on]; when the list is used up, threads run until
they wait or end.
"""
import _thread
import collections
import concurrent.futures
import dis
import os
import sys
import threading
import types

from sim.core import Violation

REAL_LOCK = _thread.allocate_lock
_here = os.path.dirname(os.path.abspath(__file__))
LIB = [os.environ.get("VSIM_REPO", "/repo") + "/viscid/"]


class _T(object):
    def __init__(self, n, name):
        self.n = n
        self.name = name
        self.sem = REAL_LOCK()
        self.sem.acquire()
        self.pred = None
        self.done = False
        self.ident = None


class Sched(object):
    def __init__(self, switches=(), env=None, on_idle=None):
        self.env = env
        self.plan = [list(s) for s in switches]
        self.k = 0
        self.left = self.plan[0][0] if self.plan else -1
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.points = 0
        self.nswitch = 0
        self.trail = []
        self.error = None
        self.on_idle = on_idle
        self.main = self._add("main")
        self.main.ident = _thread.get_ident()
        self.by_ident[self.main.ident] = self.main
        self.cur = self.main
        self.compiled = False
        self.focus = ()         # only points in these files
        self.hot = False        # only points that follow a line which changes something others may see

    def _add(self, name):
        t = _T(len(self.threads), name)
        self.threads.append(t)
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- choosing
    def runnable(self, but=None):
        out = []
        for t in self.threads:
            if t.done or t is but:
                continue
            if t.pred is None or t.pred():
                out.append(t)
        return out

    def _go(self, t, frm):
        if t is frm:
            return
        self.cur = t
        self.nswitch += 1
        if len(self.trail) < 4000:
            self.trail.append(t.n)
        t.sem.release()
        if not frm.done:
            frm.sem.acquire()

    def point(self, frame=None):
        """a place where another thread may go on"""
        me = self.me()
        if me is None or me is not self.cur:
            return
        self.points += 1
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        if foreign_lock_held() or (frame is not None and not safe_stack(frame)):
            return
        which = self.plan[self.k][1]
        self.k += 1
        self.left = self.plan[self.k][0] if self.k < len(self.plan) else -1
        rs = self.runnable()
        if rs:
            self._go(rs[which % len(rs)], me)

    def wait(self, pred, what="wait"):
        me = self.me()
        if me is None:
            raise RuntimeError("a thread outside of the simulation waits")
        while not pred():
            me.pred = pred
            rs = self.runnable(but=me)
            if not rs:
                me.pred = None
                if self.on_idle is not None and self.on_idle():
                    continue
                v = Violation("deadlock", "every thread waits: %s waits for %s" % (me.name, what))
                self.error = self.error or v
                raise v
            if self.plan and self.k < len(self.plan):
                which = self.plan[self.k][1]
            else:
                which = 0
            self._go(rs[which % len(rs)], me)
            me.pred = None

    def spawn(self, fn, name="thread"):
        t = self._add(name)

        def run():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.sem.acquire()
            sys.settrace(self.trace)
            try:
                fn()
            except Violation as e:
                self.error = self.error or e
            except BaseException as e:      # pylint: disable=broad-except
                self.error = self.error or Violation("thread-died", "%s ended with %s: %s" % (t.name, type(e).__name__, e))
            finally:
                sys.settrace(None)
                t.done = True
                self.by_ident.pop(t.ident, None)
                rs = self.runnable()
                if rs:
                    self._go(rs[0], t)
                else:
                    self.error = self.error or Violation("deadlock", "every thread waits after %s ended" % t.name)
                    self.main.pred = None
                    self._go(self.main, t)
        _thread.start_new_thread(run, ())
        return t

    # -- tracing
    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for p in LIB:
            if fn.startswith(p):
                if self.focus and not fn.startswith(self.focus, len(p)):
                    return None
                if self.hot:
                    return Hot(self, frame).step
                return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self.local

    def finish(self):
        if self.error is not None:
            raise self.error


_hot = {}
CHANGES = {"STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR"}


def hot_lines(frame):
    """lines of a function that store to attributes, items or globals, or use a global object"""
    code = frame.f_code
    if code not in _hot:
        lines, line, last = set(), None, None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if i.opname in CHANGES:
                # an object that is being made is nobody else's yet
                if not (code.co_name == "__init__" and last is not None and last.opname == "LOAD_FAST" and last.argval == "self"):
                    lines.add(line)
            elif i.opname == "LOAD_GLOBAL":
                v = frame.f_globals.get(i.argval)
                if v is not None and not callable(v) and not isinstance(v, (types.ModuleType, str, int, float, tuple, frozenset)):
                    lines.add(line)
        _hot[code] = frozenset(lines)
    return _hot[code]


class Hot(object):
    __slots__ = ("s", "hot", "last")

    def __init__(self, s, frame):
        self.s = s
        self.hot = hot_lines(frame)
        self.last = None

    def step(self, frame, event, arg):
        if event == "line" or event == "return":
            if self.last in self.hot:
                self.s.point(frame)
            self.last = frame.f_lineno
        return self.step


def foreign_lock_held():
    """h5py holds its lock between two steps of some of its iterations"""
    m = sys.modules.get("h5py._objects")
    return m is not None and m.phil._is_owned()


def safe_stack(frame):
    """no lock of another library is held: every Python frame below belongs to the library or to the simulator"""
    while frame is not None:
        fn = frame.f_code.co_filename
        if frame.f_code.co_name == "<module>" and not fn.startswith(_here):
            return fn.endswith("/driver.py") or fn.startswith("<frozen runpy")
        if fn.startswith(_here):
            return True
        for p in LIB:
            if fn.startswith(p):
                break
        else:
            if not fn.endswith(("/contextlib.py", "/functools.py")):
                return False
        frame = frame.f_back
    return True


# ------------------------------------------------------------------ what programs make threads with
SCHED = None


def sched():
    global SCHED
    if SCHED is None:
        SCHED = Sched()
    return SCHED


class SimLock(object):
    """threading.Lock: real when only one thread takes part, otherwise a wait in the scheduler"""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = REAL_LOCK()

    def _managed(self):
        return SCHED is not None and SCHED.me() is not None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if not self._managed():
            ok = self._real.acquire(blocking, timeout)
        else:
            SCHED.point()
            ok = self._real.acquire(False)
            if not ok and blocking and timeout is not None and timeout >= 0:
                return False
            if not ok and blocking:
                SCHED.wait(lambda: not self._real.locked(), "a lock")
                ok = self._real.acquire(False)
        if ok:
            self._owner, self._count = me, 1
        return ok

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = REAL_LOCK()
        self._owner, self._count = None, 0

    # what threading.Condition asks for
    def _is_owned(self):
        return self._owner == _thread.get_ident()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = (self._count, self._owner)
        self._owner, self._count = None, 0
        self._real.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]


class SimFuture(concurrent.futures.Future):
    def result(self, timeout=None):
        sched().wait(self.done, "a task of a thread pool")
        return super().result(0)

    def exception(self, timeout=None):
        sched().wait(self.done, "a task of a thread pool")
        return super().exception(0)


class SimThreadPoolExecutor(concurrent.futures.Executor):
    made = []

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is None:
            max_workers = 4
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._init = (initializer, initargs)
        self._q = collections.deque()
        self._ts = []
        self._shutdown = False
        SimThreadPoolExecutor.made.append(self)

    def submit(self, fn, /, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        self._q.append((f, fn, args, kwargs))
        if len(self._ts) < self._max_workers:
            self._ts.append(sched().spawn(self._work, "pool thread %d" % len(self._ts)))
        sched().point()
        return f

    def _work(self):
        if self._init[0] is not None:
            self._init[0](*self._init[1])
        while True:
            sched().wait(lambda: self._q or self._shutdown, "work for a pool thread")
            if not self._q:
                return
            f, fn, args, kwargs = self._q.popleft()
            if not f.set_running_or_notify_cancel():
                continue
            try:
                v = fn(*args, **kwargs)
            except Violation:
                raise
            except BaseException as e:       # pylint: disable=broad-except
                f.set_exception(e)
            else:
                f.set_result(v)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def it():
            try:
                fs.reverse()
                while fs:
                    yield fs.pop().result()
            finally:
                for f in fs:
                    f.cancel()
        return it()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            while self._q:
                self._q.popleft()[0].cancel()
        if wait:
            sched().wait(lambda: all(t.done for t in self._ts), "the threads of a pool to end")

    @property
    def alive(self):
        return [t for t in self._ts if not t.done]


def sim_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if return_when == "FIRST_COMPLETED":
        sched().wait(lambda: any(f.done() for f in fs), "a future")
    elif return_when == "FIRST_EXCEPTION":
        sched().wait(lambda: all(f.done() for f in fs) or
                     any(f.done() and not f.cancelled() and concurrent.futures.Future.exception(f, 0) for f in fs), "a future")
    else:
        sched().wait(lambda: all(f.done() for f in fs), "futures")
    return concurrent.futures._base.DoneAndNotDoneFutures(set(f for f in fs if f.done()), set(f for f in fs if not f.done()))


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    while fs:
        sched().wait(lambda: any(f.done() for f in fs), "a future")
        for f in [f for f in fs if f.done()]:
            fs.remove(f)
            yield f


def install():
    """to be called before the library is imported"""
    concurrent.futures.ThreadPoolExecutor = SimThreadPoolExecutor
    concurrent.futures.wait = sim_wait
    concurrent.futures.as_completed = sim_as_completed


_cb = []


def hook_compiled(package):
    """switch points where the compiled modules of a package take the interpreter lock; returns how many calls"""
    import ctypes
    from sim import simio
    L = simio.lib()

    def cb():
        if SCHED is not None:
            SCHED.point()
    n = 0
    for m in sorted(sys.modules):
        f = getattr(sys.modules[m], "__file__", None)
        if m.startswith(package + ".") and f and f.endswith(".so"):
            k = L.sim_hook_gil(f.encode())
            n += max(k, 0)
    _cb.append(cb)
    L.sim_gil_cb.argtypes = [ctypes.py_object]
    L.sim_gil_cb(cb)
    return n


class patched_locks(object):
    """while modules of the library are imported, the locks they make are the simulator's"""
    def __enter__(self):
        self.old = (threading.Lock, threading.RLock)
        threading.Lock, threading.RLock = SimLock, SimRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old


def start(env, switches):
    """a new scheduler for one run; the calling thread is its first thread"""
    global SCHED
    SimThreadPoolExecutor.made = []
    SCHED = Sched(switches, env)
    return SCHED


def stop():
    global SCHED
    SCHED = None
