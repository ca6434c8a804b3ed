"""Simulated pools of worker processes.

A worker is a real fork, made when its pool is made, so it has exactly the memory that it would have; tasks and results
are pickled over pipes.  What a real pool leaves to the operating system is decided by the plan: which idle worker takes
the next chunk, how long (in simulated seconds) a chunk takes, and so in which order results come back, whether a worker
dies before or after it did a chunk, gets stuck, or can't be forked.  Waiting advances a simulated clock; a wait that can
never end is a violation.
"""
import collections
import concurrent.futures
import errno
import itertools
import math
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.process
import os
import pickle
import struct
import time

from sim import simthread
from sim.core import Violation

REAL = {"sleep": time.sleep, "time": time.time, "monotonic": time.monotonic, "cpu_count": multiprocessing.cpu_count}
INF = float("inf")
WORLD = None


class World(object):
    """clock, choices and faults of one run"""

    def __init__(self, env, plan):
        self.env = env
        self.clock = 0.0
        self.dur = plan.get("dur") or [1.0]
        self.pick = plan.get("pick") or [0]
        self.late = plan.get("late", False)     # a chunk's work is done when it ends, not when it starts
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults.setdefault(f["chunk"], f["kind"])
        self.cpus = plan.get("cpus", 4)
        self.nchunk = 0
        self.npick = 0
        self.pools = []
        self.order = []

    def next_dur(self):
        return self.dur[self.nchunk % len(self.dur)]

    def choose(self, n):
        k = self.pick[self.npick % len(self.pick)] % n
        self.npick += 1
        return k

    def events(self):
        """(time, pool, worker) of the next chunk that ends"""
        best = None
        for p in self.pools:
            for w in p._workers:
                if w.busy is not None and w.until < INF and (best is None or w.until < best[0]):
                    best = (w.until, p, w)
        return best

    def run_until(self, done, limit=INF):
        """lets time pass until done() or until the limit; False when that came first"""
        while True:
            for p in self.pools:
                p._assign()
            if done():
                return True
            e = self.events()
            if e is None or e[0] > limit:
                if limit == INF:
                    raise Violation("hang", "a wait that can never end: no worker will ever finish what is waited for")
                self.clock = max(self.clock, limit)
                return False
            self.clock = max(self.clock, e[0])
            e[1]._complete(e[2])

    def sleep(self, s):
        self.run_until(lambda: False, self.clock + max(s, 0)) if s < INF else self.run_until(lambda: False)


def _sleep(s):
    if WORLD is not None:
        WORLD.sleep(s)
    else:
        REAL["sleep"](s)


# ------------------------------------------------------------------ one worker process
def _send(fd, b):
    b = struct.pack("<q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    n, = struct.unpack("<q", get(8))
    return get(n)


class Worker(object):
    def __init__(self, pool, init):
        global WORLD
        self.pool = pool
        self.busy = None
        self.until = INF
        self.alive = True
        self.result = None
        # as a real pool does
        if pool._uses_process:
            w = pool.Process(pool._ctx, target=_nothing, args=())
            w.name = w.name.replace("Process", "PoolWorker")
            w.daemon = True
        else:
            w = multiprocessing.process.BaseProcess(target=_nothing)
        assert not multiprocessing.process._current_process._config.get("daemon"), \
            "daemonic processes are not allowed to have children"
        if WORLD.env is not None:
            WORLD.env.hit("workers")
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                for p in WORLD.pools:
                    for o in p._workers:
                        o.close_fds()
                multiprocessing.process._current_process = w
                multiprocessing.process._children = set()
                simthread.stop()
                WORLD.pools, WORLD.faults, WORLD.in_worker = [], {}, True
                if init[0] is not None:
                    init[0](*init[1])
                while True:
                    try:
                        m = _recv(a)
                    except EOFError:
                        break
                    try:
                        func, args, star = pickle.loads(m)
                        try:
                            v = (True, [func(*x) if star else func(x) for x in args])
                        except Exception as e:       # pylint: disable=broad-except
                            v = (False, e)
                        try:
                            r = pickle.dumps(v)
                            pickle.loads(r) if not v[0] else None
                        except Exception as e:       # pylint: disable=broad-except
                            r = pickle.dumps((False, multiprocessing.pool.MaybeEncodingError(e, str(type(v[1])))))
                    except BaseException as e:       # pylint: disable=broad-except
                        r = pickle.dumps((False, RuntimeError("%s: %s" % (type(e).__name__, e))))
                    _send(d, r)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.pid, self.out, self.inp = pid, b, c

    def close_fds(self):
        for fd in (self.out, self.inp):
            if fd >= 0:
                os.close(fd)
        self.out = self.inp = -1

    def do(self, task):
        try:
            m = pickle.dumps((task.func, task.args, task.star))
        except Exception as e:      # pylint: disable=broad-except
            return (False, e)
        try:
            _send(self.out, m)
            return pickle.loads(_recv(self.inp))
        except (EOFError, BrokenPipeError):
            self.end()
            return None

    def end(self):
        if self.alive:
            self.alive = False
            self.close_fds()
            os.waitpid(self.pid, 0)


def _nothing():
    pass


class Task(object):
    def __init__(self, job, i, func, args, star):
        self.job, self.i, self.func, self.args, self.star = job, i, func, args, star


# ------------------------------------------------------------------ results
class Job(object):
    """AsyncResult and MapResult"""

    def __init__(self, pool, single, callback=None, error_callback=None):
        self.pool = pool
        self.single = single
        self.parts = {}
        self.n = None
        self.left = 0
        self.error = None
        self.lost = 0
        self.order = []
        self.callback, self.error_callback = callback, error_callback

    def _set(self, i, ok, v):
        self.left -= 1
        self.order.append(i)
        if ok:
            self.parts[i] = v
        else:
            self.parts[i] = None
            if self.error is None:
                self.error = v
        if self.ready():
            if self.error is None and self.callback:
                self.callback(self._value())
            if self.error is not None and self.error_callback:
                self.error_callback(self.error)

    def _value(self):
        out = [x for i in range(self.n) for x in self.parts[i]]
        return out[0] if self.single else out

    def ready(self):
        return self.n is not None and self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError("{0!r} not ready".format(self))
        return self.error is None

    def wait(self, timeout=None):
        self.pool._wait(self.ready, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        return self._value()


class IterJob(Job):
    """results of imap and imap_unordered"""

    def __init__(self, pool, unordered):
        super().__init__(pool, False)
        self.unordered = unordered
        self.items = collections.deque()
        self.nexti = 0
        self.errs = {}

    def _set(self, i, ok, v):
        self.left -= 1
        self.parts[i] = (ok, v)
        if self.unordered:
            self.items.extend([(True, x) for x in v] if ok else [(False, v)])
        else:
            while self.nexti in self.parts:
                ok, v = self.parts[self.nexti]
                self.items.extend([(True, x) for x in v] if ok else [(False, v)])
                self.nexti += 1

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if not self.items:
            if self.ready():
                raise StopIteration
            self.pool._wait(lambda: self.items or self.ready(), timeout)
            if not self.items:
                if self.ready():
                    raise StopIteration
                raise multiprocessing.TimeoutError
        ok, v = self.items.popleft()
        if ok:
            return v
        raise v

    __next__ = next


# ------------------------------------------------------------------ pools
class PoolAPI(object):
    """what multiprocessing.Pool and ThreadPool have in common"""
    _uses_process = True

    def _chunks(self, seq, size):
        it = iter(seq)
        while True:
            x = list(itertools.islice(it, size))
            if not x:
                return
            yield x

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _map(self, func, iterable, star, chunksize, callback=None, error_callback=None):
        self._check()
        if not hasattr(iterable, "__len__"):
            iterable = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(iterable), self._processes * 4)
            if extra:
                chunksize += 1
        if len(iterable) == 0:
            chunksize = 0
        job = Job(self, False, callback, error_callback)
        parts = list(self._chunks(iterable, chunksize)) if chunksize > 0 else []
        if chunksize < 0:
            raise ValueError("chunksize")
        job.n = job.left = len(parts)
        for i, p in enumerate(parts):
            self._submit(Task(job, i, func, p, star))
        if WORLD is not None and WORLD.env is not None:
            WORLD.env.hit("jobs")
        return job

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        job = Job(self, True, callback, error_callback)
        job.n = job.left = 1
        self._submit(Task(job, 0, _call, [(func, tuple(args), dict(kwds))], False))
        return job

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize).get()

    def _imap(self, func, iterable, chunksize, unordered):
        self._check()
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not {0:n}".format(chunksize))
        job = IterJob(self, unordered)
        parts, err = [], None
        it = self._chunks(iterable, chunksize)
        while True:
            try:
                parts.append(next(it))
            except StopIteration:
                break
            except Exception as e:       # pylint: disable=broad-except
                err = e
                break
        job.n = job.left = len(parts) + (err is not None)
        for i, p in enumerate(parts):
            self._submit(Task(job, i, func, p, False))
        if err is not None:
            job._set(len(parts), False, err)
        return job

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def _call(x):
    return x[0](*x[1], **x[2])


class SimPool(PoolAPI):
    @staticmethod
    def Process(ctx, *args, **kwds):
        return multiprocessing.process.BaseProcess(*args, **kwds)

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._ctx = context
        self._state = "RUN"
        self.joined = False
        self._workers = []
        self._queue = collections.deque()
        self._lost = 0
        if processes is None:
            processes = WORLD.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if not isinstance(processes, int):
            raise TypeError("processes")
        self._processes = processes
        self._init = (initializer, initargs)
        WORLD.pools.append(self)
        self.made_by = "library"
        for i in range(processes):
            if WORLD.faults.get(("fork", len(WORLD.pools) - 1)) == i or \
                    WORLD.faults.get("fork%d" % (len(WORLD.pools) - 1)) == "fork%d" % i:
                WORLD.env.fault("fork:EAGAIN")
                for w in self._workers:
                    w.end()
                self._state = "TERMINATE"
                self.joined = True
                raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            self._workers.append(Worker(self, self._init))

    # -- schedule
    def _submit(self, task):
        self._queue.append(task)

    def _assign(self):
        if self._state == "TERMINATE":
            return
        while self._queue:
            idle = [w for w in self._workers if w.alive and w.busy is None]
            if not idle:
                return
            w = idle[WORLD.choose(len(idle))]
            t = self._queue.popleft()
            c = WORLD.nchunk
            kind = WORLD.faults.get(c)
            d = WORLD.next_dur()
            WORLD.nchunk += 1
            w.busy, w.until = t, WORLD.clock + d
            w.fault, w.result = kind, None
            if kind == "stuck":
                w.until = INF
                WORLD.env.fault("worker:stuck")
                t.job.lost += 1
            elif kind == "slow":
                w.until = WORLD.clock + 1e6 * d
                WORLD.env.fault("worker:slow")
            if kind not in ("die_before", "stuck") and not WORLD.late:
                w.result = w.do(t)

    def _complete(self, w):
        t, kind = w.busy, w.fault
        if kind in ("die_before", "die_after"):
            if kind == "die_after" and WORLD.late:
                w.do(t)
            WORLD.env.fault("worker:" + kind)
            w.end()
            t.job.lost += 1
            self._lost += 1
            w.busy = None
            self._workers.remove(w)
            self._workers.append(Worker(self, self._init))
            return
        if WORLD.late:
            w.result = w.do(t)
        w.busy, w.until = None, INF
        if w.result is None:            # it really died
            t.job.lost += 1
            self._lost += 1
            self._workers.remove(w)
            self._workers.append(Worker(self, self._init))
            return
        WORLD.order.append(t.i)
        t.job._set(t.i, w.result[0], w.result[1])
        w.result = None

    def _wait(self, done, timeout):
        WORLD.run_until(done, INF if timeout is None else WORLD.clock + max(timeout, 0))

    # -- end
    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        self._queue.clear()
        for w in self._workers:
            w.end()
            w.busy = None

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            def over():
                return not self._queue and not any(w.busy for w in self._workers)
            WORLD.run_until(over)
            if self._lost:
                # a real pool keeps its workers until every result came in
                raise Violation("hang", "join of a closed pool that lost a chunk to a dead worker never ends")
            for w in self._workers:
                w.end()
        self.joined = True


class SimThreadPool(PoolAPI):
    _uses_process = False
    made = []

    def __init__(self, processes=None, initializer=None, initargs=()):
        self._state = "RUN"
        self._processes = processes if processes is not None else (WORLD.cpus if WORLD else 4)
        if self._processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._ex = simthread.SimThreadPoolExecutor(self._processes, "", initializer, initargs)
        self.joined = False
        SimThreadPool.made.append(self)

    def _submit(self, t):
        def work():
            try:
                v = [t.func(*x) if t.star else t.func(x) for x in t.args]
            except Violation:
                raise
            except Exception as e:      # pylint: disable=broad-except
                t.job._set(t.i, False, e)
            else:
                t.job._set(t.i, True, v)
        self._ex.submit(work)

    def _wait(self, done, timeout):
        simthread.sched().wait(done, "the result of a thread pool")

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
        self._ex.shutdown(wait=False)

    def terminate(self):
        self._state = "TERMINATE"
        self._ex.shutdown(wait=False, cancel_futures=True)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        self._ex.shutdown(wait=True)
        self.joined = True


class SimProcessPoolExecutor(concurrent.futures.Executor):
    """on top of the pool; a worker that dies breaks it"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._pool = SimPool(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        pool, job = self._pool, self._pool.apply_async(fn, args, kwargs)

        class F(concurrent.futures.Future):
            def _finish(self):
                if not concurrent.futures.Future.done(self):
                    if job.error is not None:
                        self.set_exception(job.error)
                    elif job.ready():
                        self.set_result(job._value())
                    elif job.lost:
                        self.set_exception(concurrent.futures.process.BrokenProcessPool("a worker died"))

            def done(self):
                self._finish()
                return concurrent.futures.Future.done(self)

            def result(self, timeout=None):
                pool._wait(lambda: job.ready() or job.lost, timeout)
                self._finish()
                return super().result(0)
        return F()

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._pool.terminate() if self._pool._lost else self._pool.close()
        if wait:
            self._pool.join()


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild, context=self)


def _pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild)


def install():
    """to be called before the library is imported"""
    simthread.install()
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.Pool = _pool
    multiprocessing.context.BaseContext.Pool = _ctx_pool
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    time.sleep = _sleep
    time.time = lambda: REAL["time"]() if WORLD is None else 1.5e9 + WORLD.clock
    time.monotonic = lambda: REAL["monotonic"]() if WORLD is None else 1e3 + WORLD.clock
    cnt = lambda: REAL["cpu_count"]() if WORLD is None else WORLD.cpus      # noqa: E731
    multiprocessing.cpu_count = cnt
    multiprocessing.context.BaseContext.cpu_count = lambda self: cnt()


def start(env, plan):
    global WORLD
    WORLD = World(env, plan)
    SimThreadPool.made = []
    simthread.start(env, plan.get("switches") or [])
    return WORLD


def stop(env):
    global WORLD
    w = WORLD
    if w is not None:
        for p in w.pools:
            if p._state != "TERMINATE" and not p.joined:
                p.terminate()
        env.simtime += min(w.clock, 1e9)
    WORLD = None
    simthread.stop()
