"""Python side of the storage layer (simio.c): arm rules, count calls, read the call log.

All decisions come from the plan; this module has no randomness and reads no clock.
"""
import ctypes
import errno as _errno
import os

OPEN, READ, WRITE, CLOSE, META, SYNC, ALLOC = 1, 2, 4, 8, 16, 32, 64
CLS = {"open": OPEN, "read": READ, "write": WRITE, "close": CLOSE, "meta": META, "sync": SYNC, "alloc": ALLOC,
       "mutate": WRITE | META | OPEN, "any": 63}
ERR, SHORT, EOF, CRASH_BEFORE, CRASH_AFTER, TORN_CRASH, TORN_ERR, SIGINT = 1, 2, 3, 4, 5, 6, 7, 8
ACT = {"err": ERR, "short": SHORT, "eof": EOF, "crash_before": CRASH_BEFORE, "crash_after": CRASH_AFTER,
       "torn_crash": TORN_CRASH, "torn_err": TORN_ERR, "sigint": SIGINT}
CRASH_EXIT = 99

_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        try:
            L.sim_present
        except AttributeError:
            raise RuntimeError("the simulated storage layer is not preloaded")
        L.sim_root.argtypes = [ctypes.c_char_p]
        L.sim_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_long,
                               ctypes.c_double, ctypes.c_int]
        for n in ("sim_count", "sim_fired", "sim_seen", "sim_fired_total", "sim_mutations"):
            getattr(L, n).restype = ctypes.c_long
        L.sim_alloc.argtypes = [ctypes.c_ulong, ctypes.c_ulong, ctypes.c_ulong, ctypes.c_int]
        _lib = L
    return _lib


def set_root(path):
    lib().sim_root(os.fsencode(path) if path else b"")


def reset():
    lib().sim_reset()
    lib().sim_alloc(0, 0, 0, 0)


_np_range = None


def numpy_range():
    global _np_range
    if _np_range is None:
        lo, hi = None, None
        with open("/proc/self/maps") as f:
            for line in f:
                if "_multiarray_umath" in line:
                    a, b = line.split()[0].split("-")
                    lo = int(a, 16) if lo is None else lo
                    hi = int(b, 16)
        _np_range = (lo or 0, hi or 0)
    return _np_range


def alloc_seam(on, minimum=4096):
    lo, hi = numpy_range()
    lib().sim_alloc(lo, hi, minimum, 1 if on else 0)


def rule(cls, nth, act, err=0, frac=0.5, sticky=False, sub=""):
    if isinstance(cls, str):
        cls = CLS[cls]
    if isinstance(act, str):
        act = ACT[act]
    if isinstance(err, str):
        err = getattr(_errno, err)
    return lib().sim_rule(cls, sub.encode(), nth, act, err, frac, 1 if sticky else 0)


def disarm():
    lib().sim_disarm()
    lib().sim_alloc(0, 0, 0, 0)


def count(cls):
    if isinstance(cls, str):
        cls = CLS[cls]
    return sum(lib().sim_count(c) for c in (OPEN, READ, WRITE, CLOSE, META, SYNC, ALLOC) if c & cls)


def zero_counts():
    lib().sim_zero_counts()


def fired(i):
    return lib().sim_fired(i)


def mutations():
    return lib().sim_mutations()


def zero_mutations():
    lib().sim_zero_mutations()


def start_log():
    lib().sim_log(1)


def stop_log():
    out = get_log()
    lib().sim_log(0)
    return out


def get_log():
    L = lib()
    op = ctypes.create_string_buffer(16)
    path = ctypes.create_string_buffer(128)
    size, res, flt = ctypes.c_long(), ctypes.c_long(), ctypes.c_int()
    out = []
    for i in range(L.sim_nlog()):
        L.sim_getlog(i, op, ctypes.byref(size), ctypes.byref(res), ctypes.byref(flt), path)
        out.append((op.value.decode(), path.value.decode(), size.value, res.value, flt.value))
    return out


def open_fds():
    buf = ctypes.create_string_buffer(65536)
    n = lib().sim_open_fds(buf, 65536)
    return n, sorted(buf.value.decode().split("\n")[:-1])
