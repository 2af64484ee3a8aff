"""Installs the simulator's seams into the standard library.

Must be imported before any module of the code under test.
"""
import _thread
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

import threading
import time
import queue
import random
import tempfile
import datetime as _dt

from . import core

REAL_TIME = time.time
REAL_MONO = time.monotonic
REAL_SLEEP = time.sleep
REAL_GETPID = os.getpid
REAL_URANDOM = os.urandom
EPOCH = 1700000000.0

threading._allocate_lock = core.allocate_lock
threading.Lock = core.allocate_lock
threading._CRLock = None
threading._RLock = threading._PyRLock


def _RLock(*a, **k):
    return threading._PyRLock(*a, **k)


threading.RLock = _RLock


def _start_new_thread(fn, args=(), kwargs=None):
    sim = core.SIM
    if sim is None:
        return core._real_start(fn, args, kwargs or {})
    t = sim.start_thread(fn, args, kwargs or {}, name=getattr(getattr(fn, "__self__", None), "name", "raw"))
    return 10_000 + t.tid


threading._start_new_thread = _start_new_thread


def _set_sentinel():
    l = core.SimLock()
    if core.SIM is not None:
        core.SIM.cur.sentinel = l
    return l


threading._set_sentinel = _set_sentinel
_real_get_ident = _thread.get_ident


def _get_ident():
    # the OS reuses thread ids; simulated ids are unique within a run
    sim = core.SIM
    return _real_get_ident() if sim is None else 10_000 + sim.cur.tid


threading.get_ident = _get_ident


class ProcMainThread(threading.Thread):
    """Stands for the main thread of a simulated process."""

    def __init__(self):
        threading.Thread.__init__(self, name="MainThread", daemon=False)
        self._started._flag = True
        self._ident = _get_ident()
        self._native_id = self._ident
        threading._active[self._ident] = self
        self._proc = core.SIM.cur.proc
        self._proc.env["main_thread"] = self

    def is_alive(self):
        return self._proc.alive and not self._proc.env.get("py_exit")


def _main_thread():
    sim = core.SIM
    return (sim.cur.proc.env.get("main_thread") if sim is not None else None) or threading._main_thread


threading.main_thread = _main_thread


class NoLock:
    """Replaces interpreter-internal locks created at import time.

    They guard regions without scheduling points and would otherwise be shared by all simulated
    processes, so that killing one process inside a region would block the others."""

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _at_fork_reinit(self):
        pass


threading._active_limbo_lock = NoLock()
threading._shutdown_locks_lock = NoLock()


NATIVE = None      # the native run in progress (nsim.glue.Native), if any


def _monotonic():
    sim = core.SIM
    if sim is None:
        return REAL_MONO() if NATIVE is None else 1000.0 + NATIVE.L.nsim_now() / 1e9
    sim.point("clock")
    return 1000.0 + sim.now


def _time():
    sim = core.SIM
    if sim is None:
        return REAL_TIME() if NATIVE is None else EPOCH + NATIVE.L.nsim_now() / 1e9
    sim.point("clock")
    return EPOCH + sim.now + sim.cur.proc.env.get("skew", 0.0)


def _sleep(s):
    sim = core.SIM
    if sim is None:
        return REAL_SLEEP(s) if NATIVE is None else NATIVE.L.nsim_sleep(s)
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    if s == 0:
        sim.point("sleep0")
        return
    sim.point("sleep")
    sim.block("sleep", sim.now + s)


time.sleep = _sleep
time.time = _time
time.monotonic = _monotonic
time.perf_counter = _monotonic
time.time_ns = lambda: int(_time() * 1e9)
time.monotonic_ns = lambda: int(_monotonic() * 1e9)
time.perf_counter_ns = lambda: int(_monotonic() * 1e9)
threading._time = _monotonic
queue.time = _monotonic
queue.SimpleQueue = queue._PySimpleQueue


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if core.SIM is None:
            return super().now(tz)
        return cls.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        if core.SIM is None:
            return super().utcnow()
        return cls.utcfromtimestamp(_time())


_dt.datetime = SimDatetime


def _getpid():
    sim = core.SIM
    return REAL_GETPID() if sim is None else sim.cur.proc.pid


os.getpid = _getpid


class ProcEnviron(os._Environ):
    """Environment variables, separate for every simulated process."""

    def __init__(self, real):
        self._base = real._data
        self.encodekey, self.decodekey = real.encodekey, real.decodekey
        self.encodevalue, self.decodevalue = real.encodevalue, real.decodevalue

    @property
    def _data(self):
        sim = core.SIM
        if sim is None:
            return self._base
        d = sim.cur.proc.environ
        if d is None:
            d = sim.cur.proc.environ = dict(self._base)
        return d

    def __setitem__(self, key, value):
        if core.SIM is None:
            return super().__setitem__(key, value)
        self._data[self.encodekey(key)] = self.encodevalue(value)

    def __delitem__(self, key):
        if core.SIM is None:
            return super().__delitem__(key)
        try:
            del self._data[self.encodekey(key)]
        except KeyError:
            raise KeyError(key) from None


os.environ = ProcEnviron(os.environ)


def base_environ():
    return os.environ._data


import socket  # noqa: E402

_REAL_SOCKET = socket.socket


class SimSocket:
    """Address lookup and port reservation only; no data is exchanged through it."""

    def __init__(self, *a, **k):
        self._port = 0

    def _host(self):
        return core.SIM.cur.proc.env.get("host", "10.0.0.1")

    def connect(self, addr):
        core.SIM.point("connect")
        if self._host() == "localhost":
            raise OSError(101, "Network is unreachable")

    def bind(self, addr):
        sim = core.SIM
        sim.point("bind")
        if addr[1]:
            self._port = addr[1]
            return
        n = sim.__dict__["ports"] = sim.__dict__.get("ports", 40000) + 1
        self._port = n

    def getsockname(self):
        return (self._host(), self._port)

    def setsockopt(self, *a):
        pass

    def listen(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _SocketMeta(type):
    def __call__(cls, *a, **k):
        return SimSocket(*a, **k) if core.SIM is not None else _REAL_SOCKET(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (_REAL_SOCKET, SimSocket))


class SocketSeam(metaclass=_SocketMeta):
    pass


os.cpu_count = lambda: 4
os.sched_getaffinity_real = os.sched_getaffinity


def _urandom(n):
    sim = core.SIM
    if sim is None:
        return REAL_URANDOM(n)
    return sim_entropy().randbytes(n)


_entropy = {}


def sim_entropy():
    sim = core.SIM
    r = _entropy.get(id(sim))
    if r is None:
        r = _entropy[id(sim)] = random.Random("entropy/%s" % sim.seed)
    return r


os.urandom = _urandom
random._urandom = _urandom


class _Names:
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "t%06d" % self.n


_names = _Names()
tempfile._get_candidate_names = lambda: _names

# Objects used as dict keys or set members get sequence-number hashes so that
# iteration order does not depend on addresses.


def _seq_hash(cls):
    def h(self):
        d = self.__dict__
        v = d.get("_vsim_h")
        if v is None:
            v = d["_vsim_h"] = core._next_seq()
        return v
    cls.__hash__ = h


_seq_hash(threading.Thread)
import concurrent.futures  # noqa: E402
import concurrent.futures.thread  # noqa: E402
import concurrent.futures._base  # noqa: E402
_seq_hash(concurrent.futures.Future)


class _ExecutorsShutDown:
    """Per-process stand-in for the flag set when an interpreter exits."""

    def __bool__(self):
        sim = core.SIM
        return sim is not None and bool(sim.cur.proc.env.get("py_exit"))


concurrent.futures.thread._global_shutdown_lock = NoLock()
concurrent.futures.thread._shutdown = _ExecutorsShutDown()

import logging  # noqa: E402
logging._lock = threading._PyRLock()


def _excepthook(args):
    sim = core.SIM
    import traceback
    txt = "".join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))
    if sim is not None:
        sim.thread_errors.append(txt[-3000:])


threading.excepthook = _excepthook

# ---------------------------------------------------------------- line events
TOOL = 4
_mon = sys.monitoring
_mon.use_tool_id(TOOL, "vsim")
_instrumented = set()
_names_of = {}


def _on_line(code, line):
    s = core.SIM
    if s is None:
        return
    s.steps += 1
    s.now += 1e-6
    if s.steps >= s.next_evt:
        s._decide(code.co_name)


def _on_instr(code, off):
    s = core.SIM
    if s is None:
        return
    s.steps += 1
    s.now += 1e-6
    if s.steps >= s.next_evt:
        s._decide(code.co_name)


_mon.register_callback(TOOL, _mon.events.LINE, _on_line)
_mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instr)


def _walk(code, ev):
    if code in _instrumented:
        return
    _instrumented.add(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _walk(c, ev)


def instrument(prefix, granularity="line"):
    """Enable line events on every function whose source is below prefix."""
    import gc
    import types
    ev = _mon.events.LINE
    seen = set()
    for o in gc.get_objects():
        code = None
        if isinstance(o, types.FunctionType):
            code = o.__code__
        elif isinstance(o, (staticmethod, classmethod)):
            f = getattr(o, "__func__", None)
            code = getattr(f, "__code__", None)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                c = getattr(f, "__code__", None)
                if c is not None and c.co_filename.startswith(prefix):
                    _walk(c, ev)
        if code is not None and code.co_filename.startswith(prefix) and id(code) not in seen:
            seen.add(id(code))
            _walk(code, ev)
    for c in _instrumented:
        _mon.set_local_events(TOOL, c, ev)
    return len(_instrumented)


def set_granularity(instr):
    ev = _mon.events.INSTRUCTION if instr else _mon.events.LINE
    for c in _instrumented:
        _mon.set_local_events(TOOL, c, ev)
