"""Simulated multiprocessing: processes are thread groups with separate pids, queues and pipe ends."""
import copy
import os
import pickle
import sys
import threading
import traceback
import types

import concurrent.futures.thread
import multiprocessing
import multiprocessing.connection
import multiprocessing.context
import multiprocessing.process
import multiprocessing.queues
import multiprocessing.util

from . import core, patch

_REAL_QUEUE = multiprocessing.queues.Queue


class _End:
    __slots__ = ("holders",)

    def __init__(self, pid):
        self.holders = {pid}


class _Pipe:
    def __init__(self, cap):
        pid = core.SIM.cur.proc.pid
        self.r = _End(pid)
        self.w = _End(pid)
        self.msgs = []
        self.bytes = 0
        self.cap = cap
        self.waiters = []
        core.SIM.__dict__.setdefault("pipes", []).append(self)

    def wake(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            core.SIM.make_ready(t)

    def wait(self, what, deadline=None):
        sim = core.SIM
        cur = sim.cur
        self.waiters.append(cur)
        ok = sim.block(what, deadline)
        if not ok and cur in self.waiters:
            self.waiters.remove(cur)
        return ok


class SimConnection:
    """Message pipe end with the interface of multiprocessing.connection.Connection."""

    def __init__(self, rpipe=None, wpipe=None, readable=True, writable=True):
        self._rp = rpipe
        self._wp = wpipe
        self._readable = readable
        self._writable = writable
        self._closed_by = set()

    # --------------------------------------------------------------- checks
    def _check(self):
        if os.getpid() in self._closed_by:
            raise OSError("handle is closed")

    @property
    def closed(self):
        return os.getpid() in self._closed_by

    @property
    def readable(self):
        return self._readable

    @property
    def writable(self):
        return self._writable

    def fileno(self):
        self._check()
        return 10_000 + id(self) % 1000

    def close(self):
        pid = os.getpid()
        if pid in self._closed_by:
            return
        self._closed_by.add(pid)
        if self._rp is not None:
            self._rp.r.holders.discard(pid)
            self._rp.wake()
        if self._wp is not None:
            self._wp.w.holders.discard(pid)
            self._wp.wake()
        core.SIM.point("pipe-close")

    # ----------------------------------------------------------------- I/O
    def send_bytes(self, buf, offset=0, size=None):
        self._check()
        if not self._writable:
            raise OSError("connection is read-only")
        sim = core.SIM
        data = bytes(buf)
        if offset or size is not None:
            data = data[offset:] if size is None else data[offset:offset + size]
        p = self._wp
        sim.point("pipe-send")
        while p.msgs and p.bytes + len(data) > p.cap:
            if not p.r.holders:
                raise BrokenPipeError(32, "Broken pipe")
            p.wait("pipe-send")
        if not p.r.holders:
            raise BrokenPipeError(32, "Broken pipe")
        p.msgs.append(data)
        p.bytes += len(data)
        p.wake()
        sim.point("pipe-sent")

    def recv_bytes(self, maxlength=None):
        self._check()
        if not self._readable:
            raise OSError("connection is write-only")
        sim = core.SIM
        p = self._rp
        sim.point("pipe-recv")
        while not p.msgs:
            if not p.w.holders:
                raise EOFError
            p.wait("pipe-recv")
        data = p.msgs.pop(0)
        p.bytes -= len(data)
        p.wake()
        return data

    def send(self, obj):
        self._check()
        if not self._writable:
            raise OSError("connection is read-only")
        self.send_bytes(pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL))

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        self._check()
        sim = core.SIM
        p = self._rp
        sim.point("pipe-poll")
        if p.msgs or not p.w.holders:
            return True
        if timeout is not None and timeout <= 0:
            return False
        deadline = None if timeout is None else sim.now + timeout
        while not p.msgs and p.w.holders:
            if not p.wait("pipe-poll", deadline):
                return bool(p.msgs) or not p.w.holders
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _cap():
    return core.SIM.opts.get("pipe_cap", 65536)


def Pipe(duplex=True):
    if duplex:
        a, b = _Pipe(_cap()), _Pipe(_cap())
        return SimConnection(a, b), SimConnection(b, a)
    p = _Pipe(_cap())
    return SimConnection(p, None, True, False), SimConnection(None, p, False, True)


class _Ctx:
    _name = "sim"

    def Lock(self):
        return core.SimSemaphore(1, 1, "mplock")

    def RLock(self):
        return threading.RLock()

    def Semaphore(self, value=1):
        return core.SimSemaphore(value, None, "mpsem")

    def BoundedSemaphore(self, value=1):
        return core.SimSemaphore(value, value, "mpsem")

    def Event(self):
        return threading.Event()

    def Condition(self, lock=None):
        return threading.Condition(lock)

    def Barrier(self, *a, **k):
        return threading.Barrier(*a, **k)

    def Queue(self, maxsize=0):
        return SimMPQueue(maxsize)

    def JoinableQueue(self, maxsize=0):
        raise NotImplementedError("JoinableQueue is not simulated")

    def SimpleQueue(self):
        return SimMPQueue(0)

    def Pipe(self, duplex=True):
        return Pipe(duplex)

    @property
    def Process(self):
        return SimProcess

    def cpu_count(self):
        return os.cpu_count()

    def get_start_method(self, allow_none=False):
        return "fork"

    def get_context(self, method=None):
        return self


CTX = _Ctx()


class SimMPQueue:
    """One stdlib Queue instance per simulated process over a shared pipe and locks."""

    def __init__(self, maxsize=0, *, ctx=None):
        q = _REAL_QUEUE(maxsize, ctx=CTX)
        self._state = (q._ignore_epipe, q._maxsize, q._reader, q._writer, q._rlock, q._wlock, q._sem, q._opid)
        self._inst = {os.getpid(): q}
        core.SIM.cur.proc.queues.append(q)

    def _q(self):
        pid = os.getpid()
        q = self._inst.get(pid)
        if q is None:
            q = _REAL_QUEUE.__new__(_REAL_QUEUE)
            q.__setstate__(self._state)
            self._inst[pid] = q
            core.SIM.cur.proc.queues.append(q)
        return q

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_inst", "_state"):
            raise AttributeError(name)
        return getattr(self._q(), name)


# the stdlib registers a weak after-fork callback that is never needed here
multiprocessing.queues.register_after_fork = lambda *a, **k: None


class SimProcess:
    """multiprocessing.Process with fork semantics inside one interpreter."""

    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        SimProcess._count += 1
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self._name = name or "Process-%d" % SimProcess._count
        self._daemon = bool(daemon)
        self._sp = None
        self._parent_pid = os.getpid()

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._sp is None, "cannot start a process twice"
        sim = core.SIM
        parent = sim.cur.proc
        assert not parent.env.get("daemon"), "daemonic processes are not allowed to have children"
        sp = sim.new_proc(self._name, parent)
        sp.env = dict(parent.env)
        sp.env["daemon"] = self._daemon
        sp.env.pop("main_thread", None)
        self._sp = sp
        sp.obj = self
        sp.environ = dict(parent.environ) if parent.environ is not None else dict(patch.base_environ())
        parent.children.append((sp, self._daemon))
        for p in getattr(sim, "pipes", []):
            for e in (p.r, p.w):
                if parent.pid in e.holders:
                    e.holders.add(sp.pid)
        child = copy.copy(self)
        child._target_drop = None
        t = child._target
        if isinstance(t, types.MethodType):
            child._target = types.MethodType(t.__func__, copy.copy(t.__self__))

        def boot():
            code = 0
            patch.ProcMainThread()
            try:
                child.run()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                code = 1
                sim.thread_errors.append(traceback.format_exc()[-3000:])
            proc_exit(sp, code)

        hook = sim.__dict__.get("on_proc_start")
        if hook:
            hook(self, sp)
        sim.start_thread(boot, (), {}, proc=sp, name=self._name)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        assert self._sp is None, "process has already started"
        self._daemon = bool(v)

    @property
    def pid(self):
        return self._sp.pid if self._sp else None

    ident = pid

    @property
    def exitcode(self):
        return self._sp.exitcode if self._sp else None

    @property
    def sentinel(self):
        return self._sp.pid

    def is_alive(self):
        core.SIM.point("is_alive")
        return bool(self._sp and self._sp.alive)

    def join(self, timeout=None):
        assert self._parent_pid == os.getpid(), "can only join a child process"
        assert self._sp is not None, "can only join a started process"
        sim = core.SIM
        sim.point("proc-join")
        deadline = None if timeout is None else sim.now + timeout
        while self._sp.alive:
            self._sp.waiters.append(sim.cur)
            cur = sim.cur
            if not sim.block("proc-join", deadline):
                if cur in self._sp.waiters:
                    self._sp.waiters.remove(cur)
                return

    def terminate(self):
        sim = core.SIM
        sim.point("terminate")
        if self._sp:
            proc_killed(self._sp, -15)

    def kill(self):
        sim = core.SIM
        sim.point("kill")
        if self._sp:
            proc_killed(self._sp, -9)

    def close(self):
        pass

    def __repr__(self):
        return "<SimProcess %s>" % self._name


def _drop_ends(sim, sp):
    for p in getattr(sim, "pipes", []):
        ch = False
        for e in (p.r, p.w):
            if sp.pid in e.holders:
                e.holders.discard(sp.pid)
                ch = True
        if ch:
            p.wake()


def proc_killed(sp, code=-9):
    sim = core.SIM
    if not sp.alive:
        return
    _drop_ends(sim, sp)
    sim.kill_proc(sp, code)


def proc_exit(sp, code):
    """Normal end of a process main thread: flush queues, join threads, then vanish."""
    sim = core.SIM
    try:
        for q in list(sp.queues):
            c = q._close
            if c is not None:
                q._close = None
                c()
        for c, daemon in list(sp.children):
            if daemon:
                proc_killed(c, -15)
        for c, daemon in list(sp.children):
            if c.alive:
                c.obj.join()
        for q in list(sp.queues):
            j = q._jointhread
            if j is not None:
                j()
        me = sim.cur
        sp.env["py_exit"] = True
        mine = [(th, q) for th, q in list(concurrent.futures.thread._threads_queues.items())
                if getattr(getattr(th, "_vsim_t", None), "proc", None) is sp]
        for th, q in mine:
            q.put(None)
        for th, q in mine:
            th.join()
        for th in list(threading._active.values()):
            st = getattr(th, "_vsim_t", None)
            if st is not None and st.proc is sp and st is not me and not th.daemon:
                th.join()
    except BaseException:
        sim.thread_errors.append(traceback.format_exc()[-3000:])
    me = sim.cur
    sp.alive = False
    sp.exitcode = code
    _drop_ends(sim, sp)
    for t in sp.threads:
        if t is not me and t.state in (core.READY, core.BLOCKED):
            t.state = core.DEAD
    for w in sp.waiters:
        sim.make_ready(w)
    sp.waiters = []


_orig_set_ident = threading.Thread._set_ident


def _set_ident(self):
    _orig_set_ident(self)
    if core.SIM is not None:
        self._vsim_t = core.SIM.cur


threading.Thread._set_ident = _set_ident

multiprocessing.Process = SimProcess
multiprocessing.process.BaseProcess = SimProcess
multiprocessing.Queue = SimMPQueue
multiprocessing.Pipe = Pipe
multiprocessing.connection.Pipe = Pipe
multiprocessing.connection.Connection = SimConnection
for _n in ("Lock", "RLock", "Semaphore", "BoundedSemaphore", "Event", "Condition", "Barrier",
           "SimpleQueue", "JoinableQueue", "get_context", "get_start_method", "cpu_count"):
    setattr(multiprocessing, _n, getattr(CTX, _n))
multiprocessing.context.Process = SimProcess


def current_process():
    class _P:
        name = core.SIM.cur.proc.name if core.SIM else "main"
        pid = os.getpid()
        daemon = False
    return _P()


multiprocessing.current_process = current_process
