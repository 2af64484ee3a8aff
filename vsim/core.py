"""Deterministic scheduler: real threads, one baton, virtual time, recorded decisions.

Exactly one simulated thread runs at a time.  At every scheduling point (lock, queue,
pipe, file and clock operations, and line events of the code under test) the scheduler
may switch threads, stall the current thread in virtual time or run a scheduled event.
All choices come from one seeded generator or, when replaying, from a recorded list of
deviations from the default policy.
"""
import _thread
import os
import random
import sys
import traceback
import zlib

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread

SIM = None  # the active simulation, if any

READY, BLOCKED, DONE, DEAD = "ready", "blocked", "done", "dead"
FAIR_LIMIT = 400  # consecutive points of one thread before the default policy rotates


class SimStop(BaseException):
    """Raised inside harness code to finish the run."""


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, what, sig=None):
        super().__init__(what)
        self.what = what
        self.sig = sig or what


class SThread:
    __slots__ = ("tid", "name", "sem", "state", "deadline", "timedout", "proc",
                 "sentinel", "site", "prio", "wait", "ident")

    def __init__(self, tid, name, proc):
        self.tid = tid
        self.name = name
        self.proc = proc
        self.sem = _real_alloc()
        self.sem.acquire()
        self.state = READY
        self.deadline = None
        self.timedout = False
        self.sentinel = None
        self.site = ""
        self.prio = 0
        self.wait = ""
        self.ident = 0


class SProc:
    def __init__(self, pid, name, parent=None):
        self.pid = pid
        self.name = name
        self.parent = parent
        self.alive = True
        self.exitcode = None
        self.waiters = []
        self.threads = []
        self.queues = []      # per-process multiprocessing queue instances
        self.children = []    # (SProc, daemon)
        self.env = {}
        self.environ = None   # own copy of the environment variables once forked
        self.obj = None


class Sim:
    def __init__(self, seed, replay=None, opts=None):
        self.seed = seed
        self.opts = dict(opts or {})
        self.rng = random.Random("sched/%s" % seed)
        self.frng = random.Random("fault/%s" % seed)
        self.replay = replay
        self.dev = {}            # step -> decision taken (deviations only)
        self.fdev = {}           # fault op -> decision
        self.extra = {"sched": {}, "faults": {}}     # decisions of the native scheduler, keys start with "n"
        self.xreplay = None
        if replay is not None:
            self.xreplay = {a: {k: v for k, v in replay[a].items() if k[0] == "n"} for a in ("sched", "faults")}
            replay = {a: {k: v for k, v in replay[a].items() if k[0] != "n"} for a in ("sched", "faults")}
            self._rsteps = sorted(int(k) for k in replay["sched"])
            self._rsched = {int(k): v for k, v in replay["sched"].items()}
            self._rfault = {int(k): v for k, v in replay["faults"].items()}
            self._ri = 0
        self.steps = 0
        self.now = 0.0
        self.threads = []
        self.procs = []
        self.cur = None
        self.next_evt = 0
        self.events = []         # (step, callable) scheduled harness events, e.g. kills
        self.last_switch = 0
        self.switches = 0
        self.ihash = 0
        self.trace = [] if self.opts.get("trace") else None
        self.fault_ops = 0
        self.faults_on = False
        self.fault_rates = {}
        self.fault_budget = 0
        self.fired = {}
        self.thread_errors = []
        self.max_steps = self.opts.get("max_steps", 400000)
        self.max_time = self.opts.get("max_time", 1e7)
        self.on_finish = None
        self.lognote = []
        self.finished = False
        self.preempts = 0
        self.stalled = 0.0       # virtual time added by injected stalls
        self._setup_policy()

    # ------------------------------------------------------------- policy
    def _setup_policy(self):
        r = self.rng
        self.kind = self.opts.get("kind") or r.choice(["rw", "rw", "rw", "pct", "rr", "starve"])
        self.rate = self.opts.get("rate") or r.choice([0.003, 0.01, 0.03, 0.1, 0.3])
        self.stall_p = r.choice([0.0, 0.0, 0.02, 0.1])
        self.stall_max = r.choice([0.01, 1.0, 5.0, 45.0])
        if "stall_p" in self.opts:
            self.stall_p = self.opts["stall_p"]
        if "stall_max" in self.opts:
            self.stall_max = min(self.stall_max, self.opts["stall_max"])
        self.victim = r.randrange(1, 6)
        self._schedule_next()

    def _gap(self):
        # geometric gap with mean 1/rate
        u = self.rng.random()
        g = 1
        p = self.rate
        while u > p and g < 5000:
            u = (u - p) / (1 - p)
            g += 1
        return g

    def _schedule_next(self):
        if self.replay is not None:
            n = None
            while self._ri < len(self._rsteps):
                if self._rsteps[self._ri] > self.steps:
                    n = self._rsteps[self._ri]
                    break
                self._ri += 1
            nxt = n if n is not None else 1 << 60
        else:
            nxt = self.steps + self._gap()
        if self.events:
            nxt = min(nxt, max(self.events[0][0], self.steps + 1))
        self.next_evt = min(nxt, self.last_switch + FAIR_LIMIT + 1)
        if self.next_evt <= self.steps:
            self.next_evt = self.steps + 1

    def at_step(self, step, fn):
        """Run fn() in scheduler context (current thread) at the given step."""
        self.events.append((step, fn))
        self.events.sort(key=lambda e: e[0])
        self._schedule_next()

    # -------------------------------------------------------------- points
    def point(self, site):
        self.steps += 1
        self.now += 1e-6
        if self.steps >= self.next_evt:
            self._decide(site)

    def _limits(self):
        if self.steps > self.max_steps:
            self.finish("steplimit", self.blocked_report())
        if self.now > self.max_time:
            self.finish("timelimit", self.blocked_report())

    def _decide(self, site):
        cur = self.cur
        cur.site = site
        self._limits()
        while self.events and self.events[0][0] <= self.steps:
            _, fn = self.events.pop(0)
            fn()
        forced = self.steps - self.last_switch > FAIR_LIMIT
        default = self._rotate() if forced else cur
        if forced and default is cur:
            # busy waiting while everybody else sleeps: let time pass
            dl = min((t.deadline for t in self.threads if t.state == BLOCKED and t.deadline is not None), default=None)
            if dl is not None and dl > self.now:
                self.now = dl
                default = self._rotate()
        target = default
        if self.replay is not None:
            d = self._rsched.get(self.steps)
            if d is not None:
                self.dev[self.steps] = d
                if d[0] == "s":
                    self._do_stall(d[1], site)
                    return
                target = self._by_tid(d[1]) or default
        elif not (forced and self.kind != "rw"):
            r = self.rng
            if self.stall_p and r.random() < self.stall_p:
                d = ["s", round(r.random() * r.random() * self.stall_max, 6)]
                self.dev[self.steps] = d
                self._do_stall(d[1], site)
                return
            target = self._pick(preempt=True) or default
            if target is not default:
                self.dev[self.steps] = ["t", target.tid]
        if target is cur:
            if forced:
                self.last_switch = self.steps
            self._schedule_next()
            return
        self.preempts += 1
        self._switch(target, site)

    def _do_stall(self, d, site):
        self._count("stall")
        self.stalled += d
        self._schedule_next()
        self.block("stall:" + site, self.now + d)

    def _count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def _by_tid(self, tid):
        self._ready()
        if 0 <= tid < len(self.threads):
            t = self.threads[tid]
            if t.state == READY:
                return t
        return None

    def _ready(self):
        now = self.now
        out = []
        for t in self.threads:
            st = t.state
            if st == READY:
                out.append(t)
            elif st == BLOCKED and t.deadline is not None and t.deadline <= now:
                t.state = READY
                t.timedout = True
                t.deadline = None
                out.append(t)
        return out

    def _rotate(self):
        ready = self._ready()
        cur = self.cur
        for t in ready:
            if t.tid > cur.tid:
                return t
        return ready[0]

    def _pick(self, preempt):
        ready = self._ready()
        if not ready:
            return None
        if len(ready) == 1:
            return ready[0]
        k = self.kind
        r = self.rng
        if k == "rw":
            return ready[r.randrange(len(ready))]
        if k == "rr":
            cur = self.cur
            for t in ready:
                if t.tid > cur.tid:
                    return t
            return ready[0]
        if k == "starve":
            others = [t for t in ready if t.tid != self.victim]
            return others[r.randrange(len(others))] if others else ready[0]
        # pct: highest priority runs; at a change point the current one drops
        if preempt and r.random() < 0.2:
            self.cur.prio = -self.steps
        best = ready[0]
        for t in ready:
            if t.prio > best.prio:
                best = t
        return best

    # ------------------------------------------------------ switch / block
    def _note_switch(self, target, site):
        self.switches += 1
        self.last_switch = self.steps
        self.ihash = zlib.crc32(("%d>%d@%s" % (self.cur.tid, target.tid, site)).encode(), self.ihash)
        if self.trace is not None:
            self.trace.append((self.steps, self.cur.tid, target.tid, site, round(self.now, 6)))

    def _switch(self, target, site):
        cur = self.cur
        self._note_switch(target, site)
        self._schedule_next()
        self.cur = target
        target.sem.release()
        cur.sem.acquire()

    def _next_after_block(self, site):
        """Choose who runs when the current thread cannot."""
        self._limits()
        while True:
            ready = self._ready()
            if ready:
                break
            dl = None
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None:
                    if dl is None or t.deadline < dl:
                        dl = t.deadline
            if dl is None:
                self.finish("deadlock", self.blocked_report())
            if dl > self.now:
                self.now = dl
            self._limits()
        default = ready[0]
        if self.replay is not None:
            d = self._rsched.get(self.steps)
            target = self._by_tid(d[1]) if d is not None and d[0] == "t" else None
            if target is None:
                target = default
            else:
                self.dev[self.steps] = d
        else:
            target = self._pick(preempt=False) or default
            if target is not default:
                self.dev[self.steps] = ["t", target.tid]
        return target

    def block(self, what, deadline=None, wake=None):
        """Block the current thread until woken or the deadline passes.

        Returns True if woken, False on timeout."""
        cur = self.cur
        self.steps += 1
        cur.state = BLOCKED
        cur.deadline = deadline
        cur.timedout = False
        cur.wait = what
        while self.events and self.events[0][0] <= self.steps:
            _, fn = self.events.pop(0)
            fn()
        target = self._next_after_block(what)
        if target is cur:
            self._schedule_next()
        else:
            self._switch(target, what)
        cur.state = READY
        cur.wait = ""
        cur.deadline = None
        return not cur.timedout

    def make_ready(self, t):
        if t.state == BLOCKED:
            t.state = READY
            # a deadline that has passed wins, whether or not the scheduler looked yet
            t.timedout = t.deadline is not None and t.deadline <= self.now
            t.deadline = None

    # ------------------------------------------------------------- threads
    def new_thread(self, name, proc):
        t = SThread(len(self.threads), name, proc)
        t.prio = self.rng.random() if self.replay is None else 0
        self.threads.append(t)
        proc.threads.append(t)
        return t

    def start_thread(self, fn, args, kwargs, proc=None, name="thread"):
        t = self.new_thread(name, proc or self.cur.proc)

        def boot():
            nonlocal fn, args, kwargs
            t.sem.acquire()
            t.ident = _thread.get_ident()
            try:
                fn(*args, **kwargs)
            except SystemExit:
                pass
            except BaseException:
                self.thread_errors.append("".join(traceback.format_exc())[-2000:])
            # run pending destructors while this thread still holds the baton
            fn = args = kwargs = None
            self.thread_exit(t)

        _real_start(boot, ())
        self.point("thread-start")
        return t

    def thread_exit(self, t):
        t.state = DONE
        s = t.sentinel
        if s is not None and s._locked:
            s._locked = False
            s._wake()
        self.steps += 1
        target = self._next_after_block("exit")
        self._note_switch(target, "exit")
        self._schedule_next()
        self.cur = target
        target.sem.release()

    # ----------------------------------------------------------- processes
    def new_proc(self, name, parent=None):
        p = SProc(1000 + len(self.procs), name, parent)
        self.procs.append(p)
        return p

    def kill_proc(self, proc, exitcode=-9):
        """Stop all threads of a process at once; only durable state remains."""
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = exitcode
        for t in proc.threads:
            if t.state in (READY, BLOCKED):
                t.state = DEAD
                t.deadline = None
        for w in proc.waiters:
            self.make_ready(w)
        proc.waiters = []
        for c, daemon in proc.children:
            if daemon:
                self.kill_proc(c)
        cur = self.cur
        if cur.proc is proc and cur.state == DEAD:
            self.steps += 1
            target = self._next_after_block("killed")
            self._note_switch(target, "killed")
            self._schedule_next()
            self.cur = target
            target.sem.release()
            cur.sem.acquire()  # never returns

    # --------------------------------------------------------------- faults
    def fault(self, kinds, where):
        """Decide whether one of the fault kinds happens at this operation."""
        if not self.faults_on:
            return None
        self.fault_ops += 1
        if self.replay is not None:
            d = self._rfault.get(self.fault_ops)
            if d is None or d[0] not in kinds:
                return None
            self.fdev[self.fault_ops] = d
            self._count(d[0])
            self.lognote.append("fault %s at %s" % (d[0], where))
            return d
        if self.fault_budget <= 0:
            return None
        for k in kinds:
            rate = self.fault_rates.get(k, 0)
            if rate and self.frng.random() < rate:
                d = [k, self.frng.random()]
                self.fault_budget -= 1
                self.fdev[self.fault_ops] = d
                self._count(k)
                self.lognote.append("fault %s at %s" % (k, where))
                return d
        return None

    # --------------------------------------------------------------- finish
    def blocked_report(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state in (BLOCKED, READY):
                fr = frames.get(t.ident)
                stack = []
                while fr is not None:
                    fn = fr.f_code.co_filename
                    if "/vsim/" not in fn:
                        stack.append("%s:%d:%s" % (os.path.basename(fn), fr.f_lineno, fr.f_code.co_name))
                    fr = fr.f_back
                out.append({"tid": t.tid, "name": t.name, "proc": t.proc.name, "state": t.state,
                            "wait": t.wait, "site": t.site, "stack": stack[:9]})
        return out

    def finish(self, outcome, data=None):
        if self.finished:
            os._exit(3)
        self.finished = True
        self.on_finish(outcome, data)
        os._exit(0)

    def decisions(self):
        return {"sched": dict({str(k): v for k, v in self.dev.items()}, **self.extra["sched"]),
                "faults": dict({str(k): v for k, v in self.fdev.items()}, **self.extra["faults"])}


# ------------------------------------------------------------------- locks
_seq = [0]


def _next_seq():
    _seq[0] += 1
    return _seq[0]


class SimLock:
    """Drop-in for _thread.lock."""

    __slots__ = ("_locked", "_waiters", "_h", "_label", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []
        self._h = _next_seq()
        self._label = None

    def __hash__(self):
        return self._h

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if not blocking and timeout not in (-1, -1.0):
            raise ValueError("can't specify a timeout for a non-blocking call")
        if sim is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError("simulated lock contended outside a simulation")
            self._locked = True
            return True
        sim.point("acq")
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout < 0 else sim.now + timeout
        while self._locked:
            cur = sim.cur
            self._waiters.append(cur)
            woken = sim.block("lock", deadline)
            if not woken:
                if cur in self._waiters:
                    self._waiters.remove(cur)
                if self._locked:
                    return False
        self._locked = True
        return True

    def _wake(self):
        sim = SIM
        if sim is not None and self._waiters:
            ws = self._waiters
            self._waiters = []
            for t in ws:
                sim.make_ready(t)

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._wake()
        if SIM is not None:
            SIM.point("rel")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimGlobalLock:
    """Lock created at import time: every simulated process has its own state."""

    __slots__ = ("_by_pid", "_h", "__weakref__")

    def __init__(self):
        self._by_pid = {}
        self._h = _next_seq()

    def __hash__(self):
        return self._h

    def _l(self):
        pid = SIM.cur.proc.pid if SIM is not None else 0
        l = self._by_pid.get(pid)
        if l is None:
            l = self._by_pid[pid] = SimLock()
        return l

    def acquire(self, blocking=True, timeout=-1):
        return self._l().acquire(blocking, timeout)

    def release(self):
        return self._l().release()

    def locked(self):
        return self._l().locked()

    def _at_fork_reinit(self):
        self._by_pid = {}

    def __enter__(self):
        self._l().acquire()
        return True

    def __exit__(self, *a):
        self._l().release()


def allocate_lock():
    return SimLock() if SIM is not None else SimGlobalLock()


class SimSemaphore:
    """multiprocessing semaphore: shared by all simulated processes, survives kills."""

    def __init__(self, value=1, bound=None, label="sem"):
        self.value = value
        self.bound = bound
        self.waiters = []
        self.label = label

        outer = self

        class _SL:
            def _get_value(s):
                return outer.value

            def _is_mine(s):
                return True

        self._semlock = _SL()

    def acquire(self, block=True, timeout=None):
        sim = SIM
        sim.point("sem-acq")
        if self.value > 0:
            self.value -= 1
            return True
        if not block or (timeout is not None and timeout <= 0):
            return False
        deadline = None if timeout is None else sim.now + timeout
        while self.value <= 0:
            self.waiters.append(sim.cur)
            cur = sim.cur
            if not sim.block(self.label, deadline):
                if cur in self.waiters:
                    self.waiters.remove(cur)
                if self.value <= 0:
                    return False
        self.value -= 1
        return True

    def release(self):
        if self.bound is not None and self.value >= self.bound:
            raise ValueError("semaphore or lock released too many times")
        self.value += 1
        ws, self.waiters = self.waiters, []
        for t in ws:
            SIM.make_ready(t)
        SIM.point("sem-rel")

    def get_value(self):
        return self.value

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
