"""Python side of the native simulator: loads the library, starts and ends a native run, maps results and decisions."""
import bisect
import ctypes
import json
import os
import re
import subprocess
import sys

LIB = None
PATH = None
_syms = None
_keep = []
CB = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p)
KINDS = ["net.unavailable", "net.status", "net.lost_reply", "net.reset", "net.slow_request", "net.slow_reply",
         "disk.open", "disk.read", "disk.short_read", "thread.create",
         "hdfs.connect", "hdfs.list", "hdfs.info", "hdfs.open", "hdfs.read", "hdfs.short_read", "hdfs.slow"]


class KeepCDLL(ctypes.CDLL):
    """Threads of a run may stand for processes: descriptions of functions replaced by one of them stay valid for the others."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)

        class Func(self._FuncPtr):
            _flags_ = self._FuncPtr._flags_
            _restype_ = self._FuncPtr._restype_

            def __setattr__(self, key, value):
                _keep.append(value)
                super().__setattr__(key, value)
        self._FuncPtr = Func


def preload():
    """Build (if needed) and load the engine; has to happen before numpy loads the system C++ library."""
    global LIB, PATH
    if LIB is not None:
        return
    if "numpy" in sys.modules:
        raise RuntimeError("the native library has to be loaded before numpy")
    # in a process of its own: threads of this process are simulated
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run([sys.executable, os.path.join(here, "build.py")], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError("the engine does not build:\n" + r.stdout[-3000:])
    PATH = r.stdout.split()[-1]
    ctypes.CDLL = KeepCDLL
    LIB = ctypes.CDLL(PATH)
    LIB.nsim_set.argtypes = [ctypes.c_char_p, ctypes.c_double]
    LIB.nsim_kind.argtypes = [ctypes.c_char_p, ctypes.c_double]
    LIB.nsim_begin.argtypes = [ctypes.c_uint64, CB]
    LIB.nsim_result.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    LIB.nsim_result.restype = ctypes.c_size_t
    LIB.nsim_data_dir.argtypes = [ctypes.c_char_p]
    LIB.nsim_hdfs.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
    LIB.nsim_replay_sched.argtypes = [ctypes.c_uint64, ctypes.c_int]
    LIB.nsim_replay_fault.argtypes = [ctypes.c_uint64, ctypes.c_char_p, ctypes.c_double]
    LIB.nsim_now.restype = ctypes.c_int64
    LIB.nsim_sleep.argtypes = [ctypes.c_double]
    LIB.nsim_server_down.argtypes = [ctypes.c_char_p, ctypes.c_int]
    LIB.nsim_server_inflight.argtypes = [ctypes.c_char_p]
    os.environ["SNARK_LIB_PATH"] = PATH


def symbolise(text):
    """Replace the code offsets at the end of a message by function names."""
    global _syms
    m = re.search(r"stack:((?: [0-9a-f]+)+)", text)
    if not m:
        return text, []
    if _syms is None:
        with open(PATH + ".syms") as f:
            _syms = sorted((a, n) for a, n in json.load(f))
    names = []
    for x in m.group(1).split():
        i = bisect.bisect_right(_syms, (int(x, 16), "\xff")) - 1
        n = _syms[i][1] if i >= 0 else "?"
        names.append(re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", n))))
    return text[:m.start()] + "stack: " + " < ".join(names), names


class Native:
    """One native run inside one simulated run."""

    def __init__(self, sim, opts):
        self.sim = sim
        self.on_fatal = None      # check hook: (kind, text) -> (outcome, data) or None
        self.result = None
        L = self.L = LIB
        L.nsim_reset_config()
        base = dict(p_mem=1e-4, p_hot=0, p_stall=0, p_sync=0.05, p_block=0.5, max_steps=3e7, nprocs=2, fault_budget=0, faults=0)
        rates = opts.get("rates") or {}
        base.update({k: v for k, v in opts.items() if k != "rates"})
        for k, v in base.items():
            L.nsim_set(k.encode(), float(v))
        for k in KINDS:
            L.nsim_kind(k.encode(), float(rates.get(k, 0.0)))
        x = sim.xreplay
        if x is not None:
            L.nsim_set(b"replay", 1.0)
            for k, v in x["sched"].items():
                L.nsim_replay_sched(int(k[1:]), int(v))
            for k, v in x["faults"].items():
                L.nsim_replay_fault(int(k[1:]), v[0].encode(), float(v[1]))
        L.nsim_data_dir(os.path.join(sim.scratch, "").encode())

    def begin(self):
        from vsim import core, patch
        core.SIM = None
        patch.NATIVE = self
        cb = CB(self._fatal)
        _keep.append(cb)
        self.L.nsim_begin(self.sim.seed & 0xffffffffffff, cb)

    def end(self):
        from vsim import core, patch
        self.collect()
        self.L.nsim_end()
        patch.NATIVE = None
        core.SIM = self.sim

    def fired(self):
        """Names of the faults that fired so far."""
        return {k for k in KINDS if self.L.nsim_fired(k.encode())}

    def faults(self, on):
        self.L.nsim_set(b"faults", 1.0 if on else 0.0)

    def collect(self):
        b = ctypes.create_string_buffer(1 << 20)
        n = self.L.nsim_result(b, len(b))
        if n > len(b):
            b = ctypes.create_string_buffer(n + 16)
            self.L.nsim_result(b, len(b))
        r = self.result = json.loads(b.value.decode("utf-8", "replace"))
        s = self.sim
        s.extra = {"sched": {"n" + k: v for k, v in r["sched"].items()}, "faults": {"n" + k: v for k, v in r["faults"].items()}}
        s.steps += r["steps"]
        s.switches += r["switches"]
        s.preempts += r["preempts"]
        s.ihash = (s.ihash * 1000003 + r["ihash"]) & 0xffffffffffffffff
        s.now += r["now"] / 1e9
        for k, v in r["fired"].items():
            s.fired[k] = s.fired.get(k, 0) + v
        s.lognote += ["log %s" % l for l in r["logs"][-20:]]
        s.kind = "native"
        return r

    def _fatal(self, kind, msg):
        from vsim import core
        core.SIM = None
        kind, text = kind.decode(), msg.decode("utf-8", "replace")
        text, names = symbolise(text)
        self.collect()
        if self.on_fatal is not None:
            r = self.on_fatal(kind, text)
            if r is not None:
                self.sim.finish(*r)
        if kind in ("deadlock", "steplimit"):
            self.sim.finish(kind, text)
        if kind in ("harness",):
            self.sim.finish("error", {"what": text, "sig": "harness"})
        word = re.match(r"[a-zA-Z -]*", text).group(0).strip().split(":")[0][:40]
        self.sim.finish("violation", {"what": "%s: %s" % (kind, text), "sig": "%s %s" % (kind, word)})

    # ------------------------------------------------------------ threads
    def thread(self, fn, *args):
        """Start a Python thread that takes part in the native schedule; returns an id to join."""
        from vsim import core
        tid = self.L.nsim_thread_new()
        err = []

        def body():
            self.L.nsim_thread_begin(tid)
            try:
                fn(*args)
            except BaseException as e:     # noqa: B902
                err.append(e)
            self.L.nsim_thread_end()
            # Keep the stack: the time of the real exit must not matter to the run.
            park.acquire()
        park = core._real_alloc()
        park.acquire()
        core._real_start(body, ())
        return tid, err

    def now(self):
        return self.L.nsim_now() / 1e9

    def sleep(self, s):
        self.L.nsim_sleep(float(s))

    def join(self, t):
        self.L.nsim_thread_join(t[0])
        if t[1]:
            raise t[1][0]
