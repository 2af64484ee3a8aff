"""Runs a check: many seeded simulations in parallel, evidence, minimisation, replay files."""
import gc
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYSRC = os.path.join(REPO, "src", "python")

from . import core, patch, mpsim, fsim  # noqa: E402  (patches first)

REAL_TIME = patch.REAL_TIME
WALL_CAP = float(os.environ.get("VSIM_WALL_CAP", "90"))


# checks that run the C++ engine
NATIVE = {"C20", "C21", "C22", "C23", "C24", "C25", "C27", "C29", "C31", "C32"}


def load(check_name):
    sys.dont_write_bytecode = True
    if PYSRC not in sys.path:
        sys.path.insert(0, PYSRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if check_name.upper() in NATIVE:
        from nsim import glue
        glue.preload()
    from . import stubs
    stubs.install()
    mod = importlib.import_module("checks." + check_name.lower())
    fsim.install()
    n = patch.instrument(PYSRC + "/")
    if n < 20:
        raise RuntimeError("only %d code objects of the code under test were found" % n)
    import logging
    logging.disable(logging.CRITICAL)
    # log output is not observed; its import-time locks would be shared by all simulated processes
    logging._lock = patch.NoLock()
    logging.Handler.createLock = lambda self: setattr(self, "lock", patch.NoLock())
    for h in list(logging.root.handlers):
        h.createLock()
    if "deepgnn" in sys.modules and hasattr(sys.modules["deepgnn"], "get_logger"):
        sys.modules["deepgnn"].get_logger()
    gc.collect()
    gc.freeze()
    gc.disable()
    return mod.CHECK


def scratch_base():
    for d in ("/dev/shm", None):
        try:
            return tempfile.mkdtemp(prefix="vsim-", dir=d)
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def run_seed(prop, base_seed, i):
    h = hashlib.sha256(("%s/%s/%d" % (prop, base_seed, i)).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] >> 1


def make_cfg(check, seed, tier, index):
    rng = random.Random("cfg/%d" % seed)
    cfg = check.gen(rng, tier, index)
    return json.loads(json.dumps(cfg))


# ------------------------------------------------------------------ one run
def _child(check, cfg, seed, replay, scratch, wfd, trace):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get("VSIM_SHOW"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    os.makedirs(os.path.join(scratch, "tmp"), exist_ok=True)
    tempfile.tempdir = os.path.join(scratch, "tmp")
    fsim.set_root(scratch)
    opts = dict(cfg.get("sim") or {})
    if trace:
        opts["trace"] = True
    sim = core.Sim(seed, replay, opts)
    patch._names.n = 0
    core._seq[0] = 1_000_000
    random.seed(seed)
    try:
        import numpy as np
        np.random.seed(seed % (2 ** 32))
    except ImportError:
        pass
    info = {}
    sim.info = info
    sim.scratch = scratch

    def send(outcome, data=None):
        core.SIM = None
        native = patch.NATIVE
        if native is not None and native.result is None:
            native.collect()
        res = {"outcome": outcome, "steps": sim.steps, "switches": sim.switches, "preempts": sim.preempts,
               "ihash": sim.ihash, "sim_s": round(sim.now, 6), "fired": sim.fired, "threads": len(sim.threads),
               "procs": len(sim.procs), "info": info, "kind": sim.kind}
        if os.environ.get("VSIM_DEC"):
            res["decisions"] = sim.decisions()
        if outcome != "ok":
            res["data"] = data
            res["decisions"] = sim.decisions()
            res["notes"] = sim.lognote[-40:]
            res["thread_errors"] = sim.thread_errors[-4:]
        if sim.trace is not None:
            res["trace"] = sim.trace
        if os.environ.get("VSIM_ERRS"):
            res["thread_errors"] = sim.thread_errors[-6:]
        b = json.dumps(res, default=str).encode()
        off = 0
        while off < len(b):
            off += os.write(wfd, b[off:off + 65536])
        os.close(wfd)

    sim.on_finish = send
    p0 = sim.new_proc("main")
    t0 = sim.new_thread("main", p0)
    t0.ident = core._thread.get_ident()
    sim.cur = t0
    core.SIM = sim
    import threading
    threading._active[threading.get_ident()] = threading._main_thread
    threading._main_thread._vsim_t = t0
    try:
        instr = bool(cfg.get("instr"))
        if instr:
            patch.set_granularity(True)
        check.run(sim, cfg)
        sim.finish("ok")
    except core.Violation as v:
        sim.finish("violation", {"what": v.what, "sig": v.sig})
    except BaseException as e:
        tb = e.__traceback__
        inside = None
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(PYSRC):
                inside = "%s:%s" % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        txt = traceback.format_exc()[-3000:]
        msg = str(e)
        harness = re.search(r"\b(Sim[A-Z]\w+|Stub\w*|not simulated)\b", msg)
        if inside and not harness:
            sim.finish("violation", {"what": "unexpected %s: %s (raised through %s)\n%s" % (type(e).__name__, msg, inside, txt),
                                     "sig": "exception %s" % type(e).__name__})
        sim.finish("error", {"what": txt, "sig": "harness"})


def execute(check, cfg, seed, replay, scratch, trace=False, wall=None):
    """Fork one child, run the simulation there, return its result."""
    wall = wall or WALL_CAP
    scratch = scratch.ljust(72, "_")   # the length of paths is visible to the code under test
    os.makedirs(scratch, exist_ok=True)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            _child(check, cfg, seed, replay, scratch, w, trace)
        finally:
            os._exit(4)
    os.close(w)
    chunks = []
    deadline = REAL_TIME() + wall
    timed = False
    while True:
        left = deadline - REAL_TIME()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if timed:
        return {"outcome": "wall", "steps": 0, "info": {}, "fired": {}, "data": {"what": "wall clock cap", "sig": "wall"}}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"outcome": "crash", "steps": 0, "info": {}, "fired": {},
                "data": {"what": "child ended with status %s" % status, "sig": "crash"}}


def judge(check, cfg, res):
    """Map a raw outcome to ok / violation / error, with a stable signature."""
    o = res["outcome"]
    if o == "ok":
        return "ok", None, None
    if o == "violation":
        return "violation", res["data"]["sig"], res["data"]["what"]
    if o in ("deadlock", "steplimit", "timelimit"):
        phase = res["info"].get("phase", "?")
        if phase in check.stall_ok(cfg, res):
            return "stalled-ok", None, None
        word = {"deadlock": "nothing can make progress", "steplimit": "no progress within the step bound",
                "timelimit": "no progress within the simulated-time bound"}[o]
        what = "%s during '%s': %s" % (word, phase, json.dumps(res.get("data"))[:3000])
        for e in res.get("thread_errors") or []:
            what += "\nthread ended with: " + e[-600:]
        return "violation", "stuck during %s" % phase, what
    return "error", o, str((res.get("data") or {}).get("what"))


# -------------------------------------------------------------- worker loop
def _worker(check, wid, nworkers, base_seed, tier, start, stop, scratch, wfd):
    try:
        os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[wid % len(os.sched_getaffinity(0))]})
    except OSError:
        pass
    i = start + wid
    while i < stop:
        seed = run_seed(check.property, base_seed, i)
        cfg = make_cfg(check, seed, tier, i)
        t0 = REAL_TIME()
        res = execute(check, cfg, seed, None, os.path.join(scratch, "w%d-%d" % (wid, i)))
        if os.environ.get("VSIM_SLOW") and REAL_TIME() - t0 > float(os.environ["VSIM_SLOW"]):
            sys.stderr.write("run %d seed %d took %.1f s: %s\n" % (i, seed, REAL_TIME() - t0, {k: res.get(k) for k in ("steps", "switches", "outcome")}))
        st, sig, what = judge(check, cfg, res)
        res["status"], res["sig"], res["what"] = st, sig, what
        res["i"], res["seed"] = i, seed
        res["cfgd"] = hashlib.sha1(json.dumps(cfg, sort_keys=True).encode()).hexdigest()[:12]
        res["sc"] = cfg.get("sc", "main")
        if i < 6 or st not in ("ok", "stalled-ok"):
            res["cfg"] = cfg
        b = json.dumps(res).encode()
        os_write_all(wfd, struct.pack("<I", len(b)) + b)
        i += nworkers
    os._exit(0)


def os_write_all(fd, b):
    off = 0
    while off < len(b):
        off += os.write(fd, b[off:])


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status", "open") == "open":
                        out.append(d)
    return out


def match_known(known, sig, what):
    for k in known:
        if re.search(k["match"], (sig or "") + " | " + (what or ""), re.S):
            return k
    return None


class Campaign:
    def __init__(self, check, tier, seed):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.scratch = scratch_base()
        self.pids = []
        self.nworkers = int(os.environ.get("VSIM_WORKERS", "0")) or max(1, min(8, len(os.sched_getaffinity(0))))
        self.agg = {"runs": 0, "steps": 0, "switches": 0, "preempts": 0, "sim_s": 0.0, "fired": {}, "sc": {}, "kind": {},
                    "counters": {}, "stalled": 0, "status": {}, "faulted_runs": 0}
        self.interleavings = set()
        self.distinct = set()
        self.samples = []
        self.fail = []
        self.errors = []
        self.knownhits = {}

    def cleanup(self):
        for p in self.pids:
            for kill in (os.killpg, os.kill):
                try:
                    kill(p, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        self.pids = []
        shutil.rmtree(self.scratch, ignore_errors=True)

    def absorb(self, res, known):
        a = self.agg
        a["runs"] += 1
        for k in ("steps", "switches", "preempts"):
            a[k] += res.get(k, 0)
        a["sim_s"] += res.get("sim_s", 0)
        for k, v in (res.get("fired") or {}).items():
            a["fired"][k] = a["fired"].get(k, 0) + v
        if any(k != "stall" for k in (res.get("fired") or {})):
            a["faulted_runs"] += 1
        a["sc"][res["sc"]] = a["sc"].get(res["sc"], 0) + 1
        a["kind"][res.get("kind")] = a["kind"].get(res.get("kind"), 0) + 1
        a["status"][res["status"]] = a["status"].get(res["status"], 0) + 1
        info = res.get("info") or {}
        for k, v in (info.get("n") or {}).items():
            a["counters"][k] = a["counters"].get(k, 0) + v
        self.interleavings.add((res["cfgd"], res.get("ihash")))
        if info.get("nontrivial"):
            self.distinct.add((res["cfgd"], res.get("ihash"), json.dumps(res.get("fired"), sort_keys=True)))
        if "cfg" in res and len(self.samples) < 6 and res["status"] in ("ok", "stalled-ok"):
            self.samples.append({"run_seed": res["seed"], "config": res["cfg"], "steps": res.get("steps"),
                                 "context_switches": res.get("switches"), "sim_s": res.get("sim_s"),
                                 "faults": res.get("fired"), "observed": info.get("n")})
        if res["status"] == "violation":
            k = match_known(known, res["sig"], res["what"])
            if k is not None:
                self.knownhits[k["what"]] = self.knownhits.get(k["what"], 0) + 1
            else:
                self.fail.append(res)
        elif res["status"] == "error":
            self.errors.append(res)

    def run(self, max_runs, max_s, stop_after=1):
        known = known_findings(self.check.property)
        t0 = REAL_TIME()
        rfds = {}
        for wid in range(self.nworkers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                for fd in rfds:
                    os.close(fd)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    _worker(self.check, wid, self.nworkers, self.seed, self.tier, 0, max_runs, self.scratch, w)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(5)
            os.close(w)
            try:
                os.setpgid(pid, pid)   # also here: the group must exist before it is ever killed
            except OSError:
                pass
            self.pids.append(pid)
            rfds[r] = b""
        open_fds = set(rfds)
        while open_fds:
            left = t0 + max_s - REAL_TIME()
            if left <= 0:
                break
            rl, _, _ = select.select(list(open_fds), [], [], left)
            for fd in rl:
                b = os.read(fd, 1 << 20)
                if not b:
                    open_fds.discard(fd)
                    continue
                buf = rfds[fd] + b
                while len(buf) >= 4:
                    n = struct.unpack("<I", buf[:4])[0]
                    if len(buf) < 4 + n:
                        break
                    self.absorb(json.loads(buf[4:4 + n]), known)
                    buf = buf[4 + n:]
                rfds[fd] = buf
            if len(self.fail) >= stop_after or len(self.errors) >= 20:
                break
        for p in self.pids:
            for kill in (os.killpg, os.kill):
                try:
                    kill(p, signal.SIGKILL)
                except OSError:
                    pass
        for p in self.pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        self.pids = []
        for fd in rfds:
            os.close(fd)
        # children of killed workers are in the same process group
        self.wall = REAL_TIME() - t0

    # ------------------------------------------------------------ minimise
    def minimise(self, res, budget_s):
        cfg, seed, sig = res["cfg"], res["seed"], res["sig"]
        t0 = REAL_TIME()
        n = [0]

        def attempt(c, dec):
            n[0] += 1
            r = execute(self.check, c, seed, dec, os.path.join(self.scratch, "m%d" % n[0]), wall=30)
            st, s, what = judge(self.check, c, r)
            return r if st == "violation" and s == sig else None

        cur = res["decisions"]
        got = attempt(cfg, cur)
        if got is None:
            return None
        cur, last = got["decisions"], got

        def items(d):
            return [("sched", k, v) for k, v in d["sched"].items()] + [("faults", k, v) for k, v in d["faults"].items()]

        def build(its):
            d = {"sched": {}, "faults": {}}
            for a, k, v in its:
                d[a][k] = v
            return d

        its = items(cur)
        empty = attempt(cfg, build([]))
        if empty is not None:
            its, last = [], empty
        gran = 2
        while its and REAL_TIME() - t0 < budget_s and n[0] < 400:
            size = max(1, len(its) // gran)
            reduced = False
            for i in range(0, len(its), size):
                cand = its[:i] + its[i + size:]
                g = attempt(cfg, build(cand))
                if g is not None:
                    its, last = cand, g
                    gran = max(gran - 1, 2)
                    reduced = True
                    break
                if REAL_TIME() - t0 > budget_s or n[0] > 400:
                    break
            if not reduced:
                if size == 1:
                    break
                gran = min(len(its), gran * 2)
        # configuration shrinking keeps the schedule
        for c in self.check.shrink(cfg):
            if REAL_TIME() - t0 > budget_s:
                break
            g = attempt(c, build(its))
            if g is not None:
                cfg, last = c, g
        return cfg, build(its), last, n[0]


def repo_digest():
    h = hashlib.sha1()
    src = os.path.dirname(PYSRC)
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".py", ".cc", ".h", ".proto")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, src).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def main(check_name, argv=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t_all = REAL_TIME()
    check = load(check_name)
    prop = check.property
    camp = Campaign(check, tier, seed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    code = 2
    try:
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        runs, secs = check.budget(tier)
        if os.environ.get("VSIM_RUNS"):
            runs = int(os.environ["VSIM_RUNS"])
        if os.environ.get("VSIM_SECS"):
            secs = float(os.environ["VSIM_SECS"])
        camp.run(runs, secs)
        if os.environ.get("VSIM_PROBE"):
            first = (camp.fail or camp.errors or [{"what": ""}])[0]
            print("probe: %s after %d runs: %s %s" % ("fail" if camp.fail else "error" if camp.errors else "quiet", camp.agg["runs"],
                                                      first.get("sig"), first["what"][:300]))
            return 1 if camp.fail else 2 if camp.errors else 0
        violations = []
        unrepro = []
        for res in camp.fail[:3]:
            out = report(check, camp, res)
            if out is not None:
                violations.append(out)
                break
            unrepro.append(res)
        write_evidence(check, camp, tier, seed, violations, REAL_TIME() - t_all)
        for what, n in sorted(camp.knownhits.items()):
            print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, what, n))
        a = camp.agg
        print("%s: %d runs, %d distinct interleavings, %.0f simulated seconds, faults %s, status %s, %.1f s" % (
            prop, a["runs"], len(camp.interleavings), a["sim_s"], json.dumps(a["fired"], sort_keys=True),
            json.dumps(a["status"], sort_keys=True), camp.wall))
        if violations:
            v = violations[0]
            print("  " + v["what"].replace("\n", "\n  ")[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            code = 1
        elif unrepro:
            print("ERROR: a failing run did not reproduce from its own decisions: %s" % unrepro[0]["what"][:2000])
            code = 2
        elif camp.errors:
            print("ERROR: %d harness errors, first (seed %s, index %s): %s" % (
                len(camp.errors), camp.errors[0]["seed"], camp.errors[0]["i"], camp.errors[0]["what"]))
            code = 2
        elif a["runs"] < check.min_runs:
            print("ERROR: only %d runs finished" % a["runs"])
            code = 2
        else:
            code = 0
    finally:
        camp.cleanup()
    sys.stdout.flush()
    return code


def report(check, camp, res):
    m = camp.minimise(res, check.minimise_s)
    if m is None:
        return None
    cfg, dec, last, tries = m
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (check.property, res["seed"]))
    what = judge(check, cfg, last)[2]
    body = {"property": check.property, "check": type(check).__module__.split(".")[-1], "seed": res["seed"], "config": cfg,
            "decisions": dec, "signature": res["sig"], "what": what, "faults_fired": last.get("fired"),
            "notes": last.get("notes"), "thread_errors": last.get("thread_errors"),
            "original_decisions": len(res["decisions"]["sched"]) + len(res["decisions"]["faults"]),
            "minimised_decisions": len(dec["sched"]) + len(dec["faults"]), "minimiser_runs": tries}
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "vcheck_run.py"), "--replay", path],
                       capture_output=True, text=True, timeout=120, env=dict(os.environ, VSIM_NO_REEXEC="1"))
    if r.returncode != 1 or ("REPRODUCED %s" % res["sig"]) not in r.stdout:
        # fall back to the full recorded schedule
        body["decisions"] = res["decisions"]
        body["config"] = res["cfg"]
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "vcheck_run.py"), "--replay", path],
                           capture_output=True, text=True, timeout=120, env=dict(os.environ, VSIM_NO_REEXEC="1"))
        if r.returncode != 1:
            return None
    return {"what": what, "replay": path, "sig": res["sig"], "seed": res["seed"]}


def replay(path):
    with open(path) as f:
        body = json.load(f)
    check = load(body["check"])
    base = scratch_base()
    try:
        res = execute(check, body["config"], body["seed"], body["decisions"], os.path.join(base, "r"), trace=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    st, sig, what = judge(check, body["config"], res)
    print("faults fired: %s" % json.dumps(res.get("fired")))
    for n in res.get("notes") or []:
        print("  " + n)
    for t in (res.get("trace") or [])[-60:]:
        print("  step %d: thread %d -> %d at %s (t=%.6f)" % tuple(t))
    print("trace digest: steps=%s switches=%s interleaving=%s" % (res.get("steps"), res.get("switches"), res.get("ihash")))
    for e in res.get("thread_errors") or []:
        print("  thread error: " + e)
    if st == "violation":
        print("REPRODUCED %s" % sig)
        print(what)
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("not reproduced: %s %s" % (st, what))
    return 0 if st in ("ok", "stalled-ok") else 2


def write_evidence(check, camp, tier, seed, violations, wall):
    a = camp.agg
    ev = {
        "property": check.property, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a["runs"],
            "distinct_nontrivial": len(camp.distinct),
            "rule": check.rule,
            "samples": camp.samples,
            "runs_per_hour": round(a["runs"] / max(camp.wall, 1e-9) * 3600),
            "simulated_seconds": round(a["sim_s"], 3),
            "scheduling_points": a["steps"],
            "context_switches": a["switches"],
            "preemptions": a["preempts"],
            "distinct_interleavings": len(camp.interleavings),
            "interleaving_measure": "distinct pairs of configuration digest and CRC of the ordered list of context switches (from, to, site)",
            "faults_fired": dict(sorted(a["fired"].items())),
            "runs_with_injected_faults": a["faulted_runs"],
            "runs_by_scenario": dict(sorted(a["sc"].items())),
            "runs_by_scheduler": {str(k): v for k, v in sorted(a["kind"].items(), key=str)},
            "observations": dict(sorted(a["counters"].items())),
            "run_outcomes": dict(sorted(a["status"].items())),
            "components_real": check.real, "components_stubbed": check.stubbed,
            "workers": camp.nworkers, "source_digest": repo_digest(),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": [{"replay": v["replay"], "what": v["what"][:2000], "signature": v["sig"], "seed": v["seed"]} for v in violations],
    }
    p = os.path.join(VERIF, "evidence", check.property + ".json")
    tmp = p + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, p)


class Check:
    """Base class of the checks."""
    property = None
    rule = ""
    real = []
    stubbed = []
    assumptions = []
    min_runs = 20
    minimise_s = 45

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def run(self, sim, cfg):
        raise NotImplementedError

    def stall_ok(self, cfg, res):
        return ()

    def shrink(self, cfg):
        return ()

    def budget(self, tier):
        return (1_000_000, 40) if tier == "quick" else (10_000_000, 400)
