"""C11: an interrupted conversion never passes for a complete graph."""
import json
import multiprocessing
import os
import struct

from vsim import core, mpsim, fsim
from vsim.runner import Check
from vsim.core import Violation
from . import convert_lib as V
from .reader_lib import expect

WRITE_FAULTS = ["write:eio", "write:enospc", "write:short", "open:eio", "open:enospc", "open:eacces", "open:emfile", "remove:eio", "read:eio",
                "read:short", "mkdir:enospc"]


class C11(Check):
    property = "C11"
    rule = ("each run converts a graph once without faults to learn its length, then again into another folder (sometimes one holding an older "
            "graph) while the process, one partition process or everything is killed at a drawn step or file operations fail, then inspects "
            "the folder and repeats the conversion; non-trivial = the interruption or a fault fired before the conversion finished; distinct "
            "by configuration digest, switch sequence and fired faults")
    real, stubbed, assumptions = V.REAL, V.STUBBED, V.ASSUME

    def gen(self, rng, tier, index):
        sc = rng.choice(["kill", "kill", "kill", "worker", "fault", "fault"])
        modes = ["default", "default", "pipe_thread", "pipe_proc", "queue_proc", "queue_thread"]
        if sc == "worker":
            modes = ["pipe_proc", "queue_proc"]
        cfg = V.gen_cfg(rng, maxn=8, modes=modes, maxfiles=2)
        cfg["mode"] = cfg["sc"]
        cfg["kill"] = sc
        cfg["frac"] = rng.choice([rng.random(), rng.random(), 0.8 + 0.22 * rng.random(), 0.97 + 0.04 * rng.random()])
        cfg["victim"] = rng.randrange(4)
        cfg["orphans"] = rng.random() < 0.5
        cfg["stale"] = None
        if cfg["sc"] == "default" and rng.random() < 0.45:
            cfg["stale"] = V.gen_graph(rng, cfg["dec"], cfg["temporal"] and cfg["dec"] != "tsv", 6)
        if sc == "fault":
            kinds = rng.sample(WRITE_FAULTS, rng.choice([1, 1, 2, 4]))
            cfg["rates"] = {k: rng.choice([0.01, 0.05, 0.2, 0.6]) for k in kinds}
            cfg["budget"] = rng.choice([1, 1, 2, 5])
            cfg["late"] = rng.random() < 0.4
        cfg["buf"] = rng.choice([16, 64, 256, 8192])
        cfg["sim"]["max_steps"] = 4000000
        cfg["label"] = sc
        return cfg

    def complete(self, cfg, out, order):
        """None if the folder holds exactly this graph, else the reason."""
        want = V.assign(cfg, order)
        try:
            meta = V.parse_meta(out)
        except V.Bad as e:
            return "unreadable", str(e)
        try:
            nt, et = V.check_meta(cfg, out, want, meta)
            V.check_content(cfg, out, want)
            V.check_alias(cfg, out, want, nt, et)
        except Violation as v:
            return "partial", v.what
        except (KeyError, TypeError, struct.error, IndexError) as e:
            return "partial", repr(e)
        return None, None

    def attempt(self, sim, cfg, path, out):
        p = multiprocessing.Process(target=V.convert, args=(cfg, path, out))
        p.start()
        return p

    def run(self, sim, cfg):
        info = sim.info
        n = info["n"] = {"lines": 0, "interrupted": 0, "reported_success": 0, "stalled": 0, "unreadable": 0, "complete": 0}
        fsim.BUFSZ[0] = cfg["buf"]
        info["phase"] = "reference"
        path, out, order = V.prepare(sim, cfg)
        n["lines"] = len(order)
        ref = out + "-ref"
        oldpath = None
        with V.offline():
            os.makedirs(ref)
        s0 = sim.steps
        V.convert(cfg, path, ref)
        length = sim.steps - s0
        with V.offline():
            why, txt = self.complete(cfg, ref, order)
            expect(why is None, "undisturbed conversion is wrong: %s" % txt, "undisturbed conversion")
            reftree = V.tree(ref, set(V.assign(cfg, order)))
        oldcfg = oldorder = None
        if cfg["stale"] is not None:
            oldcfg = json.loads(json.dumps(cfg))
            oldcfg["nodes"] = cfg["stale"]
            oldcfg["files"] = [{"name": "old.txt", "lo": 0, "hi": len(cfg["stale"]), "eol": "\n", "tail": True}]
            files, oldorder = V.file_entries(oldcfg, V.grouped_items(oldcfg))
            from . import reader_lib as R
            oldpath = R.put_files(sim, files, "dir", "olddata")
            V.convert(oldcfg, oldpath, out)
        info["phase"] = "attempt"
        start = sim.steps
        state = {"done": False}

        def kill():
            if state["done"]:
                return
            p = state.get("p")
            if p is None or not p._sp.alive:
                return
            if cfg["kill"] == "worker":
                ch = [c for c, _ in p._sp.children if c.alive]
                if not ch:
                    return
                n["interrupted"] += 1
                sim._count("kill:worker")
                mpsim.proc_killed(ch[cfg["victim"] % len(ch)], -9)
                return
            n["interrupted"] += 1
            sim._count("kill:converter")
            ch = [c for c, _ in p._sp.children]
            victims = [p._sp] if cfg["orphans"] else ch + [p._sp]
            # the thread running this callback may belong to a victim: kill that process last
            victims.sort(key=lambda q: q is sim.cur.proc)
            for q in victims:
                mpsim.proc_killed(q, -9)

        if cfg["kill"] == "fault":
            sim.fault_rates, sim.fault_budget = cfg["rates"], cfg["budget"]
            sim.fault_filter = lambda op, p: p.startswith(out) or p.startswith(os.path.join(sim.scratch, "tmp")) or op == "read"
            if cfg["late"]:
                def on():
                    sim.faults_on = not state["done"]
                sim.at_step(start + int(cfg["frac"] * length), on)
            else:
                sim.faults_on = True
        else:
            sim.at_step(start + 1 + int(cfg["frac"] * length), kill)
        p = self.attempt(sim, cfg, path, out)
        state["p"] = p
        while True:
            p.join(timeout=1000)
            if not p._sp.alive or not any(t is not sim.cur and (t.state == core.READY or (t.state == core.BLOCKED and t.deadline is not None))
                                          for t in sim.threads):
                break
        state["done"] = True
        sim.faults_on = False
        sim.__dict__["disk_full"] = False
        fired = n["interrupted"] or sum(v for k, v in sim.fired.items() if k != "stall")
        if p._sp.alive:
            expect(fired, "conversion never finished although nothing was injected: %s" % (sim.blocked_report(),), "stuck without faults")
            n["stalled"] += 1
        ok = not p._sp.alive and p.exitcode == 0
        for q in list(sim.procs):
            if q.pid != 1000 and q.alive:
                mpsim.proc_killed(q, -9)
        info["phase"] = "inspect"
        with V.offline():
            why, txt = self.complete(cfg, out, order)
            if ok:
                n["reported_success"] += 1
                expect(why is None, "conversion reported success but the graph is not complete: %s (faults %s)" % (txt, sim.fired),
                       "success but incomplete")
            elif why == "partial":
                if oldcfg is not None and self.complete(oldcfg, out, oldorder)[0] is None:
                    n["complete"] += 1
                else:
                    raise Violation("the interrupted conversion left readable metadata over incomplete data: %s" % txt, "passes for complete")
            n["unreadable" if why == "unreadable" else "complete"] += why != "partial"
        info["phase"] = "retry"
        p = self.attempt(sim, cfg, path, out)
        p.join()
        expect(p.exitcode == 0, "repeating the conversion failed: %s" % (sim.thread_errors[-1:],), "retry failed")
        with V.offline():
            why, txt = self.complete(cfg, out, order)
            expect(why is None, "after repeating the conversion the graph is wrong: %s" % txt, "retry incomplete")
            t = V.tree(out)
            for name, b in reftree.items():
                expect(t.get(name) == b, "file %s after the retry differs from a conversion into an empty folder" % name, "retry differs")
        info["nontrivial"] = bool(fired)


CHECK = C11()
