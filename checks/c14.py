"""C14: automatic discovery of server addresses."""
import os
import threading
import time

from vsim.runner import Check
from . import sync_lib as S
from .sync_lib import expect


class C14(Check):
    property = "C14"
    launchers = None
    rule = ("each run draws a job of 1-6 workers (launcher kind, hosts, assignment of server indexes to workers, start delays, directory listing order) "
            "without server addresses and a schedule of all its processes; non-trivial = at least two workers; distinct by configuration digest "
            "and switch sequence")
    real, stubbed, assumptions = S.REAL, S.STUBBED, S.ASSUME

    def gen(self, rng, tier, index):
        timeout = rng.choice([10, 30, 100])
        cfg = {"timeout": timeout, "job": S.gen_job(rng, maxworkers=rng.choice([2, 3, 4, 6]), discover=True), "parts": rng.choice([1, 2, 3, 5])}
        n = len(cfg["job"]["workers"])
        cfg["begin"] = [rng.choice([0, 0, 0.3, 1.5, timeout * 0.3]) for _ in range(n)]
        cfg["start_delay"] = {str(i): rng.choice([0, 0, 0.7]) for i in range(n)}
        cfg["stale"] = rng.random() < 0.1
        cfg["sim"] = {"max_steps": 600000, "max_time": 1e6, "dirseed": rng.randrange(1 << 30)}
        if rng.random() < 0.5:
            cfg["sim"]["stall_max"] = 0.3
        cfg["label"] = cfg["job"]["launcher"]
        return cfg

    def run(self, sim, cfg):
        job = cfg["job"]
        n = len(job["workers"])
        world = S.World(sim, cfg["timeout"])
        data = S.graph_folder(sim, cfg["parts"])
        model = os.path.join(sim.scratch, "model")
        os.makedirs(model)
        if cfg["stale"]:
            # unrelated files of the training run in the same folder
            for d in ("sync/addresses", "sync/workers", "sync"):
                os.makedirs(os.path.join(model, d), exist_ok=True)
                with open(os.path.join(model, d, "notes.txt"), "w") as f:
                    f.write("x")
        engine = sim.__dict__["engine"] = S.Engine(world, cfg, data)
        got, late = {}, {}
        sim.info["n"] = {"workers": n, "servers": S.nservers(job), "timeouts": 0}
        sim.info["phase"] = "discovery"

        def work(i):
            if cfg["begin"][i]:
                time.sleep(cfg["begin"][i])
            o = S.options(data, model, job, i, cfg["timeout"])
            b = None
            try:
                b = S.SnarkDistributedBackend(o)
                if S.alone(job):
                    S.barrier(world, "registered", n)
                S.use(b, 1, 0)
                got[i] = list(o.servers)
                b.close()
            except (TimeoutError, OSError, threading.BrokenBarrierError) as e:
                late[i] = "%.1f s: %r" % (sim.now, e)
                S.abort(world)
                if b is not None:
                    b.close()

        procs = S.start_workers(job, work)
        for p in procs:
            p.join()
        excuse = 2 + max(cfg["begin"]) + S.stall_slack(sim) >= cfg["timeout"] * 0.6
        if excuse:
            # some worker may legitimately have been too late for the others
            sim.info["n"]["timeouts"] = len(late)
            if len(got) < n:
                return
        expect(not late, "workers %s of a %s job failed (%s) although all started within %s s of a timeout of %s s" % (
            sorted(late), job["launcher"], S.short(late), max(cfg["begin"]), cfg["timeout"]), "discovery failed in time")
        expect(len(got) == n, "discovery failed on workers %s of a %s job: %s" % (sorted(set(range(n)) - set(got)), job["launcher"],
                                                                             sim.thread_errors[-1:]), "discovery failed")
        S.check_lists(sim, job, engine, got)
        for i, p in enumerate(procs):
            expect(p.exitcode == 0, "worker %d failed: %s" % (i, sim.thread_errors[-1:]), "worker failed")
        if not excuse:
            world.check()
        sim.info["nontrivial"] = n >= 2

    def shrink(self, cfg):
        z = [0] * len(cfg["begin"])
        if cfg["begin"] != z:
            yield dict(cfg, begin=z)
        if any(cfg["start_delay"].values()):
            yield dict(cfg, start_delay={k: 0 for k in cfg["start_delay"]})
        if cfg["stale"]:
            yield dict(cfg, stale=False)


CHECK = C14()
