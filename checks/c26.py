"""C26: every partition of the graph is served exactly once."""
import os
import time

from vsim.runner import Check
from . import sync_lib as S
from .sync_lib import expect


class C26(Check):
    property = "C26"
    rule = ("each run draws a job (launcher kind, hosts, workers per host, given or discovered addresses, 1-9 graph partitions) and a schedule of its "
            "processes; non-trivial = at least two workers; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = S.REAL, S.STUBBED, S.ASSUME

    def gen(self, rng, tier, index):
        cfg = {"timeout": 1000, "job": S.gen_job(rng, maxworkers=rng.choice([1, 3, 4, 6])), "parts": rng.choice([1, 2, 3, 4, 5, 9])}
        n = len(cfg["job"]["workers"])
        cfg["begin"] = [rng.choice([0, 0, 0.3, 1.5]) for _ in range(n)]
        cfg["start_delay"] = {str(i): rng.choice([0, 0, 0.7]) for i in range(n)}
        cfg["sim"] = {"max_steps": 600000, "max_time": 1e6, "dirseed": rng.randrange(1 << 30), "stall_max": 1.0}
        cfg["label"] = cfg["job"]["launcher"]
        return cfg

    def run(self, sim, cfg):
        job = cfg["job"]
        n = len(job["workers"])
        world = S.World(sim, cfg["timeout"])
        data = S.graph_folder(sim, cfg["parts"])
        model = os.path.join(sim.scratch, "model")
        os.makedirs(model)
        engine = sim.__dict__["engine"] = S.Engine(world, cfg, data)
        done, hosts = {}, {}
        sim.info["phase"] = "job"

        def work(i):
            if cfg["begin"][i]:
                time.sleep(cfg["begin"][i])
            o = S.options(data, model, job, i, cfg["timeout"])
            before = list(job["hosts"])
            b = S.SnarkDistributedBackend(o)
            S.barrier(world, "registered", n)
            b.graph
            hosts[i] = (before, list(getattr(o, "worker_hosts", None) or before))
            done[i] = list(o.servers)
            S.barrier(world, "used", n)
            b.close()

        procs = S.start_workers(job, work)
        for i, p in enumerate(procs):
            p.join()
            expect(p.exitcode == 0 and i in done, "worker %d of a %s job failed: %s" % (i, job["launcher"], sim.thread_errors[-1:]), "worker failed")
        world.check()
        sim.info["n"] = {"workers": n, "servers": len(engine.order), "partitions": cfg["parts"]}
        if job["launcher"] == "cli":
            for addr, who in engine.order:
                expect(job["workers"][who]["server"] >= 0, "worker %d must not start a server" % who, "unexpected server")
        per = {}
        for addr, who in engine.order:
            h = who if job["launcher"] == "cli" else job["workers"][who]["host"] if job["workers"][who]["host"] != "localhost" else self.host(job, who)
            per[h] = per.get(h, 0) + 1
        want = {(i if job["launcher"] == "cli" else self.host(job, i)) for i in range(n) if job["launcher"] != "cli" or job["workers"][i]["server"] >= 0}
        expect(per == {h: 1 for h in want}, "servers per host are %s in a %s job on %s" % (per, job["launcher"], sorted(map(str, want))),
               "not one server per host")
        for i in range(n):
            con = [a for w, a in engine.connected if w == i]
            expect(len(con) == 1, "worker %d connected %d times" % (i, len(con)), "not connected once")
            loaded = sorted(p for a in con[0] for p in engine.partitions.get(a, []))
            expect(loaded == list(range(cfg["parts"])), "the servers of worker %d in a %s job load the partitions %s of %d (%s)" % (
                i, job["launcher"], loaded, cfg["parts"], S.short(engine.partitions)), "partition not loaded exactly once")
        for i in hosts:
            expect(hosts[i][0] == hosts[i][1], "worker %d's own list of hosts changed from %s to %s" % (i, hosts[i][0], hosts[i][1]),
                   "launcher settings changed")
        sim.info["nontrivial"] = n >= 2

    def host(self, job, i):
        if job["hosts"]:
            return job["hosts"][i].rsplit(":", 1)[0]
        return "10.0.0.%d" % (i // job["workers"][i]["per"] + 1)

    def shrink(self, cfg):
        z = [0] * len(cfg["begin"])
        if cfg["begin"] != z:
            yield dict(cfg, begin=z)
        if any(cfg["start_delay"].values()):
            yield dict(cfg, start_delay={k: 0 for k in cfg["start_delay"]})


CHECK = C26()
