"""C15: closing a backend releases sync files and servers."""
import multiprocessing
import os
import threading
import time

from vsim import core
from vsim.runner import Check
from . import sync_lib as S
from .sync_lib import expect


class C15(Check):
    property = "C15"
    rule = ("each run draws one or two successive jobs in one folder (1-4 workers, launcher, given or discovered addresses, delays, absent workers, "
            "failing servers, forked copies, repeated and concurrent closes) and a schedule; non-trivial = a fault, a forked copy, a repeated close "
            "or a second job; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = S.REAL, S.STUBBED, S.ASSUME

    def gen(self, rng, tier, index):
        timeout = rng.choice([10, 30])
        rounds = []
        for k in range(rng.choice([1, 1, 2])):
            job = S.gen_job(rng, maxworkers=rng.choice([1, 2, 3, 4]))
            n = len(job["workers"])
            r = {"job": job, "begin": [rng.choice([0, 0, 0.3, 1.5]) for _ in range(n)], "start_delay": {str(i): rng.choice([0, 0, 0.7]) for i in range(n)},
                 "hold": [rng.choice([0, 0, 0.5, 3]) for _ in range(n)], "uses": [rng.choice([0, 1, 1, 2]) for _ in range(n)],
                 "connect": [rng.random() < 0.8 for _ in range(n)],
                 "again": [rng.choice(["", "", "twice", "threads"]) for _ in range(n)],
                 "fork": [rng.choice([0, 0, 0, 1, 2]) for _ in range(n)], "forkat": rng.choice(["before", "after"]), "forkhold": rng.choice([0, 0.4, 2]),
                 "absent": [], "fail_start": []}
            if rng.random() < 0.35:
                what = rng.choice(["absent", "fail_start"])
                r[what] = rng.sample(range(n), 1 if n < 3 else rng.randint(1, 2))
            if n == 1 and r["absent"]:
                r["absent"] = []
            rounds.append(r)
        cfg = {"timeout": timeout, "parts": rng.choice([1, 2, 4]), "rounds": rounds, "sim": {"max_steps": 800000, "max_time": 1e6, "dirseed": rng.randrange(1 << 30)}}
        if rng.random() < 0.6:
            cfg["sim"]["stall_max"] = 0.3
        cfg["label"] = "/".join(("missing" if r["absent"] or r["fail_start"] else "complete") for r in rounds)
        return cfg

    def run(self, sim, cfg):
        data = S.graph_folder(sim, cfg["parts"])
        model = os.path.join(sim.scratch, "model")
        os.makedirs(model)
        n = sim.info["n"] = {"jobs": 0, "workers": 0, "timeouts": 0, "forked_copies": 0}
        for k, r in enumerate(cfg["rounds"]):
            n["jobs"] += 1
            sim.info["phase"] = "job %d" % k
            self.round(sim, cfg, k, r, data, model)
        r = cfg["rounds"][0]
        sim.info["nontrivial"] = len(cfg["rounds"]) > 1 or bool(r["absent"] or r["fail_start"] or any(r["again"]) or any(r["fork"]))

    def round(self, sim, cfg, k, r, data, model):
        job = r["job"]
        n = len(job["workers"])
        world = S.World(sim, cfg["timeout"])
        engine = sim.__dict__["engine"] = S.Engine(world, r, data)
        broken = bool(r["absent"] or r["fail_start"])
        for _ in r["absent"]:
            sim._count("worker-absent")
        state, errors, got = {}, {}, {}
        t0, st0 = sim.now, S.stall_slack(sim)

        def close(i, b, who):
            try:
                b.close()
            except Exception as e:
                errors[(i, who)] = repr(e)

        def forked(i, b, j):
            core.SIM.cur.proc.env["rank"] = i
            if r["forkhold"]:
                time.sleep(r["forkhold"] * (j + 1))
            try:
                b.close()
                errors.setdefault(("fork", i, j), None)
            except Exception as e:
                errors[("fork", i, j)] = repr(e)

        def work(i):
            if i in r["absent"]:
                return
            if r["begin"][i]:
                time.sleep(r["begin"][i])
            o = S.options(data, model, job, i, cfg["timeout"])
            try:
                b = S.SnarkDistributedBackend(o)
            except TimeoutError:
                state[i] = "timeout in start-up"
                S.abort(world)
                return
            except Exception as e:
                state[i] = "%s in start-up" % type(e).__name__
                S.abort(world)
                return
            if not broken:
                try:
                    S.barrier(world, "registered", n)
                except threading.BrokenBarrierError:
                    pass
            copies = []

            def fork():
                for j in range(r["fork"][i]):
                    sim.info["n"]["forked_copies"] += 1
                    p = multiprocessing.Process(target=forked, args=(i, b, j))
                    p.start()
                    copies.append(p)
            if r["forkat"] == "before":
                fork()
            try:
                if r["connect"][i]:
                    b.graph
                state[i] = "ok"
            except TimeoutError:
                state[i] = "timeout"
            if r["forkat"] == "after":
                fork()
            if state[i] == "ok":
                if r["connect"][i]:
                    S.use(b, r["uses"][i], 0)
                if r["hold"][i]:
                    time.sleep(r["hold"][i])
                for p in copies:
                    p.join()
                if r["connect"][i]:
                    S.use(b, 1, 0)
                k = job["workers"][i]["server"]
                if k >= 0:
                    world.stop_called[o.servers[k]] = sim.now
            else:
                for p in copies:
                    p.join()
            got[i] = list(o.servers)
            if r["again"][i] == "threads":
                ths = [threading.Thread(target=close, args=(i, b, "thread %d" % j)) for j in range(2)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
            else:
                close(i, b, "first")
                if r["again"][i] == "twice":
                    close(i, b, "second")

        procs = S.start_workers(job, work)
        for p in procs:
            p.join()
        time.sleep(2 * cfg["timeout"])
        sim.info["n"]["workers"] += n
        sim.info["n"]["timeouts"] += sum(1 for v in state.values() if v != "ok")
        left = S.locks(model)
        bad = {a: e for a, e in errors.items() if e is not None}
        expect(not bad, "closing a backend of a %s job failed: %s (states %s)" % (job["launcher"], S.short(bad), state), "close failed")
        excuse = S.stall_slack(sim) - st0 + max(r["begin"]) + max(r["start_delay"].values()) + 4 >= cfg["timeout"] * 0.6
        if not broken and not excuse:
            expect(all(state.get(i) == "ok" for i in range(n)), "job %d in the folder did not start: %s %s" % (k, state, sim.thread_errors[-1:]),
                   "job did not start")
            world.check()
            if job["servers"] is None:
                S.check_lists(sim, job, engine, got)
            for i, p in enumerate(procs):
                expect(p.exitcode == 0, "worker %d failed: %s" % (i, sim.thread_errors[-1:]), "worker failed")
        if not broken and excuse and any(v != "ok" for v in state.values()):
            broken = True
        expect(not left, "after all workers of a %s job closed (%s) the sync folder still holds %s" % (job["launcher"], state, left), "sync file left")
        expect(not world.live or broken, "after all workers closed, clients %s are still connected (%s)" % (sorted(w for w, _ in world.live.values()), state), "client left")
        alive = [p.name for p in sim.procs[1:] if p.alive]
        expect(not alive, "after all workers closed, processes %s still run (%s)" % (alive, state), "server process left")

    def shrink(self, cfg):
        if len(cfg["rounds"]) > 1:
            for r in cfg["rounds"]:
                yield dict(cfg, rounds=[r])
        for k, r in enumerate(cfg["rounds"]):
            def sub(**kw):
                rs = list(cfg["rounds"])
                rs[k] = dict(r, **kw)
                return dict(cfg, rounds=rs)
            n = len(r["begin"])
            for f, z in (("begin", [0] * n), ("hold", [0] * n), ("uses", [0] * n), ("again", [""] * n), ("fork", [0] * n)):
                if r[f] != z:
                    yield sub(**{f: z})
            if any(r["start_delay"].values()):
                yield sub(start_delay={a: 0 for a in r["start_delay"]})


CHECK = C15()
