"""C13: clients start after all servers, servers outlive their clients."""
import os
import threading
import time

from vsim import core, mpsim
from vsim.runner import Check
from . import sync_lib as S
from .sync_lib import expect, synchronized


class RecServer:
    def __init__(self, world, key, delay, fail):
        if delay:
            time.sleep(delay)
        if fail:
            core.SIM._count("server-start-failure")
            raise RuntimeError("injected server start failure")
        world.proc[key] = core.SIM.cur.proc
        world.up[key] = core.SIM.now
        self.world, self.key = world, key

    def reset(self):
        self.world.server_down(self.key)


class RecClient:
    def __init__(self, world, rank, keys, delay):
        world.client_created(keys, rank)
        self.world, self.rank, self.keys, self.delay = world, rank, keys, delay
        if delay:
            time.sleep(delay)
        world.made[rank] = world.made.get(rank, 0) + 1
        if world.made[rank] > 1:
            world.note("worker %d constructed its client %d times" % (rank, world.made[rank]), "client constructed twice")

    def query(self):
        self.world.client_used(self.keys, self.rank)

    def reset(self):
        if self.delay:
            time.sleep(self.delay)
        self.world.client_closed()


class C13(Check):
    property = "C13"
    rule = ("each run draws a job (1-4 workers or 1-9 servers, start delays, late or failing servers, timeouts, one to three threads per client, close "
            "order) and a schedule of all its processes; non-trivial = at least two servers or an injected late/failed start; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = S.REAL, S.STUBBED, S.ASSUME

    def gen(self, rng, tier, index):
        sc = rng.choice(["direct", "direct", "backend", "backend", "missing"])
        timeout = rng.choice([5, 30, 100])
        cfg = {"sc": sc, "timeout": timeout, "threads": rng.choice([1, 1, 2, 3]), "uses": rng.choice([1, 3]), "pause": rng.choice([0, 0.5, 3])}
        sim = {"max_steps": 400000, "max_time": 1e6, "dirseed": rng.randrange(1 << 30)}
        if sc == "backend":
            cfg["job"] = S.gen_job(rng, discover=False)
            n = len(cfg["job"]["workers"])
        else:
            n = cfg["n"] = rng.choice([1, 2, 2, 3, 4, 4, 9])
            cfg["order"] = rng.choice(["client", "server"])
            cfg["first"] = rng.choice([0, 0, 0, 8, 97])   # number of the first client
            cfg["early"] = [rng.random() < 0.4 for _ in range(n)]
            if rng.random() < 0.2:
                cfg["timeout"] = None if sc == "direct" else timeout
        t = cfg["timeout"] or 50
        cfg["begin"] = [rng.choice([0, 0, 0.3, 1.5, t * 0.4]) for _ in range(n)]
        cfg["start_delay"] = {str(i): rng.choice([0, 0, 0, 0.7, 2.5, t * 0.3]) for i in range(n)}
        cfg["cdelay"] = rng.choice([0, 0, 0.4])
        cfg["late"] = []
        if sc == "missing":
            for i in rng.sample(range(n), rng.randint(1, max(1, n // 2))):
                cfg["late"].append([i, rng.choice(["fail", "late", "crash"])])
        cfg["deserter"] = rng.randrange(n) if sc == "direct" and cfg["timeout"] and n > 1 and rng.random() < 0.3 else None
        if sc == "backend" and rng.random() < 0.3:
            # a directory of its own for the synchronization, models are kept apart
            cfg["sync"] = rng.choice(["sync", "job/7"])
        cfg["sim"] = sim
        cfg["label"] = sc
        return cfg

    def run(self, sim, cfg):
        world = S.World(sim, cfg["timeout"])
        world.made = {}
        world.deserted = False
        world.result = {}
        n = sim.info["n"] = {"servers": 0, "clients": 0, "uses": 0, "timeouts": 0}
        sim.info["phase"] = "job"
        if cfg["sc"] == "backend":
            self.backend(sim, cfg, world)
        else:
            self.direct(sim, cfg, world)
        n["servers"], n["clients"], n["uses"] = len(world.up), world.clients, world.uses
        n["timeouts"] = sum(1 for r in world.result.values() if r[0] == "timeout")
        sim.info["nontrivial"] = len(world.up) >= 2 or bool(cfg["late"])

    # ------------------------------------------------------------- wrappers only
    def direct(self, sim, cfg, world):
        n = cfg["n"]
        late = dict((i, k) for i, k in cfg["late"])
        folder = os.path.join(sim.scratch, "sync")
        os.makedirs(folder)

        def work(i):
            if cfg["begin"][i]:
                time.sleep(cfg["begin"][i])
            delay = cfg["start_delay"][str(i)]
            if late.get(i) == "late":
                sim._count("server-late")
                delay = (cfg["timeout"] or 0) * (n + 2) * 3

            def server():
                if late.get(i) == "crash":
                    sim._count("server-never-started")
                    return None
                return synchronized.SynchronizedServer(folder, i, cfg["timeout"], RecServer, world, i, delay, late.get(i) == "fail")

            def client():
                return synchronized.SynchronizedClient(folder, i + cfg["first"], n, cfg["timeout"], RecClient, world, i, list(range(n)), cfg["cdelay"])
            if cfg["order"] == "client":
                c = client()
                s = server()
            else:
                s = server()
                c = client()
                if not late:
                    S.barrier(world, "registered", n)
            t0 = sim.now
            out = []

            def connect():
                try:
                    c.client.query()
                    out.append("ok")
                except TimeoutError:
                    # a client that gave up is no longer registered
                    world.unregistered.add(i)
                    out.append("timeout")
                except core.Violation:
                    raise
                except Exception as e:
                    out.append(repr(e))
            ths = [threading.Thread(target=connect) for _ in range(cfg["threads"])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            kinds = sorted(set(out))
            if kinds == ["ok", "timeout"]:
                # a later thread may find servers that were too late for an earlier one
                kinds = ["timeout"]
            world.result[i] = (kinds[0] if len(kinds) == 1 else str(kinds), t0, sim.now)
            if out != ["ok"] * len(out):
                world.stop_called[i] = sim.now
                if s is not None:
                    self.stop(sim, cfg, world, i, s)
                return
            stopper = None
            if cfg["early"][i] and s is not None:
                stopper = threading.Thread(target=self.stop, args=(sim, cfg, world, i, s))
                stopper.start()
            for _ in range(cfg["uses"]):
                c.client.query()
                if cfg["pause"]:
                    time.sleep(cfg["pause"])
            if cfg["deserter"] == i:
                # the process dies without a goodbye, its sync file stays
                world.deserted = True
                time.sleep(1e9)
            c.reset()
            if stopper is not None:
                stopper.join()
            elif s is not None:
                self.stop(sim, cfg, world, i, s)

        procs = [S.spawn(lambda r: work(r), i, ()) for i in range(n)]
        if cfg["deserter"] is not None:
            threading.Thread(target=self.reap, args=(sim, world, procs[cfg["deserter"]])).start()
        for p in procs:
            p.join()
        if cfg["deserter"] is not None:
            # the server of the dead worker is nobody's any more
            sp = world.proc.get(cfg["deserter"])
            if sp is not None:
                mpsim.proc_killed(sp)
        world.check()
        for i in range(n):
            r = world.result.get(i)
            expect(r is not None, "worker %d ended without using its client: %s" % (i, sim.thread_errors[-1:]), "worker failed")
            self.verdict(sim, cfg, world, i, r, n, bool(late), procs[i])

    def reap(self, sim, world, p):
        while p.is_alive():
            if world.deserted:
                sim._count("worker-crash")
                p.kill()
                return
            time.sleep(0.1)

    def stop(self, sim, cfg, world, i, s):
        world.stop_called[i] = t = sim.now
        s.reset()
        if cfg["timeout"] is not None:
            expect(sim.now - t <= 3 * cfg["timeout"] + 10 + S.stall_slack(sim), "stopping server %d took %.1f s with a timeout of %s s" % (i, sim.now - t, cfg["timeout"]),
                   "server does not stop")

    def verdict(self, sim, cfg, world, i, r, n, faulty, p):
        kind, t0, t1 = r
        slack = 2.0 + S.stall_slack(sim)
        to = cfg["timeout"]
        if to is not None:
            expect(t1 - t0 <= cfg["threads"] * (n + 2) * (to + 5) + slack, "worker %d waited %.1f s for %d servers with a timeout of %s s" % (i, t1 - t0, n, to),
                   "unbounded wait")
        expect(kind in ("ok", "timeout"), "client of worker %d failed with %s" % (i, kind), "client error")
        if kind == "timeout":
            limit = t0 + (to or 1e9) / 2 - slack
            slow = [s for s in range(n) if world.up.get(s, 1e18) > limit]
            gone = faulty and any(s in world.down or not world.serving(s) for s in range(n))
            expect(slow or gone, "client of worker %d timed out after %.1f s although all %d servers were up at %s" % (
                i, t1 - t0, n, S.short(world.up)), "timeout although servers started")
        if not faulty:
            expect(kind == "timeout" or p.exitcode == 0 or i == cfg.get("deserter"), "worker %d failed although all servers started: %s" % (i, sim.thread_errors[-1:]),
                   "worker failed")

    # ---------------------------------------------------------------- whole backend
    def backend(self, sim, cfg, world):
        job = cfg["job"]
        n = len(job["workers"])
        data = S.graph_folder(sim, max(1, S.nservers(job) + 1))
        model = os.path.join(sim.scratch, "model")
        os.makedirs(model)
        engine = sim.__dict__["engine"] = S.Engine(world, cfg, data)
        alone = S.alone(job)
        addr = job["servers"]

        def work(i):
            if cfg["begin"][i]:
                time.sleep(cfg["begin"][i])
            mine, extra = model, None
            if cfg.get("sync"):
                mine, extra = os.path.join(model, "of-%d" % i), {"sync_dir": os.path.join(sim.scratch, cfg["sync"])}
            b = S.SnarkDistributedBackend(S.options(data, mine, job, i, cfg["timeout"], extra))
            if alone:
                # workers without a server are registered once the framework's own start-up barrier is passed
                S.barrier(world, "registered", n)
            t0 = sim.now
            try:
                b.graph
                world.result[i] = ("ok", t0, sim.now)
            except TimeoutError:
                world.result[i] = ("timeout", t0, sim.now)
                k = job["workers"][i]["server"]
                if k >= 0:
                    # the worker ends without closing, its server goes with it
                    world.stop_called[addr[k]] = -1e18
                return
            S.use(b, cfg["uses"], cfg["pause"])
            k = job["workers"][i]["server"]
            if k >= 0:
                world.stop_called[addr[k]] = sim.now
            b.close()

        procs = S.start_workers(job, work)
        for p in procs:
            p.join()
        world.check()
        world.up = {addr.index(a): t for a, t in world.up.items()}
        for i in range(n):
            r = world.result.get(i)
            expect(r is not None, "worker %d of a %s job ended without using its client: %s" % (i, job["launcher"], sim.thread_errors[-1:]),
                   "worker failed")
            self.verdict(sim, cfg, world, i, r, len(addr), False, procs[i])

    def shrink(self, cfg):
        if cfg.get("deserter") is not None:
            yield dict(cfg, deserter=None)
        if cfg.get("sync"):
            yield dict(cfg, sync=None)
        for k, v in (("threads", 1), ("uses", 1), ("pause", 0), ("cdelay", 0)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})
        z = [0] * len(cfg["begin"])
        if cfg["begin"] != z:
            yield dict(cfg, begin=z)
        if any(cfg["start_delay"].values()):
            yield dict(cfg, start_delay={k: 0 for k in cfg["start_delay"]})


CHECK = C13()
