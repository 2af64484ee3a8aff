"""C23: concurrent queries do not disturb each other, and servers and clients stop cleanly."""
from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

OPS = ["types", "nf", "nf", "nsf", "nstr", "ef", "ef", "esf", "estr", "cnt", "nb", "nb", "lastn", "ws", "us", "uswr", "walk", "ppr"]
LIMIT = 3600      # simulated seconds within which a stop has to return


class C23(Check):
    property = "C23"
    rule = ("each run draws a graph on up to 3 servers, 1 to 3 clients, 2 to 4 querying threads, servers and clients that are stopped and started at any "
            "moment and a schedule; non-trivial = queries of two threads overlapped or a server stopped during a query; distinct by configuration "
            "digest, switch sequence and faults fired")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=6, maxservers=3)
        cfg["sc"] = rng.choice(["queries", "local", "server", "server", "servers", "client", "restart"])
        cfg["together"] = rng.random() < 0.5
        cfg["local"] = rng.randrange(2)
        cfg["clients"] = rng.choice([1, 1, 2, 3])
        cfg["attempts"] = rng.choice([1, 1, 2])
        cfg["threads"] = []
        for _ in range(rng.randrange(2, 5)):
            cfg["threads"].append({"client": rng.randrange(cfg["clients"]), "delay": rng.choice([0, 0, 0.0005, 0.01]),
                                   "queries": [N.gen_query(rng, cfg, OPS) for _ in range(rng.randrange(1, 5))],
                                   "sample": rng.choice([0, 0, 0, 1, 3]), "pick": rng.randrange(1000)})
        cfg["when"] = rng.choice([0, 0, 0.0001, 0.0003, 0.001, 0.003, 0.01])
        cfg["which"] = rng.randrange(len(cfg["place"]))
        cfg["pause"] = rng.choice([0, 0.001, 1])
        n = cfg["native"]
        n["p_mem"] = rng.choice([0, 1e-4, 1e-3])
        if rng.random() < 0.1:
            # threads that only make and use samplers, with switches between most of their memory accesses
            n["p_mem"] = rng.choice([1e-2, 5e-2])
            for t in cfg["threads"]:
                t["sample"], t["queries"] = rng.choice([2, 4]), t["queries"][:1]
        n["rates"] = {"net.slow_request": rng.choice([0, 0.3, 1]), "net.slow_reply": rng.choice([0, 0.3, 1])}
        n["fault_budget"] = 1000
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        n = info["n"] = {"queries": 0, "failed": 0, "overlapping": 0, "stops": 0, "after": 0, "samples": 0}
        self.open, self.stopped = 0, False
        s.begin()
        info["phase"] = "start"
        if cfg["sc"] == "local":
            clients = [s.local(cfg["local"]) for _ in range(cfg["clients"])]
        else:
            self.each(s, cfg["together"], s.start_server, range(len(cfg["place"])))
            clients = [s.connect(cfg["attempts"]) for _ in range(cfg["clients"])]
        info["phase"] = "query"
        s.native.faults(True)
        threads = [s.native.thread(self.work, s, cfg, clients[t["client"]], t, m, n) for t in cfg["threads"]]
        if cfg["sc"] in ("server", "restart"):
            threads.append(s.native.thread(self.stop_server, s, cfg, n, cfg["which"]))
        elif cfg["sc"] == "servers":
            threads += [s.native.thread(self.stop_server, s, cfg, n, i) for i in range(len(cfg["place"]))]
        elif cfg["sc"] == "client":
            threads.append(s.native.thread(self.come_and_go, s, cfg, m, n))
        for t in threads:
            s.native.join(t)
        info["phase"] = "after"
        s.native.faults(False)
        s.native.sleep(60)
        if cfg["sc"] not in ("server", "servers"):
            for t in cfg["threads"]:
                try:
                    r = N.ask(clients[t["client"]], t["queries"][0])
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("query %s fails with all servers running: %r" % (t["queries"][0], e), "query fails with running servers")
                N.check_answer(m, t["queries"][0], r)
                n["after"] += 1
        info["phase"] = "stop"
        if cfg["together"]:
            self.timed(s, lambda: self.each(s, True, lambda c: c.reset(), clients), "clients")
            s.clients = [c for c in s.clients if c not in clients]
        self.timed(s, s.stop, "clients and servers")
        s.end()
        expect(n["failed"] == 0 or n["stops"], "%d queries failed although no server stopped" % n["failed"], "query fails without a reason")
        info["nontrivial"] = n["overlapping"] > 0 or n["stops"] > 0

    def each(self, s, together, fn, items):
        if not together:
            for i in items:
                fn(i)
            return
        for t in [s.native.thread(fn, i) for i in items]:
            s.native.join(t)

    def timed(self, s, fn, what):
        t = s.native.now()
        fn()
        d = s.native.now() - t
        expect(d <= LIMIT, "stopping %s took %.1f simulated seconds" % (what, d), "stop takes too long")

    def work(self, s, cfg, c, t, m, n):
        s.native.sleep(t["delay"])
        for _ in range(t["sample"]):
            self.sample(c, cfg, t, n)
        for q in t["queries"]:
            n["queries"] += 1
            n["overlapping"] += self.open > 0
            self.open += 1
            try:
                r = N.ask(c, q)
            except Violation:
                raise
            except Exception as e:
                expect(self.stopped, "query %s fails although no server stopped: %r" % (q, e), "query fails without a reason")
                n["failed"] += 1
                continue
            finally:
                self.open -= 1
            N.check_answer(m, q, r)

    def sample(self, c, cfg, t, n):
        """Every thread makes a sampler of its own and has to get elements of the types it asked for."""
        edges = t["pick"] % 2
        names = {e["t"] for nd in cfg["nodes"] for e in nd["e"]} if edges else {nd["t"] for nd in cfg["nodes"]}
        if not names:
            return
        types = sorted(names)[(t["pick"] // 2) % len(names):][:1 + t["pick"] % 3]
        x = None
        try:
            x = (N.snark_client.EdgeSampler if edges else N.snark_client.NodeSampler)(c, types, "uniform")
            r = x.sample(5, 7)
        except (AttributeError, TypeError, AssertionError):
            raise
        except Exception as e:
            expect(self.stopped, "sampling fails although no server stopped: %r" % e, "query fails without a reason")
            return
        finally:
            if x is not None:
                x.reset()
        if edges:
            known = {(nd["id"], e["d"], e["t"]) for nd in cfg["nodes"] for e in nd["e"] if e["t"] in types}
        else:
            known = {(nd["id"], nd["t"]) for nd in cfg["nodes"] if nd["t"] in types}
        for row in zip(*(v.tolist() for v in r)):
            expect(row in known, "sampled %s for types %s, the graph has %s" % (row, types, sorted(known)), "sampled element is not one of the requested")
        n["samples"] += 1

    def stop_server(self, s, cfg, n, i):
        s.native.sleep(cfg["when"])
        self.stopped = True
        n["stops"] += 1
        s.sim._count("server-stop")
        self.timed(s, s.servers.pop(i).reset, "server %d" % i)
        if cfg["sc"] == "restart":
            s.native.sleep(cfg["pause"])
            s.start_server(i)

    def come_and_go(self, s, cfg, m, n):
        """Another client connects, asks and leaves."""
        s.native.sleep(cfg["when"])
        c = s.connect(cfg["attempts"])
        q = cfg["threads"][0]["queries"][0]
        N.check_answer(m, q, N.ask(c, q))
        s.clients.remove(c)
        n["stops"] += 1
        s.sim._count("client-stop")
        self.timed(s, c.reset, "a client")

    def shrink(self, cfg):
        for i, t in enumerate(cfg["threads"]):
            if len(cfg["threads"]) > 1:
                yield dict(cfg, threads=cfg["threads"][:i] + cfg["threads"][i + 1:])
            for j in range(len(t["queries"])):
                if len(t["queries"]) > 1:
                    yield dict(cfg, threads=cfg["threads"][:i] + [dict(t, queries=t["queries"][:j] + t["queries"][j + 1:])] + cfg["threads"][i + 1:])
            if t["sample"]:
                yield dict(cfg, threads=cfg["threads"][:i] + [dict(t, sample=0)] + cfg["threads"][i + 1:])


CHECK = C23()
