"""C22: a failing server makes the query fail, never corrupt, hang or crash."""
import json

from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

OPS = ["types", "nf", "nf", "nsf", "nstr", "ef", "ef", "esf", "estr", "cnt", "nb", "nb", "lastn", "ws", "us", "uswr"]
KINDS = ["net.unavailable", "net.status", "net.lost_reply", "net.reset"]


class C22(Check):
    property = "C22"
    rule = ("each run draws a graph on up to 4 servers, 2 to 8 queries of any kind, failing calls, servers that go away and come back, retry "
            "settings and a schedule, then repeats queries with healthy servers; non-trivial = at least one call of a query failed; distinct by "
            "configuration digest, switch sequence and faults fired")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=6, maxservers=4)
        cfg["queries"] = [N.gen_query(rng, cfg, OPS) for _ in range(rng.randrange(2, 9))]
        n = cfg["native"]
        n["rates"] = {k: rng.choice([0, 0.02, 0.1, 0.4]) for k in KINDS}
        n["rates"].update({"net.slow_request": rng.choice([0, 0.3]), "net.slow_reply": rng.choice([0, 0.3])})
        n["fault_budget"] = rng.choice([1, 2, 5, 1000])
        cfg["attempts"] = rng.choice([1, 1, 2, 5])
        cfg["down"] = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2])):
                cfg["down"].append([rng.randrange(len(cfg["place"])), rng.choice([0, 0.001, 0.5, 3]), rng.choice([0.001, 1, 20, 200])])
        cfg["sc"] = "outage" if cfg["down"] else "calls"
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        n = info["n"] = {"queries": 0, "failed": 0, "correct": 0, "after": 0}
        s.begin()
        info["phase"] = "start"
        s.start_servers()
        c = s.connect(cfg["attempts"])
        info["phase"] = "query"
        s.native.faults(True)
        outages = [s.native.thread(self.outage, s, d) for d in cfg["down"]]
        for q in cfg["queries"]:
            n["queries"] += 1
            try:
                r = N.ask(c, q)
            except Violation:
                raise
            except Exception:
                n["failed"] += 1
                continue
            N.check_answer(m, q, r)
            n["correct"] += 1
        info["phase"] = "recover"
        for t in outages:
            s.native.join(t)
        s.native.faults(False)
        for i in range(len(cfg["place"])):
            s.down(i, False)
        s.native.sleep(60)   # calls cut off before are over
        for q in cfg["queries"]:
            try:
                r = N.ask(c, q)
            except Violation:
                raise
            except Exception as e:
                raise Violation("query %s fails after all servers came back: %r" % (q, e), "query fails after recovery")
            N.check_answer(m, q, r)
            n["after"] += 1
        info["phase"] = "stop"
        s.stop()
        s.end()
        expect(n["failed"] == 0 or sim.fired, "%d queries failed without any fault" % n["failed"], "query fails without a fault")
        info["nontrivial"] = any(k in sim.fired for k in KINDS) or bool(cfg["down"])

    def outage(self, s, d):
        s.native.sleep(d[1])
        s.down(d[0], True)
        s.native.sleep(d[2])
        s.down(d[0], False)

    def shrink(self, cfg):
        for i in range(len(cfg["down"])):
            yield dict(cfg, down=cfg["down"][:i] + cfg["down"][i + 1:])
        yield from N.shrink_graph(cfg)


CHECK = C22()
