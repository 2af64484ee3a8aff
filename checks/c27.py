"""C27: walks and page rank neighborhoods follow the graph, however it is spread."""
from collections import Counter

from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

KINDS = ["net.unavailable", "net.status", "net.lost_reply", "net.reset"]


class C27(Check):
    property = "C27"
    rule = ("each run draws a graph on up to 4 servers (or loaded directly), 2 to 7 walks or page rank queries, failing calls in half of the runs and "
            "a schedule; non-trivial = at least two servers or a failed call; distinct by configuration digest, switch sequence and faults fired")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=8, maxservers=4, multi_p=rng.choice([0, 0.2]))
        cfg["local"] = rng.random() < 0.15
        cfg["queries"] = [N.gen_query(rng, cfg, ["walk", "ppr"]) for _ in range(rng.randrange(2, 8))]
        cfg["sc"] = "local" if cfg["local"] else rng.choice(["calm", "faults"])
        cfg["attempts"] = rng.choice([1, 1, 2, 5])
        n = cfg["native"]
        n["rates"] = {k: rng.choice([0, 0.02, 0.2]) if cfg["sc"] == "faults" else 0 for k in KINDS}
        n["rates"].update({"net.slow_request": rng.choice([0, 0.3]), "net.slow_reply": rng.choice([0, 0.3])})
        n["fault_budget"] = rng.choice([1, 2, 5, 1000])
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        n = info["n"] = {"queries": 0, "failed": 0, "walks": 0, "ranks": 0, "repeated": 0}
        multi = any(c > 1 for nd in cfg["nodes"] for c in Counter(e["d"] for e in nd["e"]).values())
        s.begin()
        info["phase"] = "start"
        if cfg["local"]:
            c = s.local()
        else:
            s.start_servers()
            c = s.connect(cfg["attempts"])
        info["phase"] = "query"
        s.native.faults(cfg["sc"] == "faults")
        for q in cfg["queries"]:
            n["queries"] += 1
            first = None
            for again in range(2 if q["op"] == "walk" and not multi else 1):
                try:
                    r = N.ask(c, q)
                except Violation:
                    raise
                except Exception:
                    n["failed"] += 1
                    continue
                N.check_answer(m, q, r)
                n["walks" if q["op"] == "walk" else "ranks"] += 1
                if first is not None:
                    n["repeated"] += 1
                    expect(first == r.tolist(), "walks %s and %s with the same seed for %s" % (first, r.tolist(), q), "walk with the same seed differs")
                if q["op"] == "walk":
                    first = r.tolist()
        info["phase"] = "stop"
        s.native.faults(False)
        s.stop()
        s.end()
        expect(n["failed"] == 0 or any(k in sim.fired for k in KINDS), "%d queries failed without any fault" % n["failed"], "query fails without a fault")
        info["nontrivial"] = len(cfg["place"]) > 1 or n["failed"] > 0

    def shrink(self, cfg):
        yield from N.shrink_graph(cfg)


CHECK = C27()
