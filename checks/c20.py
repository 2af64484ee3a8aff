"""C20: distributed queries equal the input graph."""
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect


class C20(Check):
    property = "C20"
    rule = ("each run draws a graph, its partitions, their placement on up to 3 servers, storage kinds, client threads, 3 to 12 queries, "
            "network delays and a schedule; non-trivial = at least 2 servers answered and at least one query returned data; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng)
        ops = None
        if len(cfg["place"]) > 1 and rng.random() < 0.2:
            # partitions served by several servers: what is stored once per element is still the same
            ops = ["types", "nf", "nf", "nsf", "nsf", "nstr", "nstr", "ef", "esf", "estr"]
            cfg["copies"] = 0
            for x in cfg["place"]:
                more = [p for p in range(cfg["parts"]) if p not in x and rng.random() < 0.6]
                cfg["copies"] += len(more)
                x += more
                rng.shuffle(x)
        cfg["queries"] = [N.gen_query(rng, cfg, ops) for _ in range(rng.randrange(3, 13))]
        cfg["native"]["rates"] = {"net.slow_request": rng.choice([0, 0.2, 0.5]), "net.slow_reply": rng.choice([0, 0.2, 0.5])}
        cfg["native"]["fault_budget"] = 1000
        cfg["native"]["faults"] = 1
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        s.begin()
        info["phase"] = "start"
        s.start_servers()
        c = s.connect()
        info["phase"] = "query"
        for q in cfg["queries"]:
            N.check_answer(m, q, N.ask(c, q))
        info["phase"] = "stop"
        s.stop()
        s.end()
        info["n"] = {"queries": len(cfg["queries"]), "servers": len(cfg["place"]), "calls": s.native.result["calls"],
                     "delivered": s.native.result["delivered"]}
        info["n"]["copied_partitions"] = cfg.get("copies", 0)
        for q in cfg["queries"]:
            info["n"]["op_" + q["op"]] = info["n"].get("op_" + q["op"], 0) + 1
        info["nontrivial"] = len(cfg["place"]) > 1

    def shrink(self, cfg):
        return N.shrink_graph(cfg)


CHECK = C20()
