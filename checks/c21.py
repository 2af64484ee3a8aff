"""C21: sampled neighbors are real neighbors."""
from vsim.runner import Check
from . import native_lib as N


class C21(Check):
    property = "C21"
    rule = ("each run draws a graph, its partitions, a local client or up to 4 servers, 3 to 12 neighbor samplings (strategy, types, times, "
            "counts, seeds), network delays and a schedule; non-trivial = several partitions and a sampled node with neighbors; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, temporal_p=0.45, multi_p=0.2, maxservers=4)
        if rng.random() < 0.5:
            for nd in cfg["nodes"]:
                nd["f"] = []
                for e in nd["e"]:
                    e["f"] = []
            cfg["nschema"] = cfg["eschema"] = []
        cfg["queries"] = [N.gen_query(rng, cfg, ["ws", "us", "uswr"]) for _ in range(rng.randrange(3, 13))]
        cfg["native"]["rates"] = {"net.slow_request": rng.choice([0, 0.2, 0.5]), "net.slow_reply": rng.choice([0, 0.2, 0.5])}
        cfg["native"]["fault_budget"] = 1000
        cfg["native"]["faults"] = 1
        cfg["local"] = rng.random() < 0.25
        cfg["label"] = ("local " if cfg["local"] else "servers ") + cfg["sc"]
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        s.begin()
        info["phase"] = "start"
        if cfg["local"]:
            c = s.local(cfg["storage"][0])
        else:
            s.start_servers()
            c = s.connect()
        info["phase"] = "query"
        full = 0
        for q in cfg["queries"]:
            N.check_answer(m, q, N.ask(c, q))
            full += sum(1 for i, n in enumerate(q["nodes"]) if m.neighbors(n, q["types"], q["ts"][i] if "ts" in q else None))
        info["phase"] = "stop"
        s.stop()
        s.end()
        info["n"] = {"queries": len(cfg["queries"]), "servers": 0 if cfg["local"] else len(cfg["place"]), "calls": s.native.result["calls"],
                     "nodes_with_neighbors": full}
        for q in cfg["queries"]:
            info["n"]["op_" + q["op"]] = info["n"].get("op_" + q["op"], 0) + 1
        info["nontrivial"] = cfg["parts"] > 1 and full > 0

    def shrink(self, cfg):
        return N.shrink_graph(cfg)


CHECK = C21()
