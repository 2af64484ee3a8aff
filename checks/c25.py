"""C25: the engine serves exactly the graph that was converted."""
from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

KINDS = ["disk.open", "disk.read", "disk.short_read"]


class C25(Check):
    property = "C25"
    rule = ("each run converts a random graph with the real converter and loads it directly or into servers with memory or disk storage, in a third of "
            "the runs with failing file accesses while loading or answering, then asks for everything; non-trivial = a file access failed or more than "
            "one partition; distinct by configuration digest, switch sequence and faults fired")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=10, maxservers=2)
        cfg["local"] = rng.random() < 0.6
        cfg["local_storage"] = rng.choice([0, 1])
        cfg["sc"] = rng.choice(["calm", "load", "load", "answer"])
        cfg["when"] = rng.sample(range(22), 2)
        cfg["queries"] = self.everything(cfg) + [N.gen_query(rng, cfg) for _ in range(4)]
        n = cfg["native"]
        rate = rng.choice([0.003, 0.02, 0.1])
        n["rates"] = {k: rng.choice([0, rate]) if cfg["sc"] != "calm" else 0 for k in KINDS}
        n["fault_budget"] = rng.choice([1, 1, 3])
        return cfg

    def everything(self, cfg):
        """Queries for all data of the graph."""
        ids = [nd["id"] for nd in cfg["nodes"]]
        edges = [[nd["id"], e["d"], e["t"]] for nd in cfg["nodes"] for e in nd["e"]]
        types = list(range(cfg["etypes"]))
        out = [{"op": "types", "nodes": ids, "dtp": -1}, {"op": "cnt", "nodes": ids, "types": types}, {"op": "nb", "nodes": ids, "types": types, "rts": False}]
        if cfg["temporal"]:
            for t in cfg["when"]:
                at = {"nodes": ids + [99], "types": types, "ts": [t] * (len(ids) + 1), "rts": True}
                out += [dict(at, op="nb"), dict(at, op="lastn", count=1 + t % 4, seed=1, dn=-1, dw=0.5, dtp=9)]
        for sch, pre, key, own in ((cfg["nschema"], "n", "nodes", ids), (cfg["eschema"], "e", "edges", edges)):
            if not own:
                continue
            for i, f in enumerate(sch):
                if f["k"] == "dense":
                    out.append({"op": pre + "f", key: own, "dt": f["d"], "feats": [[i, f["n"]]]})
                elif f["k"] == "tdense":
                    out += [{"op": pre + "f", key: own, "dt": f["d"], "feats": [[i, f["n"]]], "ts": [t] * len(own)} for t in cfg["when"]]
                elif f["k"] == "sparse":
                    out.append({"op": pre + "sf", key: own, "dt": f["d"], "feats": [i]})
                elif f["k"] == "bin":
                    out.append({"op": pre + "str", key: own, "feats": [i]})
        return out

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        n = info["n"] = {"queries": 0, "failed": 0, "refused": 0}
        s.native.on_fatal = lambda kind, text: self.fatal(sim, cfg, kind, text)
        s.begin()
        info["phase"] = "load"
        s.native.faults(cfg["sc"] == "load")
        try:
            if cfg["local"]:
                c = s.local(storage=cfg["local_storage"])
            else:
                s.start_servers()
                s.native.faults(False)
                c = s.connect(1)
        except Exception as e:
            expect(any(k in sim.fired or k in s.native.fired() for k in KINDS), "loading fails without any fault: %r" % e, "loading fails without a fault")
            n["refused"] = 1
            info["nontrivial"] = True
            return
        info["phase"] = "query"
        s.native.faults(cfg["sc"] == "answer")
        for q in cfg["queries"]:
            n["queries"] += 1
            try:
                r = N.ask(c, q)
            except Violation:
                raise
            except Exception as e:
                n["failed"] += 1
                expect(any(k in s.native.fired() for k in KINDS), "query %s fails without any fault: %r" % (q, e), "query fails without a fault")
                continue
            N.check_answer(m, q, r)
        self.counts(cfg, c)
        info["phase"] = "stop"
        s.native.faults(False)
        s.stop()
        s.end()
        info["nontrivial"] = any(k in sim.fired for k in KINDS) or cfg["parts"] > 1

    def counts(self, cfg, c):
        """Numbers of elements per type; types that do not exist have none."""
        for what, of, ask in (("nodes", [nd["t"] for nd in cfg["nodes"]], c.get_node_type_count),
                              ("edges", [e["t"] for nd in cfg["nodes"] for e in nd["e"]], c.get_edge_type_count)):
            all_ = list(range(-2, max(cfg["ntypes"], cfg["etypes"]) + 2))
            for types in [[t] for t in all_] + [all_, all_[::-2]]:
                k = ask(types)
                expect(k == sum(t in types for t in of), "%d %s of types %s instead of %d" % (k, what, types, sum(t in types for t in of)), "element count")

    def fatal(self, sim, cfg, kind, text):
        """A message in the log and the end of the process reports the failure."""
        if (kind == "fatal-log" or (sim.info.get("phase") == "load" and kind == "crash" and text.startswith("uncaught exception:"))) \
                and any(k in sim.fired for k in KINDS):
            sim.info["n"]["refused"] = 1
            sim.info["nontrivial"] = True
            return "ok", None
        return None

    def shrink(self, cfg):
        yield from N.shrink_graph(cfg)


CHECK = C25()
