"""C24: node and edge sampling over servers returns the requested count of real elements."""
import random

import numpy as np

from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

KINDS = ["net.unavailable", "net.status", "net.lost_reply", "net.reset"]
STRATEGY = {"weighted": "Weighted", "uniform": "Random", "withoutreplacement": "RandomWithoutReplacement"}
MANY = 1200


class C24(Check):
    property = "C24"
    rule = ("each run draws a graph with types spread unevenly over up to 4 servers (or loaded directly), up to 8 samplings of nodes or edges with each "
            "strategy, through samplers or the client interface, failing calls in a third of the runs and a schedule; non-trivial = at least two servers "
            "or a failed call; distinct by configuration digest, switch sequence and faults fired")
    real, stubbed, assumptions = N.REAL, N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=8, temporal_p=0.1, maxservers=4)
        cfg["local"] = rng.random() < 0.2
        cfg["sc"] = "local" if cfg["local"] else rng.choice(["calm", "calm", "faults"])
        cfg["attempts"] = rng.choice([1, 1, 2, 5])
        count = {"node": [0] * cfg["ntypes"], "edge": [0] * cfg["etypes"]}
        for nd in cfg["nodes"]:
            count["node"][nd["t"]] += 1
            for e in nd["e"]:
                count["edge"][e["t"]] += 1
        cfg["samples"] = []
        for _ in range(rng.randrange(1, 9)):
            what = rng.choice(["node", "edge"])
            ok = [t for t, k in enumerate(count[what]) if k]
            if not ok:
                continue
            types = sorted(set([rng.choice(ok)] + rng.sample(range(len(count[what])), rng.randrange(0, len(count[what]) + 1))))
            total = sum(count[what][t] for t in types)
            kind = rng.choice(["weighted", "uniform", "withoutreplacement"])
            if kind == "withoutreplacement":
                size = rng.choice([1, total, total, rng.randrange(1, total + 1)])
            else:
                size = rng.choice([1, 2, 5, 40, MANY])
            form = rng.choice(["list", "list", "mixed", "int", "all"])
            if form == "all":
                types = list(range(len(count[what])))
                size = min(size, sum(count[what])) if kind == "withoutreplacement" else size
            cfg["samples"].append({"what": what, "types": types, "form": form, "kind": kind, "size": size, "seed": rng.randrange(1 << 62),
                                   "api": rng.choice(["sampler", "client"]), "times": rng.choice([1, 1, 2])})
        n = cfg["native"]
        n["rates"] = {k: rng.choice([0, 0.05, 0.2]) if cfg["sc"] == "faults" else 0 for k in KINDS}
        n["rates"].update({"net.slow_request": rng.choice([0, 0.3]), "net.slow_reply": rng.choice([0, 0.3])})
        n["fault_budget"] = rng.choice([1, 2, 5, 1000])
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        pool = {"node": {}, "edge": {}}
        for nd in cfg["nodes"]:
            pool["node"][(nd["id"],)] = (nd["t"], nd["w"])
            for e in nd["e"]:
                pool["edge"][(nd["id"], e["d"], e["t"])] = (e["t"], e["w"])
        s = N.System(sim, cfg, out)
        n = info["n"] = {"samples": 0, "failed": 0, "elements": 0, "complete": 0, "covered": 0}
        s.begin()
        info["phase"] = "start"
        if cfg["local"]:
            c = s.local(kind=N.snark_local.Client)
        else:
            s.start_servers()
            c = s.connect(cfg["attempts"], kind=N.snark_distributed.Client)
        g = c.graph
        info["phase"] = "sample"
        keep = []
        for faults in ([True, False] if cfg["sc"] == "faults" else [False]):
            s.native.faults(faults)
            if not faults:
                s.native.sleep(60)
            for q in cfg["samples"]:
                for k in range(q["times"]):
                    n["samples"] += 1
                    try:
                        got = self.sample(g, c, q, k, keep)
                    except (Violation, AttributeError, TypeError, IndexError):
                        raise
                    except Exception as e:
                        n["failed"] += 1
                        expect(faults, "sampling %s fails without any fault: %r" % (q, e), "sampling fails without a fault")
                        continue
                    self.judge(q, got, pool[q["what"]], n)
        info["phase"] = "stop"
        s.native.faults(False)
        for x in keep:
            x.reset()
        s.stop()
        s.end()
        expect(n["failed"] == 0 or any(k in sim.fired for k in KINDS), "%d samplings failed without any fault" % n["failed"], "sampling fails without a fault")
        info["nontrivial"] = len(cfg["place"]) > 1 or n["failed"] > 0

    def sample(self, g, c, q, k, keep):
        if q["api"] == "sampler":
            types = list(q["types"])
            if q.get("form") == "mixed":  # any order, with types that do not exist
                types = types[::-1] + [-3, 99]
            elif q.get("form") == "int" and len(types) == 1:
                types = types[0]
            elif q.get("form") == "all":
                types = -1
            x = N.snark_client.NodeSampler(g, types, q["kind"]) if q["what"] == "node" else N.snark_client.EdgeSampler(g, types, q["kind"])
            keep.append(x)
            r = x.sample(q["size"], q["seed"] + k)
        else:
            random.seed(q["seed"] + k)
            st = getattr(N.SamplingStrategy, STRATEGY[q["kind"]])
            types = np.array(q["types"], dtype=np.int32)
            r = c.sample_nodes(q["size"], types, st) if q["what"] == "node" else c.sample_edges(q["size"], types, st).T
        return [tuple(int(y) for y in x) for x in zip(*r)]

    def judge(self, q, got, pool, n):
        what = q["what"]
        expect(len(got) == q["size"], "%d elements for %s" % (len(got), q), "wrong number of elements")
        n["elements"] += len(got)
        keys = []
        for x in got:
            key = x[:-1] if what == "node" else x
            expect(key in pool, "%s %s does not exist, for %s" % (what, x, q), "sampled %s does not exist" % what)
            expect(pool[key][0] == x[-1], "%s %s has type %d, for %s" % (what, x, pool[key][0], q), "sampled %s has another type" % what)
            expect(x[-1] in q["types"], "%s %s is not of a requested type, for %s" % (what, x, q), "sampled %s is not of a requested type" % what)
            keys.append(key)
        all_ = {k: w for k, (t, w) in pool.items() if t in q["types"]}
        if q["kind"] == "withoutreplacement":
            expect(len(set(keys)) == len(keys), "%s twice in %s, for %s" % (what, got, q), "element sampled twice")
            n["complete"] += len(keys) == len(all_)
        if q["size"] == MANY:
            # With this many draws an element with a share of 2 percent is missed with a probability of 3e-11.
            total = sum(all_.values()) if q["kind"] == "weighted" else len(all_)
            for k, w in all_.items():
                if (w if q["kind"] == "weighted" else 1) >= 0.02 * total:
                    n["covered"] += 1
                    expect(k in keys, "%s %s is never sampled, for %s" % (what, k, q), "element is never sampled")

    def shrink(self, cfg):
        for i in range(len(cfg["samples"])):
            if len(cfg["samples"]) > 1:
                yield dict(cfg, samples=cfg["samples"][:i] + cfg["samples"][i + 1:])
        for i, q in enumerate(cfg["samples"]):
            if q["kind"] != "withoutreplacement" and q["size"] > 2:
                yield dict(cfg, samples=cfg["samples"][:i] + [dict(q, size=2)] + cfg["samples"][i + 1:])
            if q["times"] > 1:
                yield dict(cfg, samples=cfg["samples"][:i] + [dict(q, times=1)] + cfg["samples"][i + 1:])


CHECK = C24()
