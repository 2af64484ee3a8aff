"""C31: samples follow the weights, wherever the graph is placed."""
import math
from collections import Counter

import numpy as np

from vsim.runner import Check
from . import native_lib as N
from .reader_lib import expect

# Bernstein's inequality: a mean of independent values in [0, 1] is further away from its expectation than slack() with a probability below 1e-12.
LOG = math.log(2e12)


def slack(p, rounds):
    a = LOG / 3
    return (a + math.sqrt(a * a + 2 * LOG * rounds * p * (1 - p))) / rounds


class C31(Check):
    property = "C31"
    rule = ("each run draws a graph whose nodes may have neighbors on several of up to 4 servers (or loaded directly), 1 to 3 kinds of sampling, each "
            "repeated some thousand times in requests with seeds and lengths of their own, network delays and a schedule, and compares every frequency "
            "with the weights; non-trivial = several partitions and a choice between at least two elements; distinct by configuration digest and switch sequence")
    real, stubbed = N.REAL, N.STUBBED
    assumptions = N.ASSUME + ["a frequency further from its expectation than a bound that chance exceeds with a probability below 1e-12 is wrong"]

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=6, temporal_p=0.3, maxservers=4)
        for nd in cfg["nodes"]:
            nd["f"] = []
            for e in nd["e"]:
                e["f"] = []
        cfg["nschema"] = cfg["eschema"] = []
        if rng.random() < 0.4:       # same weight in both directions
            cfg["dec"], cfg["temporal"], cfg["watermark"], cfg["sc"] = "el", False, None, "static"
            by = {nd["id"]: nd for nd in cfg["nodes"]}
            w = {}
            for nd in cfg["nodes"]:
                nd.pop("c", None), nd.pop("r", None)
                for e in nd["e"]:
                    w.setdefault(tuple(sorted((nd["id"], e["d"]))), (e["w"], e["t"]))
                nd["e"] = []
            for (a, b), (x, t) in w.items():
                for u, v in {(a, b), (b, a)}:
                    if u in by:
                        by[u]["e"].append({"d": v, "t": t, "w": x, "f": []})
            cfg["mutual"] = True
        total = 12000 if tier == "quick" else 30000
        cfg["tests"] = []
        for _ in range(rng.choice([1, 2, 3])):
            op = rng.choice(["ws", "ws", "us", "us", "uswr", "uswr", "node", "edge", "walk"])
            q = {"op": op, "seed": rng.randrange(1 << 40), "requests": rng.choice([10, 40, 150]), "total": total}
            if op in ("node", "edge"):
                ts = sorted({nd["t"] for nd in cfg["nodes"]} if op == "node" else {e["t"] for nd in cfg["nodes"] for e in nd["e"]})
                if not ts:
                    continue
                q["types"], q["kind"] = sorted(rng.sample(ts, rng.randrange(1, len(ts) + 1))), rng.choice(["weighted", "weighted", "uniform"])
            else:
                q["types"] = rng.sample(range(cfg["etypes"]), rng.choice([1, cfg["etypes"], cfg["etypes"]]))
                q["ids"] = [rng.choice(cfg["nodes"])["id"] for _ in range(rng.choice([1, 1, 2, 3]))]
                q["count"] = rng.choice([1, 1, 2, 3, 5])
                if cfg["temporal"] and rng.random() < 0.6:
                    q["t"] = [rng.randrange(0, 22) for _ in q["ids"]]
                q["p"], q["q"] = rng.choice([0.5, 1.0, 3.0]), rng.choice([0.5, 1.0, 3.0])
            cfg["tests"].append(q)
        n = cfg["native"]
        n["rates"] = {"net.slow_request": rng.choice([0, 0.3]), "net.slow_reply": rng.choice([0, 0.3, 0.8])}
        n["fault_budget"] = 1000
        n["faults"] = 1
        n["p_mem"] = min(n["p_mem"], 1e-5)
        n["p_hot"] = 0
        n["max_steps"] = 400000000
        cfg["sim"]["max_steps"] = 100000000
        cfg["local"] = rng.random() < 0.3
        cfg["label"] = ("local " if cfg["local"] else "servers ") + cfg["sc"]
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg)
        s = N.System(sim, cfg, out)
        self.n = info["n"] = {"requests": 0, "rounds": 0, "compared": 0}
        s.begin()
        info["phase"] = "start"
        if cfg["local"]:
            c = s.local(cfg["storage"][0])
        else:
            s.start_servers()
            c = s.connect()
        info["phase"] = "sample"
        for q in cfg["tests"]:
            if q["op"] in ("node", "edge"):
                self.elements(cfg, c, q)
            elif q["op"] == "walk":
                self.walks(cfg, m, c, q)
            else:
                self.neighbors(cfg, m, c, q)
        info["phase"] = "stop"
        s.stop()
        s.end()
        info["nontrivial"] = cfg["parts"] > 1 and self.n["compared"] > 1

    def compare(self, q, what, counts, rounds, share, where=""):
        """counts: how often each element was seen per round, summed over all rounds."""
        self.n["rounds"] += rounds
        if len(share) < 2 or not rounds:
            return
        for k in sorted(set(counts) | set(share), key=str):
            p = share.get(k, 0)
            f = counts.get(k, 0) / rounds
            self.n["compared"] += 1
            expect(abs(f - p) <= slack(p, rounds), "%s: %s has a share of %.4f of %d samples instead of %.4f (all: %s instead of %s), for %s" % (
                what, k, f, rounds, p, {x: round(v / rounds, 4) for x, v in sorted(counts.items(), key=str)},
                {x: round(v, 4) for x, v in sorted(share.items(), key=str)}, q), "%s%s: wrong frequencies" % (what, where))

    def split(self, q):
        """Sizes and seeds of the requests."""
        import random
        rng = random.Random(q["seed"])
        n, left, out = max(1, q["total"] // q["requests"]), q["total"], []
        while left > 0:
            k = min(left, rng.randrange(1, 2 * n + 1))
            out.append((k, rng.randrange(1 << 62)))
            left -= k
        self.n["requests"] += len(out)
        return out

    def neighbors(self, cfg, m, c, q):
        ids, k = q["ids"], q["count"]
        want = []
        for i, x in enumerate(ids):
            nb = m.neighbors(x, q["types"], q["t"][i] if "t" in q else None)
            w = Counter()
            for d, weight, t, _ in nb:
                w[(d, t)] += weight if q["op"] == "ws" else 1
            total = sum(w.values())
            want.append({y: (v / total if q["op"] != "uswr" else min(1.0, k / total)) for y, v in w.items()})
        counts, rounds = [Counter() for _ in ids], [0] * len(ids)
        size = len(ids) * k
        for n, seed in self.split(dict(q, total=q["total"] // size)):
            g = {"op": q["op"], "nodes": (ids * n), "types": q["types"], "count": k, "seed": seed, "dn": -1, "dw": 0.0, "dtp": -1, "rts": False}
            if "t" in q:
                g["ts"] = q["t"] * n
            r = N.ask(c, g)
            types = np.asarray(r[2] if q["op"] == "ws" else r[1]).reshape(n, len(ids), k)
            nodes = np.asarray(r[0]).reshape(n, len(ids), k)
            for i in range(len(ids)):
                rounds[i] += n
                u, cn = np.unique(np.stack([nodes[:, i].ravel(), types[:, i].ravel()]), axis=1, return_counts=True)
                for (a, b), v in zip(u.T.tolist(), cn.tolist()):
                    if (a, b) != (-1, -1):
                        counts[i][(a, b)] += v / (1 if q["op"] == "uswr" else k)
        # Partitions loaded by one process are merged in another way than answers of servers.
        many = cfg["parts"] if cfg["local"] else max(len(x) for x in cfg["place"])
        for i in range(len(ids)):
            where = ""
            if q["op"] == "ws" and many > 1 and k > 1 and (many > 2 or cfg["temporal"] or len({t for _, t in want[i]}) > 1):
                where = " of several partitions and streams in one process"
            self.compare(dict(q, node=ids[i]), {"ws": "weighted neighbors", "us": "uniform neighbors", "uswr": "distinct neighbors"}[q["op"]],
                         counts[i], rounds[i], want[i], where)

    def elements(self, cfg, c, q):
        w = {}
        for nd in cfg["nodes"]:
            if q["op"] == "node":
                if nd["t"] in q["types"]:
                    w[(nd["id"],)] = nd["w"] if q["kind"] == "weighted" else 1
            else:
                for e in nd["e"]:
                    if e["t"] in q["types"]:
                        w[(nd["id"], e["d"], e["t"])] = e["w"] if q["kind"] == "weighted" else 1
        total = sum(w.values())
        x = (N.snark_client.NodeSampler if q["op"] == "node" else N.snark_client.EdgeSampler)(c, list(q["types"]), q["kind"])
        counts, rounds = Counter(), 0
        for n, seed in self.split(q):
            r = x.sample(n, seed)
            rounds += n
            u, cn = np.unique(np.stack([np.asarray(y).astype(np.int64) for y in r]), axis=1, return_counts=True)
            for a, v in zip(u.T.tolist(), cn.tolist()):
                counts[tuple(a) if q["op"] == "edge" else (a[0],)] += v
        x.reset()
        self.compare(q, "%s %ss" % (q["kind"], q["op"]), counts, rounds, {k: v / total for k, v in w.items()})

    def walks(self, cfg, m, c, q):
        ids = q["ids"]
        ts = q.get("t")
        counts, rounds = [Counter() for _ in ids], 0
        second = [{} for _ in ids]
        length = 2 if cfg.get("mutual") else 1
        for n, seed in self.split(dict(q, total=q["total"] // (2 * len(ids)))):
            g = {"op": "walk", "nodes": ids * n, "types": q["types"], "len": length, "p": q["p"], "q": q["q"], "dn": -1, "seed": seed}
            if ts:
                g["ts"] = ts * n
            r = np.asarray(N.ask(c, g)).reshape(n, len(ids), length + 1)
            rounds += n
            for i in range(len(ids)):
                for w in r[:, i].tolist():
                    counts[i][w[1]] += 1
                    if length > 1:
                        second[i].setdefault(w[1], Counter())[w[2]] += 1
        for i, t in enumerate(ids):
            w = Counter()
            for d, weight, _, _ in m.neighbors(t, q["types"], ts[i] if ts else None):
                w[d] += weight
            total = sum(w.values())
            if not total or t in w:
                continue
            self.compare(dict(q, node=t), "walk", counts[i], rounds, {k: v / total for k, v in w.items()})
            for v, cn in second[i].items():
                nb = {}
                for d, weight, _, _ in m.neighbors(v, q["types"]):
                    nb[d] = weight / (q["p"] if d == t else 1 if d in w else q["q"])
                if v == t or t not in nb:
                    continue
                total = sum(nb.values())
                self.compare(dict(q, node=t, via=v), "second step of a walk", cn, sum(cn.values()), {k: x / total for k, x in nb.items()})

    def shrink(self, cfg):
        for i in range(len(cfg["tests"])):
            if len(cfg["tests"]) > 1:
                yield dict(cfg, tests=cfg["tests"][:i] + cfg["tests"][i + 1:])
        for i, q in enumerate(cfg["tests"]):
            if "ids" in q and len(q["ids"]) > 1:
                for j in range(len(q["ids"])):
                    x = dict(q, ids=q["ids"][:j] + q["ids"][j + 1:])
                    if "t" in q:
                        x["t"] = q["t"][:j] + q["t"][j + 1:]
                    yield dict(cfg, tests=cfg["tests"][:i] + [x] + cfg["tests"][i + 1:])
        for x in N.shrink_graph(cfg):
            yield x


CHECK = C31()
