"""C29: what the client interface builds out of graph queries agrees with the graph."""
import copy
import random
from collections import Counter

import numpy as np

from vsim.core import Violation
from vsim.runner import Check
from . import convert_lib as V
from . import native_lib as N
from .reader_lib import expect, short
from deepgnn.graph_engine import graph_ops, multihop
from deepgnn.graph_engine.samplers import GEEdgeSampler, GENodeSampler

KINDS = ["net.unavailable", "net.status", "net.lost_reply", "net.reset"]
STRATEGY = {"ws": "byweight", "us": "random", "uswr": "randomwithoutreplacement"}
API = ["types", "nf", "nf", "ef", "cnt", "nb", "lastn", "ws", "us", "uswr", "walk", "ppr"]
SAMPLE = {"weighted": "Weighted", "uniform": "Random", "withoutreplacement": "RandomWithoutReplacement"}


class C29(Check):
    property = "C29"
    rule = ("each run draws a graph on up to 4 servers (or some of its partitions loaded directly), 2 to 7 multi-hop expansions, sub-graphs, edge samplings, "
            "skip-gram sets, sampler epochs or plain queries through the client interface, failing calls in a part of the runs and a schedule; non-trivial = "
            "at least two servers, a failed call or a part of the partitions; distinct by configuration digest, switch sequence and faults fired")
    real = N.REAL + ["deepgnn.graph_engine.snark.local", "deepgnn.graph_engine.snark.distributed", "deepgnn.graph_engine.multihop",
                     "deepgnn.graph_engine.graph_ops", "graph samplers of deepgnn.graph_engine.samplers"]
    stubbed, assumptions = N.STUBBED, N.ASSUME

    def gen(self, rng, tier, index):
        cfg = N.gen_graph_cfg(rng, maxn=8, maxservers=4, multi_p=rng.choice([0, 0.2]))
        cfg["sc"] = rng.choice(["local", "calm", "calm", "faults", "faults"])
        cfg["local"] = cfg["sc"] == "local"
        cfg["load"] = list(range(cfg["parts"]))
        if cfg["local"] and rng.random() < 0.6:
            cfg["load"] = rng.sample(cfg["load"], rng.randrange(0, cfg["parts"] + 1))
        cfg["dserver"] = rng.random() < 0.4
        if cfg["dserver"]:
            k = rng.randrange(1, cfg["parts"] + 1)
            cfg["place"] = [list(range(i, cfg["parts"], k)) for i in range(k)]
            cfg["storage"] = [rng.choice([0, 0, 1]) for _ in range(k)]
        cfg["copy"] = rng.random() < 0.15
        cfg["attempts"] = rng.choice([1, 1, 2, 5])
        full = len(cfg["load"]) == cfg["parts"]
        cfg["queries"] = [self.gen_query(rng, cfg, full) for _ in range(rng.randrange(2, 8))]
        n = cfg["native"]
        n["rates"] = {k: rng.choice([0, 0.02, 0.1]) if cfg["sc"] == "faults" else 0 for k in KINDS}
        n["rates"].update({"net.slow_request": rng.choice([0, 0.3]), "net.slow_reply": rng.choice([0, 0.3])})
        n["fault_budget"] = rng.choice([1, 2, 5, 1000])
        return cfg

    def gen_query(self, rng, cfg, full):
        ids = [nd["id"] for nd in cfg["nodes"]]

        def types():
            return rng.sample(range(cfg["etypes"] + 1), rng.randrange(1, cfg["etypes"] + 2))

        op = rng.choice(["fan", "fan", "gn", "gn", "oe", "sub", "sub", "skip", "batch", "batch", "api", "api", "api"])
        q = {"op": op, "rs": rng.randrange(1 << 60), "nodes": [rng.choice(ids) if rng.random() < 0.85 else rng.randrange(60, 130) for _ in range(rng.choice([1, 2, 3, 5]))]}
        if op == "fan":
            k = rng.randrange(1, 4)
            q.update(hops=[types() for _ in range(k)], counts=[rng.choice([1, 2, 3]) for _ in range(k)], how=rng.choice(list(STRATEGY)), dn=rng.choice([-1, 777]))
        elif op == "gn":
            q.update(hops=[types() for _ in range(rng.randrange(1, 4))], most=rng.choice([1, 2, 4, 10]))
        elif op == "oe":
            q.update(types=types(), count=rng.choice([1, 2, 5]), how=rng.choice(list(STRATEGY)))
            fids = [i for i, s in enumerate(cfg["eschema"]) if s["k"] == "dense"]
            if fids and not cfg["multi"]:      # parallel edges share one key for their features
                f = rng.choice(fids)
                q["dt"], q["feats"] = cfg["eschema"][f]["d"], [[f, cfg["eschema"][f]["n"]]]
        elif op == "sub":
            q.update(types=types(), hops=rng.choice([1, 2, 3, 4, 5]), loop=rng.random() < 0.5, both=rng.random() < 0.5, edges=rng.random() < 0.5)
            if rng.random() < 0.15:
                q.update(hops=1, loop=True, both=True, edges=False, plain=True)
        elif op == "skip":
            q.update(types=types(), len=rng.choice([1, 2, 4, 7]), p=rng.choice([0.5, 1.0, 3.0]), q=rng.choice([0.5, 1.0, 3.0]), dn=rng.choice([-1, 777]),
                     left=rng.choice([0, 1, 2, 4]), right=rng.choice([0, 1, 2, 4]))
        elif op == "batch" and full:
            what = rng.choice(["node", "edge"])
            # samplers without replacement know parallel edges once
            of = [nd["t"] for nd in cfg["nodes"]] if what == "node" else [k[2] for k in sorted({(nd["id"], e["d"], e["t"]) for nd in cfg["nodes"] for e in nd["e"]})]
            if not of:
                return self.gen_query(rng, cfg, full)
            ts = rng.choice(of)
            if rng.random() < 0.6:
                ts = sorted({ts} | set(rng.sample(range(max(of) + 1), rng.randrange(0, max(of) + 2))))
            total = sum(t in ts for t in of) if isinstance(ts, list) else of.count(ts)
            kind = rng.choice(list(SAMPLE))
            q.update(what=what, types=ts, kind=kind, size=rng.randrange(1, total + 1) if kind == "withoutreplacement" else rng.choice([1, 2, 3, 7]),
                     epochs=rng.choice([1, 1, 2, 3]), num=rng.choice([-1, -1, 1, 5, 8]), workers=rng.choice([1, 1, 2]), dp=rng.choice([1, 1, 2]))
        elif op == "batch":
            return self.gen_query(rng, cfg, full)
        elif op == "api":
            q["q"] = N.gen_query(rng, cfg, [x for x in API if x != "ef" or not cfg["multi"]])
            if "nodes" in q["q"] and q["q"]["op"] == "types":
                q["q"]["dtp"] = -1
            q["one"] = rng.random() < 0.3
            q.pop("nodes")
        return q

    # ------------------------------------------------------------------ run
    def run(self, sim, cfg):
        info = sim.info
        out = N.make_graph(sim, cfg)
        m = N.Model(cfg) if not cfg["local"] else self.part_model(cfg)
        s = N.System(sim, cfg, out)
        n = info["n"] = dict.fromkeys(["queries", "failed", "repeated", "copied", "parts"] + sorted({q["op"] for q in cfg["queries"]}), 0)
        s.begin()
        info["phase"] = "start"
        if cfg["local"]:
            c = N.snark_local.Client(out, list(cfg["load"]), N.snark_client.PartitionStorageType(cfg["storage"][0]))
            s.clients.append(c)
            n["parts"] += len(cfg["load"]) < cfg["parts"]
        else:
            if cfg["dserver"]:
                for i in range(len(cfg["place"])):
                    s.servers[i] = N.snark_distributed.Server(N.address(i), out, i, len(cfg["place"]),
                                                              storage_type=N.snark_client.PartitionStorageType(cfg["storage"][i]))
            else:
                s.start_servers()
            c = s.connect(cfg["attempts"], kind=N.snark_distributed.Client, single=cfg["copy"])
            if cfg["copy"]:
                c = copy.copy(c)      # what passing the client to another worker does
                s.clients.append(c)
                n["copied"] += 1
        info["phase"] = "query"
        s.native.faults(cfg["sc"] == "faults")
        for q in cfg["queries"]:
            n["queries"] += 1
            first = None
            for again in range(2 if cfg["local"] else 1):
                random.seed(q["rs"])
                try:
                    r = getattr(self, "do_" + q["op"])(c, q)
                except (Violation, AttributeError, TypeError, IndexError, AssertionError, UserWarning):
                    raise
                except Exception as e:
                    n["failed"] += 1
                    expect(cfg["sc"] == "faults", "%s fails without any fault: %r" % (q, e), "query fails without a fault")
                    continue
                N.judge(getattr(self, "check_" + q["op"]), q, m, q, r)
                n[q["op"]] += 1
                if again and first is not None and not (q["op"] == "api" and q["q"]["op"] == "ppr"):
                    n["repeated"] += 1
                    x = self.plain(q, r)
                    expect(first == x, "%s and %s with the same random state for %s" % (short(first), short(x), q), "same random state, other answer")
                first = self.plain(q, r)
        info["phase"] = "stop"
        s.native.faults(False)
        s.stop()
        s.end()
        expect(n["failed"] == 0 or any(k in sim.fired for k in KINDS), "%d queries failed without any fault" % n["failed"], "query fails without a fault")
        info["nontrivial"] = n["failed"] > 0 or n["parts"] > 0 or (not cfg["local"] and len(cfg["place"]) > 1)

    def part_model(self, cfg):
        """The input as far as it lies in the loaded partitions."""
        c = N.convert_cfg(cfg)
        groups = V.grouped_items(c)
        _, order = V.file_entries(c, groups)
        where = {id(it): p for p, its in V.assign(c, order).items() for it in its}
        nodes = []
        for nd, its in zip(cfg["nodes"], groups):
            has = [where[id(it)] in (cfg["load"] or [0]) for it in its]
            x = dict(nd)
            if cfg["dec"] == "el":
                es = sorted(nd["e"], key=lambda e: (e["t"], e["d"]))
                x["e"] = [e for e, h in zip(es, has[1:]) if h]
                if not has[0]:
                    x.update(t=-1, f=[])
            elif not has[0]:
                continue
            nodes.append(x)
        return N.Model(dict(cfg, nodes=nodes))

    def plain(self, q, r):
        """The part of an answer that is settled by the query."""
        def f(x):
            if isinstance(x, (list, tuple)):
                return [f(y) for y in x]
            return x.tolist() if isinstance(x, (np.ndarray, np.generic)) else x

        drop = q["op"] == "fan" and q["how"] != "ws"
        if q["op"] == "api" and q["q"]["op"] in ("us", "uswr"):
            return f([r[0], r[2], r[3]])
        return f([r[0], r[2]] if drop else r)

    # ----------------------------------------------------------- operations
    def do_fan(self, c, q):
        return multihop.sample_fanout(c, np.array(q["nodes"], dtype=np.int64), q["hops"], q["counts"], q["dn"], STRATEGY[q["how"]])

    def check_fan(self, m, q, r):
        nodes, weights, types = r
        N.same(nodes[0].tolist(), q["nodes"], q, "starting nodes")
        expect(len(nodes) == len(q["hops"]) + 1 and len(weights) == len(types) == len(q["hops"]), "%d hops for %s" % (len(types), q), "wrong number of hops")
        for h, (ts, k) in enumerate(zip(q["hops"], q["counts"])):
            up = [int(x) for x in nodes[h]]
            for a in (nodes[h + 1], types[h], weights[h]):
                N.same(a.shape, (len(up) * k,), q, "size of hop %d" % (h + 1))
            sub = {"op": q["how"], "nodes": up, "types": ts, "count": k, "dn": q["dn"], "dw": 0.0, "dtp": -1, "rts": False, "hop": h, "of": q}
            a, w, t = (x.reshape(len(up), k) for x in (nodes[h + 1], weights[h], types[h]))
            N.check_answer(m, sub, (a, w, t) if q["how"] == "ws" else (a, t))

    def do_gn(self, c, q):
        try:
            return multihop.get_neighbor(c, np.array(q["nodes"], dtype=np.int64), [np.array(h, dtype=np.int32) for h in q["hops"]], q["most"])
        except UserWarning:
            return "too many"

    def check_gn(self, m, q, r):
        cur, size, want = list(q["nodes"]), len(q["nodes"]), []
        for ts in q["hops"]:
            rows = [(i, y[0], y[1]) for i, x in enumerate(cur) for y in m.neighbors(x, ts)]
            if len(rows) > size * q["most"]:
                N.same(r, "too many", q, "answer when there are more neighbors than allowed")
                return
            size, nxt = size * q["most"], sorted({x[1] for x in rows})
            want.append((rows, nxt, len(cur), size))
            cur = nxt
        expect(not isinstance(r, str), "too many neighbors reported for %s" % q, "too many neighbors reported")
        nodes, adj = r
        N.same(nodes[0][0].tolist(), q["nodes"], q, "starting nodes")
        N.same((len(nodes), len(adj)), (len(want) + 1, len(want)), q, "number of hops")
        for h, (rows, nxt, up, size) in enumerate(want):
            N.same(nodes[h + 1][0].tolist(), nxt + [0] * (size - len(nxt)), q, "nodes of hop %d" % (h + 1))
            N.same(int(nodes[h + 1][1][0]), len(nxt), q, "node count of hop %d" % (h + 1))
            idx, val, shape, k = adj[h]
            N.same([int(x) for x in shape], [up, len(nxt)], q, "matrix shape of hop %d" % (h + 1))
            N.same(int(k[0]), len(rows), q, "entry count of hop %d" % (h + 1))
            N.same((idx.shape, val.shape), ((size, 2), (size,)), q, "padded size of hop %d" % (h + 1))
            got = Counter((int(i), nxt[int(j)] if int(j) < len(nxt) else None, round(float(v), 3)) for (i, j), v in zip(idx[:len(rows)], val[:len(rows)]))
            N.same(got, Counter((i, d, round(w, 3)) for i, d, w in rows), q, "matrix of hop %d" % (h + 1))
            expect(not idx[len(rows):].any() and not val[len(rows):].any(), "padding of hop %d is not empty for %s" % (h + 1, q), "padding is not empty")

    def do_oe(self, c, q):
        a = (c, np.array(q["nodes"], dtype=np.int64), np.array(q["types"], dtype=np.int32), q["count"], STRATEGY[q["how"]])
        if "feats" in q:
            return graph_ops.sample_out_edges(*a, edge_feature_meta=np.array(q["feats"], dtype=np.int32), edge_feature_type=N.npdt(q["dt"]))
        return graph_ops.sample_out_edges(*a)

    def check_oe(self, m, q, r):
        edges, feats = r
        k = q["count"]
        N.same(edges.shape, (len(q["nodes"]) * k, 3), q, "shape of edges")
        N.same(edges[:, 0].tolist(), [x for x in q["nodes"] for _ in range(k)], q, "sources of edges")
        sub = {"op": "uswr" if q["how"] == "uswr" else "us", "nodes": q["nodes"], "types": q["types"], "count": k, "dn": -1, "dw": 0.0, "dtp": -1, "rts": False, "of": q}
        N.check_answer(m, sub, (edges[:, 1].reshape(-1, k), edges[:, 2].reshape(-1, k)))
        if "feats" in q:
            N.check_answer(m, {"op": "ef", "edges": edges.tolist(), "feats": q["feats"], "dt": q["dt"]}, feats)
        else:
            expect(feats is None, "features %s for %s" % (feats, q), "features nobody asked for")

    def do_sub(self, c, q):
        if q.get("plain"):
            return graph_ops.sub_graph(c, np.array(q["nodes"], dtype=np.int64), np.array(q["types"], dtype=np.int32))
        return graph_ops.sub_graph(c, np.array(q["nodes"], dtype=np.int64), np.array(q["types"], dtype=np.int32), q["hops"], q["loop"], q["both"], q["edges"])

    def check_sub(self, m, q, r):
        level, seen = set(q["nodes"]), set(q["nodes"])
        for _ in range(q["hops"] - 1):
            level = {y[0] for x in level for y in m.neighbors(x, q["types"])}
            seen |= level
        edges = [(x, y[0]) for x in seen for y in m.neighbors(x, q["types"])]
        every = sorted(set(q["nodes"]) | {x for e in edges for x in e})
        nodes, adj, src = r
        N.same([int(x) for x in nodes], every, q, "nodes of the sub-graph")
        N.same([every[int(i)] for i in src], q["nodes"], q, "position of the starting nodes")
        want = set(edges) | ({(b, a) for a, b in edges} if q["both"] else set()) | ({(x, x) for x in every} if q["loop"] else set())
        if q["edges"]:
            got = [(every[int(a)], every[int(b)]) for a, b in adj]
            N.same(set(got), want, q, "edges of the sub-graph")
            if q["loop"] or q["both"]:
                N.same(len(got), len(want), q, "number of edges of the sub-graph")
            else:
                N.same(Counter(got), Counter(edges), q, "edges of the sub-graph")
        else:
            N.same(adj.shape, (len(every), len(every)), q, "shape of the adjacency matrix")
            N.same({(every[i], every[j]) for i, j in zip(*np.nonzero(adj))}, want, q, "adjacency matrix")

    def do_skip(self, c, q):
        walk = c.random_walk(np.array(q["nodes"], dtype=np.int64), np.array(q["types"], dtype=np.int32), q["len"], q["p"], q["q"], q["dn"])
        return walk, graph_ops.gen_skipgrams(walk, q["left"], q["right"]), graph_ops.get_skipgrams_size(walk.shape[1], q["left"], q["right"])

    def check_skip(self, m, q, r):
        walk, pairs, size = r
        N.check_answer(m, dict(q, op="walk"), walk)
        want = []
        for w in walk.tolist():
            for j, x in enumerate(w):
                want += [(x, w[k]) for k in range(max(0, j - q["left"]), min(len(w), j + q["right"] + 1)) if k != j]
        N.same(size * len(walk), len(want), q, "number of pairs")
        N.same([tuple(x) for x in pairs.tolist()], want, q, "pairs of walks %s" % walk.tolist())

    def do_batch(self, c, q):
        ts = np.array(q["types"], dtype=np.int32) if isinstance(q["types"], list) else q["types"]
        kind = GENodeSampler if q["what"] == "node" else GEEdgeSampler
        x = kind(c, ts, q["size"], q["epochs"], q["num"], q["workers"], getattr(N.SamplingStrategy, SAMPLE[q["kind"]]), q["dp"], q["dp"] - 1)
        out, it = [], iter(x)
        for _ in range(1000):
            try:
                out.append(next(it))
            except StopIteration:
                return len(x), out
        raise Violation("sampler does not end for %s" % q, "sampler does not end")

    def check_batch(self, m, q, r):
        ts = q["types"] if isinstance(q["types"], list) else [q["types"]]
        of = [nd["t"] for nd in m.cfg["nodes"]] if q["what"] == "node" else [e["t"] for nd in m.cfg["nodes"] for e in nd["e"]]
        total = sum(t in ts for t in of) if q["num"] == -1 else q["num"]
        k = -(-q["epochs"] * total // (q["size"] * q["workers"] * q["dp"]))
        N.same((r[0], len(r[1])), (k, k), q, "number of batches")
        for b in r[1]:
            if q["what"] == "node":
                pool = {nd["id"] for nd in m.cfg["nodes"] if nd["t"] in ts}
                got = [int(x) for x in b]
            else:
                pool = {k for k in m.edge if k[2] in ts}
                got = [tuple(int(y) for y in x) for x in b]
            N.same(len(got), q["size"], q, "size of a batch")
            expect(set(got) <= pool, "batch %s holds elements that do not exist, for %s" % (got, q), "sampled element does not exist")
            if q["kind"] == "withoutreplacement" and not m.cfg["multi"]:
                N.same(len(set(got)), len(got), q, "number of different elements in a batch")

    def do_api(self, c, q):
        one, q = q["one"], q["q"]
        op, nodes = q["op"], np.array(q.get("nodes", []), dtype=np.int64)
        ts = np.array(q["ts"], dtype=np.int64) if "ts" in q else None
        et = None
        if "types" in q:
            et = int(q["types"][0]) if one and len(q["types"]) == 1 else np.array(q["types"], dtype=np.int32)
        if op == "types":
            return c.node_types(nodes)
        if op == "nf":
            return c.node_features(nodes, np.array(q["feats"], dtype=np.int32), N.npdt(q["dt"]), ts)
        if op == "ef":
            return c.edge_features(np.array(q["edges"], dtype=np.int64), np.array(q["feats"], dtype=np.int32), N.npdt(q["dt"]), ts)
        if op == "cnt":
            return c.neighbor_count(nodes, et, ts)
        if op == "nb":
            return c.neighbors(nodes, et, ts, q["rts"])
        if op == "walk":
            return c.random_walk(nodes, et, q["len"], q["p"], q["q"], q["dn"], ts)
        kw = dict(default_node=q["dn"], timestamps=ts)
        if op == "ppr":
            return c.sample_neighbors(nodes, et, q["count"], "ppr-go", default_weight=q["dw"], alpha=q["alpha"], eps=q["eps"], **kw)
        how = "lastn" if op == "lastn" else STRATEGY[op]
        return c.sample_neighbors(nodes, et, q["count"], how, default_weight=q["dw"], default_edge_type=q["dtp"], return_edge_created_ts=q["rts"], **kw)

    def check_api(self, m, q, r):
        q = q["q"]
        if q["op"] in ("us", "uswr"):
            self.times(q, r)
            r = (r[0], r[2]) + ((r[3],) if q["rts"] else ())
        elif q["op"] == "ws":
            self.times(q, r)
            r = r if q["rts"] else r[:3]
        elif q["op"] == "ppr":
            self.times(q, r)
            r = r[:2]
        N.check_answer(m, q, r)

    def times(self, q, r):
        N.same(len(r), 4, q, "number of arrays")
        N.same(r[3].shape, (len(q["nodes"]), q["count"]), q, "shape of creation times")
        if not q.get("rts"):
            expect((r[3] == -1).all(), "creation times %s for %s" % (r[3].tolist(), q), "creation times nobody asked for")

    def shrink(self, cfg):
        plain = all("nodes" in q for q in cfg["queries"])
        for c in N.shrink_graph(cfg) if plain else ():
            yield c
        if not plain:
            for i in range(len(cfg["queries"])):
                if len(cfg["queries"]) > 1:
                    yield dict(cfg, queries=cfg["queries"][:i] + cfg["queries"][i + 1:])
            for i, q in enumerate(cfg["queries"]):
                if "nodes" not in q and len(cfg["queries"]) == 1:
                    for c in N.shrink_graph(dict(cfg, queries=[q["q"]])):
                        yield dict(c, queries=[dict(q, q=c["queries"][0])])


CHECK = C29()
