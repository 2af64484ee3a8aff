"""Graphs served by the C++ engine under the native simulator: generator, reference model, query driver."""
import json
import os
import struct
from collections import Counter

import numpy as np

from vsim import core
from vsim.core import Violation
from nsim import glue
from . import convert_lib as V
from .reader_lib import expect, short
from deepgnn.graph_engine.snark import client as snark_client, distributed as snark_distributed, local as snark_local, server as snark_server, _lib
from deepgnn.graph_engine import SamplingStrategy

REAL = ["all of src/cc/lib (graph engine, samplers, server, client, C interface)", "deepgnn.graph_engine.snark.client",
        "deepgnn.graph_engine.snark.server", "deepgnn.graph_engine.snark.convert and all it uses (produces the served files)", "protobuf",
        "abseil hash map", "tenacity"]
STUBBED = ["gRPC transport, channels and completion queues (simulated network with the same interface)", "thread scheduling, locks and condition variables",
           "clock", "memory allocation (checked heap)", "file reads (real files behind a fault seam)", "log sink", "Hadoop client library (local folders behind a fault seam)"]
ASSUME = ["threads are preempted at memory accesses, locks and system calls of instrumented code; memory is sequentially consistent",
          "protobuf and abseil run without preemption inside a call",
          "the simulated transport delivers each reply at most once, in any order, after any delay, and reports failures only through the call status"]

NP = {"float": "float32", "double": "float64"}


def npdt(d):
    return np.dtype(NP.get(d, d))


# ------------------------------------------------------------------ generate
def gen_schema(rng, dec, temporal):
    """Feature kinds by feature id."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        ks = ["dense", "dense", "bin"]
        if dec != "tsv":
            ks.append("sparse")
        if temporal and dec == "json":
            ks += ["tdense", "tdense"]
        k = rng.choice(ks)
        out.append({"k": k, "d": rng.choice(V.DTYPES), "n": rng.choice([1, 2, 3, 5]), "dim": rng.choice([1, 1, 2, 3])})
    return out


def gen_feats(rng, dec, schema, p):
    fs = []
    for s in schema:
        if rng.random() > p:
            fs.append(None)
        elif s["k"] == "bin":
            fs.append({"b": rng.choice(V.STRINGS[1:])})
        elif s["k"] == "dense":
            fs.append({"d": s["d"], "v": V.gen_vals(rng, s["d"], s["n"])})
        elif s["k"] == "sparse":
            n = rng.choice([1, 2, 3])
            c = [[rng.randrange(0, 50) for _ in range(s["dim"])] for _ in range(n)]
            fs.append({"s": s["d"], "c": c, "v": V.gen_vals(rng, s["d"], n)})
        else:
            times = rng.sample(range(0, 20), rng.choice([1, 2, 3]))
            fs.append({"t": s["d"], "iv": [{"created_at": t, "values": V.gen_vals(rng, s["d"], s["n"])} for t in times]})
    return V.trim(dec, fs)


def gen_graph_cfg(rng, maxn=10, temporal_p=0.35, multi_p=0.0, maxservers=3):
    dec = rng.choice(["json", "json", "el", "el", "tsv"])
    temporal = rng.random() < temporal_p and dec != "tsv"
    ns, es = gen_schema(rng, dec, temporal), gen_schema(rng, dec, temporal)
    n = rng.choice([1, 2, 3, rng.randrange(2, maxn + 1), rng.randrange(2, maxn + 1), maxn])
    nt, et = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5])
    ids = rng.sample(range(0, 60 if n < 60 else 3 * n), n)
    if rng.random() < 0.15:
        ids = [i if rng.random() < 0.5 else (1 << 40) + i for i in ids]
    p = rng.choice([0.3, 0.7, 1.0])
    times = rng.choice([12, 12, 4])
    multi = rng.random() < multi_p
    hub = rng.choice(ids) if rng.random() < 0.15 else None      # a node with long runs of edges of one type
    nodes = []
    for i in ids:
        nd = {"id": i, "t": rng.randrange(nt), "w": rng.choice([1.0, 0.5, 2.0, 0.25]), "f": gen_feats(rng, dec, ns, p), "e": []}
        if temporal:
            nd["c"], nd["r"] = 0, -1
        seen = set()
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]) if i != hub else rng.choice([17, 18, 30, 45])):
            d = rng.choice(ids) if rng.random() < 0.8 and i != hub else rng.randrange(100, 180 if i == hub else 130)
            t = rng.randrange(et) if i != hub or rng.random() < 0.1 else et // 2
            if (d, t) in seen and not multi:
                continue
            seen.add((d, t))
            e = {"d": d, "t": t, "w": rng.choice([1.0, 0.5, 2.0, 0.25, 4.0]), "f": gen_feats(rng, dec, es, p)}
            if temporal:
                e["c"] = rng.randrange(0, times)
                e["r"] = rng.choice([-1, -1, e["c"] + rng.randrange(1, 9)])
                e["explicit"] = [True, True]
            nd["e"].append(e)
        nodes.append(nd)
    parts = rng.choice([1, 2, 2, 3, 4])
    servers = rng.randrange(1, maxservers + 1)
    place = [[] for _ in range(servers)]
    for q in range(parts):
        place[rng.randrange(servers) if rng.random() < 0.7 else q % servers].append(q)
    if rng.random() < 0.85:
        place = [x for x in place if x]   # else servers without partitions stay
    for x in place:
        rng.shuffle(x)
    native, client = gen_native(rng), [rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])]
    if rng.random() < 0.15:       # replies that are handled at the same time
        native.update(p_hot=rng.choice([0.05, 0.2]), p_stall=0.5)
        client = [rng.choice([2, 3]), rng.choice([1, 2])]
    return {"sc": "temporal" if temporal else "static", "dec": dec, "temporal": temporal, "nodes": nodes, "nschema": ns, "eschema": es,
            "ntypes": nt, "etypes": et, "parts": parts, "place": place, "files": V.split_files(rng, nodes, rng.choice([1, 1, 2])),
            "func": rng.choice(["crc", "crc", "first", "count", "skew"]), "watermark": rng.choice([30, 30, 0]) if temporal else None, "multi": multi,
            "storage": [rng.choice([0, 0, 1]) for _ in place], "client_threads": client[0], "client_cqs": client[1],
            "native": native, "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 3000000, "pipe_cap": 65536, "p": 0.002}}


def gen_native(rng):
    return {"p_hot": rng.choice([0, 0, 0.001, 0.01, 0.1]), "p_stall": rng.choice([0, 0.2, 0.8]),
            "p_mem": rng.choice([0, 1e-5, 1e-4, 1e-3]), "p_sync": rng.choice([0.0, 0.02, 0.1, 0.5]), "p_block": rng.choice([0.0, 0.3, 1.0]),
            "nprocs": rng.choice([1, 2, 3]), "shuffle_dirs": 1, "max_steps": 40000000}


def convert_cfg(cfg):
    mode = "queue_thread"
    c = dict(cfg, sc=mode, offset=0)
    _, order = V.file_entries(c, V.grouped_items(c))
    if len(V.assign(c, order)) < cfg["parts"]:
        mode = "default"      # partitions without any line are only written by the round robin dispatcher
    return dict(cfg, sc=mode, offset=0, skipn=False, skipe=False, dtype=False, batch=512, block=10000000, queue=30, threads=1)


# --------------------------------------------------------------------- model
class Model:
    """What the input text says."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.node = {nd["id"]: nd for nd in cfg["nodes"]}
        self.edge = {}
        for nd in cfg["nodes"]:
            for e in nd["e"]:
                self.edge.setdefault((nd["id"], e["d"], e["t"]), e)

    @staticmethod
    def alive(e, ts):
        return ts is None or (e["c"] <= ts and (e["r"] == -1 or e["r"] > ts))

    def neighbors(self, n, types, ts=None):
        nd = self.node.get(n)
        if nd is None:
            return []
        return [(e["d"], V.f32(e["w"]), e["t"], e.get("c", -1)) for e in nd["e"] if e["t"] in types and self.alive(e, ts)]

    def feature(self, owner, fid):
        fs = owner["f"] if owner else []
        return fs[fid] if fid < len(fs) else None

    def dense(self, owner, fid, size, dt, ts):
        f = self.feature(owner, fid)
        if f is None:
            raw = b""
        elif ts is not None and "t" in f:
            iv = [x for x in sorted(f["iv"], key=lambda x: x["created_at"]) if x["created_at"] <= ts]
            raw = struct.pack("=%d%s" % (len(iv[-1]["values"]), V.FMT[f["t"]]), *iv[-1]["values"]) if iv else b""
        else:
            raw = V.feature_bytes(f)
        raw = raw[:size * dt.itemsize]
        return raw + b"\0" * (size * dt.itemsize - len(raw))


# ------------------------------------------------------------------- queries
def gen_query(rng, cfg, ops=None):
    """One random query against the graph."""
    ids = [nd["id"] for nd in cfg["nodes"]]
    edges = [(nd["id"], e["d"], e["t"]) for nd in cfg["nodes"] for e in nd["e"]]
    ops = ops or ["types", "nf", "nf", "nsf", "nstr", "ef", "ef", "esf", "estr", "cnt", "nb", "nb", "lastn"]
    if cfg["temporal"] and "lastn" in ops:
        ops = ops + ["lastn"] * 2
    for _ in range(20):
        op = rng.choice(ops)
        q = {"op": op}
        k = rng.choice([1, 1, 2, 3, 5, 8])
        if op in ("ef", "esf", "estr"):
            q["edges"] = [list(rng.choice(edges)) if edges and rng.random() < 0.8 else
                          [rng.choice(ids), rng.choice(ids) if rng.random() < 0.6 else rng.randrange(100, 180), rng.randrange(cfg["etypes"] + 1)]
                          for _ in range(k)]
        else:
            q["nodes"] = [rng.choice(ids) if rng.random() < 0.8 else rng.randrange(60, 130) for _ in range(k)]
        sch = cfg["eschema" if op in ("ef", "esf", "estr") else "nschema"]
        if op in ("nf", "ef"):
            temporal = cfg["temporal"] and rng.random() < 0.6
            fids = [i for i, s in enumerate(sch) if s["k"] == ("tdense" if temporal else "dense")]
            if not fids:
                continue
            f0 = rng.choice(fids)
            q["dt"] = sch[f0]["d"]
            q["feats"] = [[f, rng.choice([sch[f]["n"], sch[f]["n"], 1, sch[f]["n"] + 2])] for f in fids
                          if f == f0 or (sch[f]["d"] == q["dt"] and rng.random() < 0.7)]
            rng.shuffle(q["feats"])
            if rng.random() < 0.2:
                q["feats"].append([len(sch) + 1, 2])
            if temporal:
                q["ts"] = [rng.randrange(0, 22) for _ in range(k)]
        elif op in ("nsf", "esf"):
            fids = [i for i, s in enumerate(sch) if s["k"] == "sparse"]
            if not fids:
                continue
            f0 = rng.choice(fids)
            q["dt"] = sch[f0]["d"]
            q["feats"] = [f for f in fids if f == f0 or (sch[f]["d"] == q["dt"] and rng.random() < 0.7)]
            rng.shuffle(q["feats"])
        elif op in ("nstr", "estr"):
            fids = [i for i, s in enumerate(sch) if s["k"] in ("bin", "dense")]
            if not fids:
                continue
            q["feats"] = rng.sample(fids, rng.randrange(1, len(fids) + 1))
            if rng.random() < 0.1:
                q["feats"].append(len(sch) + 1)
        elif op in ("cnt", "nb", "lastn", "ws", "us", "uswr"):
            q["types"] = rng.sample(range(cfg["etypes"] + 1), rng.randrange(1, cfg["etypes"] + 2))
            if op == "lastn" and not cfg["temporal"]:
                continue
            if cfg["temporal"] and (op == "lastn" or rng.random() < 0.6):
                q["ts"] = [rng.randrange(0, 22) for _ in range(k)]
            if op in ("nb", "lastn", "ws", "us", "uswr"):
                q["rts"] = rng.random() < (0.5 if "ts" in q else 0.2 if op == "nb" and not cfg["temporal"] else 0)
            if op in ("lastn", "ws", "us", "uswr"):
                q["count"] = rng.choice([1, 2, 3, 5, 12])
                q["seed"] = rng.randrange(1 << 60)
                q["dn"], q["dw"], q["dtp"] = rng.choice([-1, 777]), rng.choice([0.0, 0.5]), rng.choice([-1, 9])
        elif op in ("walk", "ppr"):
            q["types"] = rng.sample(range(cfg["etypes"] + 1), rng.randrange(1, cfg["etypes"] + 2))
            if cfg["temporal"] and rng.random() < 0.6:
                q["ts"] = [rng.randrange(0, 22) for _ in range(k)]
            q["dn"] = rng.choice([-1, 777])
            if op == "walk":
                q["len"], q["seed"] = rng.choice([1, 2, 3, 5, 9]), rng.randrange(1 << 60)
                q["p"], q["q"] = rng.choice([0.5, 1.0, 3.0, 1e6]), rng.choice([0.5, 1.0, 3.0])
            else:
                q["count"], q["dw"] = rng.choice([1, 2, 3, 5, 12, 40]), rng.choice([0.0, -1.0])
                q["alpha"], q["eps"] = rng.choice([0.15, 0.5, 0.85]), rng.choice([1e-2, 1e-3, 1e-4])
        elif op == "types":
            q["dtp"] = rng.choice([-1, -2, 9])
        return q
    return {"op": "types", "nodes": [ids[0]], "dtp": -1}


def ask(g, q):
    """Send one query; returns plain data."""
    op = q["op"]
    ts = np.array(q["ts"], dtype=np.int64) if "ts" in q else None
    if op == "types":
        return g.node_types(np.array(q["nodes"]), q["dtp"])
    if op == "nf":
        return g.node_features(np.array(q["nodes"]), np.array(q["feats"]), npdt(q["dt"]), timestamps=ts)
    if op == "nsf":
        return g.node_sparse_features(np.array(q["nodes"]), np.array(q["feats"]), npdt(q["dt"]), timestamps=ts)
    if op == "nstr":
        return g.node_string_features(np.array(q["nodes"]), np.array(q["feats"]), np.dtype(np.uint8), timestamps=ts)
    if op in ("ef", "esf", "estr"):
        e = np.array(q["edges"], dtype=np.int64).reshape((-1, 3))
        a = (np.copy(e[:, 0]), np.copy(e[:, 1]), np.copy(e[:, 2]), np.array(q["feats"]))
        if op == "ef":
            return g.edge_features(*a, npdt(q["dt"]), timestamps=ts)
        if op == "esf":
            return g.edge_sparse_features(*a, npdt(q["dt"]), timestamps=ts)
        return g.edge_string_features(*a, np.dtype(np.uint8), timestamps=ts)
    if op == "cnt":
        return g.neighbor_counts(np.array(q["nodes"]), list(q["types"]), timestamps=ts)
    if op == "nb":
        return g.neighbors(np.array(q["nodes"]), list(q["types"]), timestamps=ts, return_edge_created_ts=q["rts"])
    if op == "lastn":
        return g.lastn_neighbors(np.array(q["nodes"]), list(q["types"]), ts, q["count"], q["dn"], q["dw"], q["dtp"], -1, q["rts"])
    if op == "ws":
        return g.weighted_sample_neighbors(np.array(q["nodes"]), list(q["types"]), q["count"], q["dn"], q["dw"], q["dtp"], q["seed"], ts, q["rts"])
    if op in ("us", "uswr"):
        return g.uniform_sample_neighbors(op == "uswr", np.array(q["nodes"]), list(q["types"]), q["count"], q["dn"], q["dtp"], q["seed"], ts, q["rts"])
    if op == "walk":
        return g.random_walk(np.array(q["nodes"]), list(q["types"]), q["len"], q["p"], q["q"], q["dn"], q["seed"], ts)
    if op == "ppr":
        return g.ppr_neighbors(np.array(q["nodes"]), list(q["types"]), q["count"], q["alpha"], q["eps"], q["dn"], q["dw"], ts)
    raise RuntimeError(op)


def same(got, want, q, what):
    expect(got == want, "%s: %s instead of %s for %s" % (what, short(got), short(want), q), "wrong %s" % what)


def close(a, b):
    return abs(a - b) <= 1e-4 * max(1.0, abs(b))


def judge(f, q, *a):
    """Run an oracle; an answer it cannot even read is wrong."""
    try:
        f(*a)
    except (AttributeError, TypeError, ValueError, IndexError, KeyError) as e:
        raise Violation("answer for %s cannot be read: %r" % (q, e), "answer of another form") from e


def check_answer(m, q, r):
    """Compare an answer with the input graph."""
    judge(compare, q, m, q, r)


def compare(m, q, r):
    op = q["op"]
    ts = q.get("ts")
    if op == "types":
        same([int(x) for x in r], [m.node[n]["t"] if n in m.node else q["dtp"] for n in q["nodes"]], q, "node types")
    elif op in ("nf", "ef"):
        dt = npdt(q["dt"])
        own = [m.node.get(n) for n in q["nodes"]] if op == "nf" else [m.edge.get(tuple(e)) for e in q["edges"]]
        want = [b"".join(m.dense(o, f, s, dt, ts[i] if ts else None) for f, s in q["feats"]) for i, o in enumerate(own)]
        expect(r.shape == (len(own), sum(s for _, s in q["feats"])) and r.dtype == dt, "array of shape %s and type %s for %s" % (r.shape, r.dtype, q),
               "wrong features shape")
        for i, w in enumerate(want):
            got = np.ascontiguousarray(r[i]).tobytes()
            expect(got == w, "%s features of element %d: %s instead of %s for %s" % (
                "node" if op == "nf" else "edge", i, np.frombuffer(got, dt).tolist(), np.frombuffer(w, dt).tolist(), q), "wrong %s features" % ("node" if op == "nf" else "edge"))
    elif op in ("nsf", "esf"):
        dt = npdt(q["dt"])
        own = [m.node.get(n) for n in q["nodes"]] if op == "nsf" else [m.edge.get(tuple(e)) for e in q["edges"]]
        sch = m.cfg["nschema" if op == "nsf" else "eschema"]
        idx, vals, dims = r
        what = "sparse %s features" % ("node" if op == "nsf" else "edge")
        expect(len(idx) == len(q["feats"]) and len(vals) == len(q["feats"]), "%d and %d lists for %s" % (len(idx), len(vals), q), "wrong " + what)
        for k, fid in enumerate(q["feats"]):
            want = []
            for i, o in enumerate(own):
                f = m.feature(o, fid)
                if f:
                    v = np.array(f["v"], dtype=dt)
                    want += [((i,) + tuple(c), v[j].tobytes()) for j, c in enumerate(f["c"])]
            got_i = [tuple(int(x) for x in row) for row in idx[k]] if len(idx[k]) else []
            got_v = [x.tobytes() for x in vals[k]]
            if want:
                expect(len(got_i) == len(got_v), "%d coordinates and %d values for %s" % (len(got_i), len(got_v), q), "wrong " + what)
                same(int(dims[k]), sch[fid]["dim"], q, what)
            same(sorted(zip(got_i, got_v)), sorted(want), q, what)
            # rows of one element keep the order of the input
            for i in range(len(own)):
                same([x for x in zip(got_i, got_v) if x[0][0] == i], [x for x in want if x[0][0] == i], q, what)
    elif op in ("nstr", "estr"):
        own = [m.node.get(n) for n in q["nodes"]] if op == "nstr" else [m.edge.get(tuple(e)) for e in q["edges"]]
        vals, dims = r
        what = "string %s features" % ("node" if op == "nstr" else "edge")
        want = [[V.feature_bytes(m.feature(o, f)) for f in q["feats"]] for o in own]
        same([[int(x) for x in row] for row in dims], [[len(x) for x in row] for row in want], q, what + " sizes")
        same(vals.tobytes(), b"".join(x for row in want for x in row), q, what)
    elif op == "cnt":
        same([int(x) for x in r], [len(m.neighbors(n, q["types"], ts[i] if ts else None)) for i, n in enumerate(q["nodes"])], q, "neighbor counts")
    elif op == "nb":
        want = [m.neighbors(n, q["types"], ts[i] if ts else None) for i, n in enumerate(q["nodes"])]
        same([int(x) for x in r[3]], [len(x) for x in want], q, "neighbor counts")
        total = sum(len(x) for x in want)
        for a in (r[0], r[1], r[2]) + ((r[4],) if q["rts"] else ()):
            same(len(a), total, q, "number of neighbors")
        o = 0
        for i, w in enumerate(want):
            got = [(int(r[0][j]), round(float(r[1][j]), 3), int(r[2][j])) + ((int(r[4][j]),) if q["rts"] else ()) for j in range(o, o + len(w))]
            o += len(w)
            w = [(x[0], round(x[1], 3), x[2]) + ((x[3],) if q["rts"] else ()) for x in w]
            same(Counter(got), Counter(w), q, "neighbors of node %d" % q["nodes"][i])
    elif op == "lastn":
        for i, n in enumerate(q["nodes"]):
            w = m.neighbors(n, q["types"], ts[i])
            w.sort(key=lambda x: -x[3])
            real = min(len(w), q["count"])
            row = rows(q, r, i)
            check_rows(q, row[:real], w, i, distinct=True)
            if q["rts"]:
                same(sorted((x[3] for x in row[:real]), reverse=True), [x[3] for x in w[:real]], q, "latest neighbors")
            else:
                # creation times of the returned neighbors, ambiguous ones resolved in favour of the answer
                left = list(w)
                got = []
                for x in row[:real]:
                    c = [y for y in left if y[0] == x[0] and y[2] == x[2] and close(x[1], y[1])]
                    c.sort(key=lambda y: -y[3])
                    left.remove(c[0])
                    got.append(c[0][3])
                same(sorted(got, reverse=True), [x[3] for x in w[:real]], q, "latest neighbors")
            check_defaults(q, row[real:], i)
    elif op in ("ws", "us", "uswr"):
        for i, n in enumerate(q["nodes"]):
            w = m.neighbors(n, q["types"], ts[i] if ts else None)
            real = 0 if not w else (min(len(w), q["count"]) if op == "uswr" else q["count"])
            row = rows(q, r, i)
            if op == "uswr" and w:
                dflt = [x for x in row if x[0] == q["dn"]]
                row = [x for x in row if x[0] != q["dn"]] + dflt
            check_rows(q, row[:real], w, i, distinct=op == "uswr")
            check_defaults(q, row[real:], i)
    elif op == "walk":
        expect(r.shape == (len(q["nodes"]), q["len"] + 1), "shape %s for %s" % (r.shape, q), "wrong shape")
        for i, n in enumerate(q["nodes"]):
            check_walk(m, q, [int(x) for x in r[i]], n, ts[i] if ts else None)
    elif op == "ppr":
        expect(r[0].shape == (len(q["nodes"]), q["count"]) and r[1].shape == r[0].shape, "shape %s for %s" % (r[0].shape, q), "wrong shape")
        for i, n in enumerate(q["nodes"]):
            check_ppr(m, q, [int(x) for x in r[0][i]], [float(x) for x in r[1][i]], n, ts[i] if ts else None)
    else:
        raise RuntimeError(op)


def check_walk(m, q, w, start, ts):
    same(w[0], start, q, "start of a walk")
    past, cur = None, start
    for k, x in enumerate(w[1:], 1):
        nb = {y[0] for y in m.neighbors(cur, q["types"], ts)} if cur is not None else set()
        if x == q["dn"]:
            back = past is not None and cur is not None and cur in {y[0] for y in m.neighbors(past, q["types"], ts)}
            expect(not back, "walk %s stops at node %s although it can go back to %s for %s" % (w, cur, past, q), "walk stops early")
            expect(not nb, "walk %s stops at node %s although it has neighbors %s for %s" % (w, cur, sorted(nb), q), "walk stops early")
            past, cur = cur, None
            continue
        expect(x in nb or (past is not None and x == past and cur is not None), "step %d of walk %s goes to %d, which is neither a neighbor of %s nor "
               "where the walk came from, for %s" % (k, w, x, cur, q), "walk leaves the graph")
        past, cur = cur, x


def check_ppr(m, q, nodes, weights, start, ts):
    """The scores are exact up to what the stopping threshold leaves undistributed."""
    real = [k for k, x in enumerate(nodes) if x != q["dn"]]
    for k, x in enumerate(nodes):
        if x == q["dn"]:
            expect(weights[k] == q["dw"], "weight %r of a missing neighbor for %s" % (weights[k], q), "entry is not the default")
    got = {nodes[k]: weights[k] for k in real}
    expect(len(got) == len(real), "node repeats in %s for %s" % (nodes, q), "node repeats")
    nbs, stack = {}, [start]
    while stack:
        n = stack.pop()
        if n not in nbs:
            nbs[n] = [y[0] for y in m.neighbors(n, q["types"], ts)]
            stack += nbs[n]
    exact = dict.fromkeys(nbs, 0.0)
    r, left = {start: 1.0}, 1.0
    while r and left > 1e-7:
        nxt = {}
        for n, v in r.items():
            exact[n] += q["alpha"] * v
            for y in nbs[n]:
                nxt[y] = nxt.get(y, 0) + (1 - q["alpha"]) * v / len(nbs[n])
        r, left = nxt, sum(nxt.values())
    slack = q["eps"] * sum(len(x) for x in nbs.values())
    for n, v in got.items():
        expect(n in exact, "node %d cannot be reached from %d for %s" % (n, start, q), "node out of reach")
        expect(exact[n] - slack - 1e-4 <= v <= exact[n] + 1e-4, "score %r of node %d, exact value %r, allowed error %r for %s" % (v, n, exact[n], slack, q),
               "wrong score")
    low = min(got.values()) if len(got) == q["count"] else 0
    for n, v in exact.items():
        expect(n in got or v - slack - 1e-4 <= low, "node %d with score %r is missing in %s for %s" % (n, v, got, q), "node is missing")


def rows(q, r, i):
    """[(node, weight or None, type, created or None)] of queried node i."""
    weighted = q["op"] in ("ws", "lastn")
    nodes, types = r[0], r[2 if weighted else 1]
    expect(nodes.shape == (len(q["nodes"]), q["count"]) and types.shape == nodes.shape, "shape %s for %s" % (nodes.shape, q), "wrong shape")
    tsa = r[-1] if q["rts"] else None
    return [(int(nodes[i][j]), float(r[1][i][j]) if weighted else None, int(types[i][j]), int(tsa[i][j]) if tsa is not None else None)
            for j in range(q["count"])]


def check_rows(q, got, want, i, distinct):
    left = list(want)
    for x in got:
        c = [y for y in left if y[0] == x[0] and y[2] == x[2] and (x[1] is None or close(x[1], y[1])) and (x[3] is None or x[3] == y[3])]
        expect(c, "entry %s of node %d is not %s of its neighbors %s for %s" % (
            x, q["nodes"][i], "a further one" if distinct else "one", short(want), q), "entry is not a neighbor")
        if distinct:
            left.remove(c[0])


def check_defaults(q, got, i):
    for x in got:
        ok = x[0] == q["dn"] and x[2] == q["dtp"] and (x[1] is None or close(x[1], q["dw"])) and (x[3] is None or x[3] == -1)
        expect(ok, "entry %s of node %d should be the default for %s" % (x, q["nodes"][i], q), "entry is not the default")


# -------------------------------------------------------------------- system
def make_graph(sim, cfg):
    """Convert the graph with the real converter inside the Python simulator; returns the folder."""
    c = convert_cfg(cfg)
    sim.info["phase"] = "convert"
    path, out, order = V.prepare(sim, c)
    V.convert(c, path, out)
    return out


def address(i):
    return "localhost:%d" % (5000 + i)


class System:
    """Servers and clients of one run."""

    def __init__(self, sim, cfg, out):
        self.sim, self.cfg, self.out = sim, cfg, out
        self.servers = {}
        self.clients = []
        self.native = glue.Native(sim, cfg["native"])

    def begin(self):
        _lib._get_c_lib.cache_clear() if hasattr(_lib._get_c_lib, "cache_clear") else None
        self.native.begin()

    def start_server(self, i):
        self.servers[i] = snark_server.Server(self.out, list(self.cfg["place"][i]), address(i),
                                              storage_type=snark_client.PartitionStorageType(self.cfg["storage"][i]))

    def start_servers(self):
        for i in range(len(self.cfg["place"])):
            self.start_server(i)

    def connect(self, attempts=None, kind=None, single=False):
        """A distributed graph, or the client interface over it."""
        opts = None
        if attempts is not None:
            policy = {"maxAttempts": attempts, "initialBackoff": "1s", "maxBackoff": "5s", "backoffMultiplier": 2}
            opts = [("grpc.service_config", json.dumps({"methodConfig": [{"retryPolicy": policy}]}))]
        where = [address(i) for i in range(len(self.cfg["place"]))]
        if single and len(where) == 1:
            where = where[0]
        c = (kind or snark_client.DistributedGraph)(where, num_threads=self.cfg["client_threads"],
                                                    num_cq_per_thread=self.cfg["client_cqs"], grpc_options=opts)
        self.clients.append(c)
        return c

    def local(self, storage=0, kind=None):
        c = (kind or snark_client.MemoryGraph)(self.out, sorted(p for x in self.cfg["place"] for p in x), snark_client.PartitionStorageType(storage))
        self.clients.append(c)
        return c

    def down(self, i, on):
        """Make server i unreachable, or reachable again."""
        if on:
            self.sim._count("server-unreachable")
        glue.LIB.nsim_server_down(b"%d" % (5000 + i), 1 if on else 0)

    def stop(self):
        for c in self.clients:
            c.reset()
        for i in list(self.servers):
            self.servers.pop(i).reset()

    def end(self):
        left = glue.LIB.nsim_live_threads()
        expect(left <= 1, "%d threads are still running after all servers and clients stopped" % (left - 1), "threads left after stop")
        self.native.end()


def shrink_graph(cfg):
    """Smaller variants of a configuration."""
    for i in range(len(cfg.get("queries", []))):
        if len(cfg["queries"]) > 1:
            yield dict(cfg, queries=cfg["queries"][:i] + cfg["queries"][i + 1:])
    nodes = cfg["nodes"]
    for i in range(len(nodes)):
        if len(nodes) > 1:
            k = nodes[:i] + nodes[i + 1:]
            yield dict(cfg, nodes=k, files=[{"name": "g00.txt", "lo": 0, "hi": len(k), "eol": "\n", "tail": True}])
    for i, nd in enumerate(nodes):
        for j in range(len(nd["e"])):
            yield dict(cfg, nodes=nodes[:i] + [dict(nd, e=nd["e"][:j] + nd["e"][j + 1:])] + nodes[i + 1:])
        if nd["f"]:
            yield dict(cfg, nodes=nodes[:i] + [dict(nd, f=[])] + nodes[i + 1:])
    for i, q in enumerate(cfg.get("queries", [])):
        key = "nodes" if "nodes" in q else "edges"
        for j in range(len(q[key])):
            if len(q[key]) > 1:
                x = dict(q)
                x[key] = q[key][:j] + q[key][j + 1:]
                if "ts" in q:
                    x["ts"] = q["ts"][:j] + q["ts"][j + 1:]
                yield dict(cfg, queries=cfg["queries"][:i] + [x] + cfg["queries"][i + 1:])
    if len(cfg["place"]) > 1:
        yield dict(cfg, place=[[p for x in cfg["place"] for p in x]], storage=cfg["storage"][:1])
    if cfg["client_threads"] > 1:
        yield dict(cfg, client_threads=1)
