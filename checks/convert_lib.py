"""Graph generator, converter driver and independent reader of the binary format."""
import contextlib
import json
import os
import struct
import zlib
from collections import Counter

from vsim import core
from vsim.core import Violation
from . import reader_lib as R
from .reader_lib import expect, short
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher
from deepgnn.graph_engine.snark import decoders

REAL = ["deepgnn.graph_engine.snark.convert", "deepgnn.graph_engine.snark.dispatcher", "deepgnn.graph_engine.snark.converter.process",
        "deepgnn.graph_engine.snark.converter.writers", "deepgnn.graph_engine.snark.decoders", "deepgnn.graph_engine.snark.alias",
        "deepgnn.graph_engine._adl_reader", "fsspec local file system", "threading", "queue", "multiprocessing.queues.Queue (feeder threads)"]
STUBBED = ["thread and process scheduling", "process creation (thread groups with fork semantics)", "pipes and semaphores between processes",
           "clock", "file operations (real files in a scratch folder behind a fault seam)", "directory listing order"]
ASSUME = ["preemption happens at line boundaries of the code under test and at every lock, queue, pipe, file and clock operation",
          "simulated processes share one interpreter; state is separated by pid for queues, pipes and import-time locks",
          "data handed to the operating system survives a process kill (no power loss)"]

FMT = {"float": "f", "double": "d", "float16": "e", "uint64": "Q", "int64": "q", "uint32": "I", "int32": "i", "uint16": "H", "int16": "h",
       "uint8": "B", "int8": "b", "float32": "f", "float64": "d"}
RANGE = {"uint64": (0, 1 << 53), "int64": (-(1 << 53), 1 << 53), "uint32": (0, (1 << 32) - 1), "int32": (-(1 << 31), (1 << 31) - 1),
         "uint16": (0, 65535), "int16": (-32768, 32767), "uint8": (0, 255), "int8": (-128, 127)}
DTYPES = sorted(FMT)
STRINGS = ["", "a", "text", "héllo", "中文字", "with space", "x" * 40, "{}", "0", " pad "]


@contextlib.contextmanager
def offline():
    """Harness file access, outside the simulation."""
    s = core.SIM
    core.SIM = None
    try:
        yield
    finally:
        core.SIM = s


# ------------------------------------------------------------------ generate
def gen_vals(rng, d, n):
    if d in RANGE:
        lo, hi = RANGE[d]
        return [rng.choice([lo, hi, 0, 1, rng.randrange(lo, hi)]) for _ in range(n)]
    return [rng.choice([0.0, 1.0, -0.5, 0.1, 3.25, -17.75, rng.randrange(-1000, 1000) / 8]) for _ in range(n)]


def gen_feature(rng, kinds, temporal):
    k = rng.choice(kinds)
    if k == "none":
        return None
    if k == "bin":
        return {"b": rng.choice(STRINGS)}
    d = rng.choice(DTYPES)
    if k == "dense":
        return {"d": d, "v": gen_vals(rng, d, rng.choice([1, 1, 2, 3, 5]))}
    if k == "sparse":
        n = rng.choice([1, 2, 3])
        dim = rng.choice([0, 1, 2, 3])
        c = [rng.randrange(0, 50) for _ in range(n)] if dim == 0 else [[rng.randrange(0, 50) for _ in range(dim)] for _ in range(n)]
        return {"s": d, "c": c, "v": gen_vals(rng, d, n)}
    n = rng.choice([1, 2, 3])
    times = rng.sample(range(0, 30), n)
    return {"t": d, "iv": [{"created_at": t, "values": gen_vals(rng, d, rng.choice([1, 2]))} for t in times]}


def gen_features(rng, dec, temporal, rich):
    kinds = ["none", "dense", "dense", "bin"]
    if dec != "tsv":
        kinds.append("sparse")
    if dec == "json" and temporal:
        kinds.append("tdense")
    if rng.random() > rich:
        return []
    return trim(dec, [gen_feature(rng, kinds, temporal) for _ in range(rng.choice([1, 1, 2, 3, 5, 5, 12]))])


def trim(dec, fs):
    """Drop what the text format of this decoder cannot express."""
    if dec == "tsv":
        for f in fs:
            if f and "b" in f:
                f["b"] = f["b"] or "e"
        if fs == [None]:
            fs = []
    elif dec == "json":
        while fs and fs[-1] is None:
            fs.pop()
    return fs


def gen_graph(rng, dec, temporal=False, maxn=14, ntypes=None, etypes=None, rich=None):
    n = rng.choice([0, 1, 2, 3, rng.randrange(0, maxn + 1), rng.randrange(0, maxn + 1), maxn])
    if rich is None:
        rich = rng.choice([0.0, 0.4, 0.9])
    nt = ntypes or rng.choice([1, 1, 2, 3, 5, 12])
    et = etypes or rng.choice([1, 2, 3, 4, 12])
    big = rng.random() < 0.15
    ids = rng.sample(range(0, 60), n)
    if big:
        ids = [i if rng.random() < 0.5 else (1 << 62) + i for i in ids]
    zero = rng.random() < 0.15
    nodes = []
    for i in ids:
        w = rng.choice([0.0, 1.0, 0.5, 2.0, 0.1, 7.25]) if zero else rng.choice([1.0, 0.5, 2.0, 0.1, 7.25])
        nd = {"id": i, "t": rng.randrange(nt), "w": w, "f": gen_features(rng, dec, temporal, rich), "e": []}
        if temporal:
            nd["c"] = rng.choice([0, 0, 1, rng.randrange(0, 12)])
            nd["r"] = rng.choice([-1, -1, nd["c"] + rng.randrange(0, 9)])
        seen = set()
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            dst = rng.choice(ids) if rng.random() < 0.8 else rng.randrange(100, 200)
            t = rng.randrange(et)
            if (t, dst) in seen and rng.random() < 0.7:
                continue
            seen.add((t, dst))
            e = {"d": dst, "t": t, "w": rng.choice([1.0, 0.5, 0.1, 3.0, 0.0 if zero else 1.5]), "f": gen_features(rng, dec, temporal, rich * 0.7)}
            if temporal:
                e["c"] = nd["c"] + rng.choice([0, 0, 1, 2])
                e["r"] = nd["r"] if rng.random() < 0.5 else rng.choice([-1, e["c"], e["c"] + 3])
                if nd["r"] != -1:
                    e["c"] = min(e["c"], nd["r"])
                    e["r"] = nd["r"] if e["r"] == -1 else min(e["r"], nd["r"])
                e["explicit"] = [rng.random() < 0.7, rng.random() < 0.7]
                if dec == "json":
                    if not e["explicit"][0]:
                        e["c"] = nd["c"]
                    if not e["explicit"][1]:
                        e["r"] = nd["r"]
            nd["e"].append(e)
        nodes.append(nd)
    return nodes


# -------------------------------------------------------------------- encode
def _json_feats(o, fs, sim_order):
    for i, f in enumerate(fs):
        if f is None:
            continue
        if "b" in f:
            o.setdefault("binary_feature", {})[str(i)] = f["b"]
        elif "d" in f:
            o.setdefault(f["d"] + "_feature", {})[str(i)] = f["v"]
        elif "s" in f:
            o.setdefault("sparse_" + f["s"] + "_feature", {})[str(i)] = {"coordinates": f["c"], "values": f["v"]}
        else:
            o.setdefault(f["t"] + "_feature", {})[str(i)] = f["iv"]


def json_lines(nodes):
    out = []
    for nd in nodes:
        o = {"node_id": nd["id"], "node_type": nd["t"], "node_weight": nd["w"]}
        _json_feats(o, nd["f"], 0)
        if "c" in nd:
            o["created_at"] = nd["c"]
            o["removed_at"] = nd["r"]
        o["edge"] = []
        for e in nd["e"]:
            x = {"src_id": nd["id"], "dst_id": e["d"], "edge_type": e["t"], "weight": e["w"]}
            _json_feats(x, e["f"], 0)
            if "c" in e:
                if e["explicit"][0]:
                    x["created_at"] = e["c"]
                if e["explicit"][1]:
                    x["removed_at"] = e["r"]
            o["edge"].append(x)
        out.append([json.dumps(o, ensure_ascii=nd["id"] % 2 == 0)])
    return out


def _tsv_feats(fs):
    short_name = {"float": "f", "double": "d"}
    parts = []
    for f in fs:
        if f is None:
            parts.append("")
        elif "b" in f:
            parts.append("b:" + f["b"])
        else:
            d = f["d"]
            k = short_name.get(d) or d[0] + d.lstrip("abcdefghijklmnopqrstuvwxyz")
            parts.append(k + ":" + " ".join(repr(v) for v in f["v"]))
    return ";".join(parts)


def tsv_lines(nodes):
    out = []
    for nd in nodes:
        nb = "|".join("%d,%d,%r,%s" % (e["d"], e["t"], e["w"], _tsv_feats(e["f"])) for e in nd["e"])
        out.append(["%d\t%d\t%r\t%s\t%s" % (nd["id"], nd["t"], nd["w"], _tsv_feats(nd["f"]), nb)])
    return out


def _el_feats(fs):
    np_name = {"float": "float32", "double": "float64"}
    out = []
    for f in fs:
        if f is None:
            out += ["float32", "0"]
        elif "b" in f:
            out += ["binary", "1", f["b"].replace(",", "\\,")]
        elif "d" in f:
            out += [np_name.get(f["d"], f["d"]), str(len(f["v"]))] + [repr(v) for v in f["v"]]
        else:
            dim = len(f["c"][0]) if isinstance(f["c"][0], list) else 0
            cs = [x for c in f["c"] for x in c] if dim else f["c"]
            out += [np_name.get(f["s"], f["s"]), "%d/%d" % (len(f["v"]), dim)] + [str(c) for c in cs] + [repr(v) for v in f["v"]]
    return out


def el_lines(nodes):
    out = []
    for nd in nodes:
        tm = [str(nd["c"]), str(nd["r"])] if "c" in nd else []
        ls = [",".join([str(nd["id"]), "-1", str(nd["t"]), repr(nd["w"])] + tm + _el_feats(nd["f"]))]
        for e in sorted(nd["e"], key=lambda e: (e["t"], e["d"])):
            tm = [str(e["c"]), str(e["r"])] if "c" in e else []
            ls.append(",".join([str(nd["id"]), str(e["t"]), str(e["d"]), repr(e["w"])] + tm + _el_feats(e["f"])))
        out.append(ls)
    return out


LINES = {"json": json_lines, "tsv": tsv_lines, "el": el_lines}


def feature_bytes(f):
    if f is None:
        return b""
    if "b" in f:
        return f["b"].encode("utf-8")
    if "d" in f:
        return struct.pack("=%d%s" % (len(f["v"]), FMT[f["d"]]), *f["v"])
    if "s" in f:
        two = isinstance(f["c"][0], list)
        cs = [x for c in f["c"] for x in c] if two else f["c"]
        return struct.pack("=II", len(cs), len(f["c"][0]) if two else 1) + struct.pack("=%dq" % len(cs), *cs) + \
            struct.pack("=%d%s" % (len(f["v"]), FMT[f["s"]]), *f["v"])
    iv = sorted(f["iv"], key=lambda x: x["created_at"])
    n = len(iv)
    head = 4 + 8 * (2 * n + 1)
    offs, data = [], b""
    for x in iv:
        offs.append(head + len(data))
        data += struct.pack("=%d%s" % (len(x["values"]), FMT[f["t"]]), *x["values"])
    return struct.pack("=i", n) + struct.pack("=%dq" % n, *[x["created_at"] for x in iv]) + struct.pack("=%dq" % n, *offs) + \
        struct.pack("=q", head + len(data)) + data + b"\0" * 8


def f32(x):
    return struct.unpack("=f", struct.pack("=f", x))[0]


def node_rec(nd):
    return (nd["id"], nd["t"], tuple(feature_bytes(f) for f in nd["f"]))


def edge_rec(nd, e, temporal):
    if temporal:
        ts = (e["c"], e["r"]) if "c" in e else (0, -1)
    else:
        ts = None
    return (nd["id"], e["d"], e["t"], f32(e["w"]), tuple(feature_bytes(f) for f in e["f"]), ts)


class Item:
    """What one input line carries."""
    __slots__ = ("line", "nodes", "edges", "nw", "ew")

    def __init__(self, line):
        self.line = line
        self.nodes, self.edges, self.nw, self.ew = [], [], [], []


def items_of(nodes, dec, temporal):
    """One Item per input line, in input order."""
    out = []
    for nd, lines in zip(nodes, LINES[dec](nodes)):
        its = [Item(l) for l in lines]
        its[0].nodes.append(node_rec(nd))
        its[0].nw.append((nd["t"], nd["id"], nd["w"]))
        if dec == "el":
            for it, e in zip(its[1:], sorted(nd["e"], key=lambda e: (e["t"], e["d"]))):
                it.edges.append(edge_rec(nd, e, temporal))
                it.ew.append((e["t"], (nd["id"], e["d"]), e["w"]))
        else:
            for e in nd["e"]:
                its[0].edges.append(edge_rec(nd, e, temporal))
                its[0].ew.append((e["t"], (nd["id"], e["d"]), e["w"]))
        out += its
    return out


def split_files(rng, units, nf):
    """Cut the list of line groups into nf named files; groups stay together."""
    cuts = sorted(rng.randrange(0, len(units) + 1) for _ in range(nf - 1))
    b = [0] + cuts + [len(units)]
    names = ["part%d" % (i * 7 + 4) for i in range(nf)] if rng.random() < 0.3 else ["g%02d.txt" % i for i in range(nf)]
    return [{"name": names[i], "lo": b[i], "hi": b[i + 1], "eol": "\n", "tail": rng.random() < 0.6} for i in range(nf)]


def gen_cfg(rng, maxn=14, modes=None, decs=None, maxfiles=3, temporal_p=0.3):
    dec = rng.choice(decs or ["json", "json", "tsv", "el"])
    temporal = rng.random() < temporal_p
    nodes = gen_graph(rng, dec, temporal and dec != "tsv", maxn)
    mode = rng.choice(modes or ["default", "default", "pipe_thread", "pipe_proc", "queue_proc", "queue_proc", "queue_thread", "debug"])
    nf = rng.randrange(1, maxfiles + 1)
    parts = 1 if mode == "debug" else rng.choice([1, 2, 2, 3, 4])
    cfg = {"sc": mode, "dec": dec, "temporal": temporal, "nodes": nodes, "files": split_files(rng, nodes, nf), "parts": parts,
           "offset": rng.choice([0, 0, 0, 3]) if mode in ("pipe_thread", "pipe_proc", "queue_proc", "queue_thread") else 0,
           "func": rng.choice(["crc", "crc", "first", "count", "skew"]), "skipn": rng.random() < 0.15, "skipe": rng.random() < 0.15,
           "watermark": rng.choice([0, 20, 1 << 40]) if temporal else None, "dtype": rng.random() < 0.3,
           "batch": rng.choice([1, 2, 3, 10, 512]), "queue": rng.choice([1, 2, 30]), "threads": rng.choice([1, 1, 2, 5]),
           "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 1500000, "pipe_cap": rng.choice([64, 1000, 65536])}}
    tb = sum(len(l) + 1 for ls in LINES[dec](nodes) for l in ls) + 1
    cfg["block"] = rng.choice([tb * 10, tb * 10, tb // rng.randrange(2, 9) + 1])
    if mode == "debug":
        cfg["skipn"] = cfg["skipe"] = False
    return cfg


def file_entries(cfg, items_by_node):
    """[(file dict with lines)] for reader_lib.put_files, plus items in reading order."""
    files, order = [], []
    for f in cfg["files"]:
        its = [it for group in items_by_node[f["lo"]:f["hi"]] for it in group]
        files.append({"name": f["name"], "lines": [i.line for i in its], "eol": f["eol"], "tail": f["tail"], "items": its})
    for f in R.ordered(files):
        order += f["items"]
    return files, order


def grouped_items(cfg):
    flat = items_of(cfg["nodes"], cfg["dec"], cfg["temporal"])
    out, k = [], 0
    for nd, ls in zip(cfg["nodes"], LINES[cfg["dec"]](cfg["nodes"])):
        out.append(flat[k:k + len(ls)])
        k += len(ls)
    return out


class PartFunc:
    """User supplied partitioning rule."""

    def __init__(self, kind, parts):
        self.kind, self.parts, self.n = kind, parts, 0

    def __call__(self, line):
        if self.kind == "skew":
            return self.parts - 1
        if self.kind == "count":
            self.n += 1
            return (self.n - 1) % self.parts
        if self.kind == "first":
            return sum(int(c) for c in line[:14] if c.isdigit()) % self.parts
        return zlib.crc32(line.encode("utf-8")) % self.parts


def assign(cfg, order):
    """{partition id: [items]} as the dispatching rule says."""
    m, p, off = cfg["sc"], cfg["parts"], cfg["offset"]
    out = {}
    if m == "debug":
        return {0: list(order)}
    if m.startswith("queue"):
        f = PartFunc(cfg["func"], p)
        for it in order:
            out.setdefault(off + f(it.line), []).append(it)
        return out
    for i in range(p):
        out[off + i] = []
    for k, it in enumerate(order):
        out[off + k % p].append(it)
    return out


def make_decoder(cfg):
    if cfg["dec"] == "json":
        return decoders.JsonDecoder if cfg.get("dtype") else decoders.JsonDecoder(is_temporal=cfg["temporal"])
    if cfg["dec"] == "tsv":
        return decoders.TsvDecoder if cfg.get("dtype") else decoders.TsvDecoder()
    return decoders.EdgeListDecoder(is_temporal=cfg["temporal"])


def convert(cfg, path, out, **kw):
    """Run one conversion with the real code, in the calling simulated thread."""
    m = cfg["sc"]
    dec = make_decoder(cfg)
    a = dict(graph_path=path, output_dir=out, decoder=dec, partition_count=cfg["parts"], record_per_step=cfg["batch"],
             buffer_size=cfg["block"] / 1e6, queue_size=cfg["queue"], thread_count=cfg["threads"], skip_node_sampler=cfg["skipn"],
             skip_edge_sampler=cfg["skipe"], watermark=cfg["watermark"])
    if m == "debug":
        a["debug"] = True
    elif m != "default":
        d = dict(decoder=dec, partition_offset=cfg["offset"], use_threads=m.endswith("thread"), skip_node_sampler=cfg["skipn"],
                 skip_edge_sampler=cfg["skipe"], watermark=cfg["watermark"])
        if m.startswith("pipe"):
            a["dispatcher"] = PipeDispatcher(out, cfg["parts"], **d)
        else:
            a["dispatcher"] = QueueDispatcher(out, cfg["parts"], PartFunc(cfg["func"], cfg["parts"]), **d)
    a.update(kw)
    MultiWorkersConverter(**a).convert()


def prepare(sim, cfg):
    files, order = file_entries(cfg, grouped_items(cfg))
    path = R.put_files(sim, files, "dir")
    out = os.path.join(sim.scratch, "out")
    with offline():
        os.makedirs(out, exist_ok=True)
    return path, out, order


# --------------------------------------------------------------------- parse
class Bad(Exception):
    """The folder is not a readable graph."""


def u64s(b, what):
    if len(b) % 8:
        raise Bad("%s has %d bytes, not a multiple of 8" % (what, len(b)))
    return struct.unpack("=%dQ" % (len(b) // 8), b)


def rd(folder, name, missing_ok=False):
    p = os.path.join(folder, name)
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        if missing_ok:
            return None
        raise Bad("file %s is missing" % name)


def parse_partition(folder, p, temporal, iteration=0):
    """-> dict with nodes, edges (records), order problems raise Bad."""
    sfx = "%d_%d" % (p, iteration)
    nm = rd(folder, "node_%s.map" % sfx)
    if len(nm) % 20:
        raise Bad("node map of partition %d is torn" % p)
    ents = [struct.unpack_from("=QQi", nm, k) for k in range(0, len(nm), 20)]
    n = len(ents)
    ni = u64s(rd(folder, "node_%s.index" % sfx), "node index")
    nfi = u64s(rd(folder, "node_features_%s.index" % sfx), "node feature index")
    nfd = rd(folder, "node_features_%s.data" % sfx)
    nbi = u64s(rd(folder, "neighbors_%s.index" % sfx), "neighbor index")
    ei = rd(folder, "edge_%s.index" % sfx)
    efi = u64s(rd(folder, "edge_features_%s.index" % sfx), "edge feature index")
    efd = rd(folder, "edge_features_%s.data" % sfx)
    if len(ni) != n + 1 or len(nbi) != n + 1:
        raise Bad("partition %d: %d nodes, %d node index and %d neighbor index entries" % (p, n, len(ni), len(nbi)))
    if len(ei) % 24 or not ei:
        raise Bad("edge index of partition %d is torn" % p)
    edges = [struct.unpack_from("=QQif", ei, k) for k in range(0, len(ei), 24)]
    m = len(edges) - 1
    if list(ni) != sorted(ni) or list(nbi) != sorted(nbi) or (n and nbi[0] != 0) or nbi[-1] != m:
        raise Bad("partition %d: index not monotone or incomplete (nodes %s, neighbors %s, %d edges)" % (p, ni, nbi, m))
    if list(nfi) != sorted(nfi) or nfi[-1] != len(nfd) or ni[-1] != len(nfi) - 1:
        raise Bad("partition %d: node feature index does not match the data" % p)
    efpos = [e[1] for e in edges]
    if efpos != sorted(efpos) or list(efi) != sorted(efi) or efi[-1] != len(efd) or efpos[-1] != len(efi) - 1:
        raise Bad("partition %d: edge feature index does not match the data" % p)
    if sorted(e[1] for e in ents) != list(range(n)):
        raise Bad("partition %d: node map positions are %s" % (p, [e[1] for e in ents]))
    ts = None
    if temporal:
        raw = rd(folder, "edge_%s.timestamp" % sfx)
        if len(raw) != 8 + 16 * m:
            raise Bad("partition %d: %d timestamp bytes for %d edges" % (p, len(raw), m))
        ts = [struct.unpack_from("=qq", raw, 8 + 16 * k) for k in range(m)]
    out = {"nodes": [], "edges": [], "filler": [], "edge_total": m, "wm": struct.unpack("=Q", raw[:8])[0] if temporal else None}
    for nid, pos, tp in ents:
        fs = tuple(nfd[nfi[j]:nfi[j + 1]] for j in range(ni[pos], ni[pos + 1]))
        if tp == -1:
            out["filler"].append(nid)
            if fs:
                raise Bad("partition %d: features on a node without type" % p)
        else:
            out["nodes"].append((nid, tp, fs))
        last = None
        for k in range(nbi[pos], nbi[pos + 1]):
            d, ep, t, w = edges[k]
            if last is not None and t < last:
                raise Bad("partition %d: edges of node %d are not in type order" % (p, nid))
            last = t
            efs = tuple(efd[efi[j]:efi[j + 1]] for j in range(ep, edges[k + 1][1]))
            out["edges"].append((nid, d, t, w, efs, ts[k] if temporal else None))
    return out


def parse_meta(folder):
    try:
        with open(os.path.join(folder, "meta.json"), "r") as f:
            m = json.load(f)
        m["partitions"]
        return m
    except (OSError, ValueError, KeyError, TypeError) as e:
        raise Bad("metadata: %r" % (e,))


def compare_records(got, want, what):
    g, w = Counter(got), Counter(want)
    if g != w:
        miss, extra = list((w - g).elements()), list((g - w).elements())
        raise Violation("%s: missing %s, unexpected %s" % (what, short(miss), short(extra)), "%s differ" % what.split(" of ")[0])


def check_content(cfg, out, want, meta=None):
    """want: {partition: [items]}; whole content of the folder must match."""
    temporal = cfg["watermark"] is not None
    total = {"nodes": 0, "edges": 0}
    for p, items in sorted(want.items()):
        try:
            got = parse_partition(out, p, temporal)
        except Bad as e:
            raise Violation("partition %d cannot be read back: %s" % (p, e), "unreadable partition")
        except (struct.error, OSError) as e:
            raise Violation("partition %d cannot be read back: %r" % (p, e), "unreadable partition")
        compare_records(got["nodes"], [r for it in items for r in it.nodes], "nodes of partition %d" % p)
        twice = set(got["filler"]) & set(r[0] for r in got["nodes"])
        expect(not twice and len(set(got["filler"])) == len(got["filler"]), "partition %d has more than one record for nodes %s" % (
            p, sorted(twice or got["filler"])), "repeated nodes")
        compare_records(got["edges"], [r for it in items for r in it.edges], "edges of partition %d" % p)
        if temporal:
            mark = cfg["watermark_of"][p] if "watermark_of" in cfg else cfg["watermark"]
            expect(got["wm"] == mark, "partition %d has watermark %r instead of %r" % (p, got["wm"], mark), "watermark")
        total["nodes"] += len(got["nodes"])
        total["edges"] += len(got["edges"])
    return total


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def pad(l, n):
    return list(l) + [0] * (n - len(l))


def check_meta(cfg, out, want, meta):
    nodes = {p: [x for it in its for x in it.nw] for p, its in want.items()}
    edges = {p: [x for it in its for x in it.ew] for p, its in want.items()}
    nt = max([x[0] + 1 for l in nodes.values() for x in l], default=0)
    et = max([x[0] + 1 for l in edges.values() for x in l], default=0)
    nfc = max([len(r[2]) for its in want.values() for it in its for r in it.nodes], default=0)
    efc = max([len(r[4]) for its in want.values() for it in its for r in it.edges], default=0)
    exp = {"node_count": sum(map(len, nodes.values())), "edge_count": sum(map(len, edges.values())), "node_type_count": nt,
           "edge_type_count": et, "node_feature_count": nfc, "edge_feature_count": efc,
           "watermark": -1 if cfg["watermark"] is None else cfg["watermark"]}
    for k, v in exp.items():
        expect(meta.get(k) == v, "metadata field %s is %r, the data has %r" % (k, meta.get(k), v), "metadata " + k)
    for key, src, k in (("node_count_per_type", nodes, nt), ("edge_count_per_type", edges, et)):
        cnt = [0] * k
        for l in src.values():
            for x in l:
                cnt[x[0]] += 1
        expect(list(meta.get(key)) == cnt, "metadata %s is %r, the data has %r" % (key, meta.get(key), cnt), "metadata " + key)
    expect(sorted(meta["partitions"], key=int) == [str(p) for p in sorted(want)],
           "metadata lists partitions %s, data is in %s" % (sorted(meta["partitions"]), sorted(want)), "metadata partitions")
    for p in want:
        for key, src, k in (("node_weight", nodes, nt), ("edge_weight", edges, et)):
            ws = [0.0] * k
            for x in src[p]:
                ws[x[0]] += x[2]
            got = meta["partitions"][str(p)][key]
            expect(len(got) == k and all(near(a, b) for a, b in zip(got, ws)),
                   "metadata %s of partition %d is %r, the data has %r" % (key, p, got, ws), "metadata " + key)
    return nt, et


def check_alias(cfg, out, want, nt, et):
    rows = 0
    for kind, n, fmt, skip in (("node", nt, "=qqf", cfg["skipn"]), ("edge", et, "=qqqqf", cfg["skipe"])):
        if skip:
            continue
        size = struct.calcsize(fmt)
        for p, its in want.items():
            for t in range(n):
                name = "%s_%d_%d.alias" % (kind, t, p)
                try:
                    b = rd(out, name)
                except Bad:
                    raise Violation("no sampling table for %s type %d of partition %d" % (kind, t, p), "missing sampling table")
                expect(len(b) % size == 0, "sampling table %s is torn" % name, "torn sampling table")
                els = [x for it in its for x in (it.nw if kind == "node" else it.ew) if x[0] == t]
                recs = [struct.unpack_from(fmt, b, k) for k in range(0, len(b), size)]
                if kind == "node":
                    recs = [(l, r, pr) for l, r, pr in recs]
                else:
                    recs = [((a, c), (d, e), pr) for a, c, d, e, pr in recs]
                rows += len(recs)
                if Counter(r[0] for r in recs) != Counter(x[1] for x in els):
                    raise Violation("sampling table %s lists %s, partition has %s" % (name, short([r[0] for r in recs]), short(els)),
                                    "sampling table elements")
                tot = sum(x[2] for x in els)
                if not tot:
                    continue
                got = Counter()
                for l, r, pr in recs:
                    expect(-1e-6 <= pr <= 1 + 1e-6, "sampling table %s has probability %r" % (name, pr), "sampling probability")
                    got[l] += min(pr, 1.0) / len(recs)
                    if pr < 1.0:
                        got[r] += (1 - pr) / len(recs)
                exp = Counter()
                for x in els:
                    exp[x[1]] += x[2] / tot
                for k in set(got) | set(exp):
                    expect(abs(got[k] - exp[k]) < 2e-4, "sampling table %s picks %s with probability %.5f, its share of the weight is %.5f" % (
                        name, k, got[k], exp[k]), "sampling probability")
    return rows


def tree(folder, parts=None):
    """{file: bytes} of a graph folder; with parts only files of these partitions and metadata."""
    res = {}
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        if os.path.isdir(p):
            continue
        with open(p, "rb") as f:
            res[n] = f.read()
    if parts is None:
        return res
    keep = {}
    for n, b in res.items():
        base = n.split(".")[0].split("_")
        if n.startswith("meta"):
            keep[n] = b
        elif n.endswith(".alias"):
            if base[-1].isdigit() and int(base[-1]) in parts:
                keep[n] = b
        elif len(base) < 2 or not base[-2].isdigit() or int(base[-2]) in parts:
            keep[n] = b
    return keep


def tree_of(files, part):
    """Files of one partition from a {file: bytes} of a whole graph folder."""
    out = {}
    for n, b in files.items():
        base = n.split(".")[0].split("_")
        k = base[-1] if n.endswith(".alias") else base[-2] if len(base) > 1 else ""
        if k.isdigit() and int(k) == part:
            out[n] = b
    return out


def shrink(cfg):
    """Smaller configurations for the minimiser."""
    n = len(cfg["nodes"])
    for k in (0, n // 2):
        c = json.loads(json.dumps(cfg))
        for nd in c["nodes"][k:]:
            nd["f"] = []
            for e in nd["e"]:
                e["f"] = []
        yield c
