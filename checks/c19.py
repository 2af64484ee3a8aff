"""C19: a graph downloaded from remote storage is complete or the download fails."""
import gc
import io
import os
import time
import zlib

import fsspec
from fsspec.spec import AbstractFileSystem

from vsim import core
from vsim.runner import Check
from . import convert_lib as V
from .reader_lib import expect, short
from .sync_lib import spawn

from deepgnn.graph_engine.snark._downloader import download_graph_data
from deepgnn.graph_engine.snark.server import Server
from deepgnn.graph_engine.snark.client import MemoryGraph


def _fault(op, path):
    """One call to the remote store."""
    sim = core.SIM
    sim.point("remote " + op)
    d = sim.fault(("net:delay",), "%s %s" % (op, path))
    if d:
        time.sleep(0.1 + 20 * d[1])
    d = sim.fault(("net:error:" + op,), "%s %s" % (op, path))
    if d:
        raise (OSError if d[1] < 0.6 else ConnectionResetError)("injected failure of %s %s" % (op, path))


class _Reader(io.RawIOBase):
    def __init__(self, path, data):
        self.path, self.data, self.pos, self.size = path, data, 0, len(data)

    def readable(self):
        return True

    def read(self, n=-1):
        _fault("read", self.path)
        n = self.size if n is None or n < 0 else min(n, 64)
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b


class SimStore(AbstractFileSystem):
    """Remote object store behind the fsspec interface."""
    cachable = False
    protocol = "simstore"

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        for p in ("simstore://", "otherstore://"):
            if path.startswith(p):
                path = path[len(p):]
        return path.rstrip("/")

    def _files(self):
        return core.SIM.__dict__["remote"][self.protocol]

    def ls(self, path, detail=True, **kw):
        path = self._strip_protocol(path)
        _fault("ls", path)
        files = self._files()
        out, dirs = [], set()
        for n, b in files.items():
            if n == path:
                out.append({"name": n, "size": len(b), "type": "file"})
            elif n.startswith(path + "/"):
                rest = n[len(path) + 1:]
                if "/" in rest:
                    dirs.add(path + "/" + rest.split("/")[0])
                else:
                    out.append({"name": n, "size": len(b), "type": "file"})
        out += [{"name": d, "size": 0, "type": "directory"} for d in sorted(dirs)]
        if not out:
            raise FileNotFoundError(path)
        out.sort(key=lambda o: zlib.crc32(("%s %s" % (core.SIM.opts.get("dirseed"), o["name"])).encode()))
        return out if detail else [o["name"] for o in out]

    def info(self, path, **kw):
        path = self._strip_protocol(path)
        _fault("info", path)
        files = self._files()
        if path in files:
            return {"name": path, "size": len(files[path]), "type": "file"}
        if any(n.startswith(path + "/") for n in files):
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def _open(self, path, mode="rb", **kw):
        path = self._strip_protocol(path)
        _fault("open", path)
        if path not in self._files():
            raise FileNotFoundError(path)
        return _Reader(path, self._files()[path])


class OtherStore(SimStore):
    protocol = "otherstore"


fsspec.register_implementation("simstore", SimStore, clobber=True)
fsspec.register_implementation("otherstore", OtherStore, clobber=True)
OPS = ["ls", "info", "open", "read"]


class _Engine:
    """Stand-in for the native library: records the folders it is told to load."""

    def __init__(self):
        self.args = {}

    def _put(self, meta, n, parts, locs):
        core.SIM.cur.proc.env["loaded"] = (meta.value.decode(), [(locs[i].decode(), int(parts[i])) for i in range(len(parts))])
        return 0

    def StartServer(self, s, meta, n, parts, locs, *rest):
        return self._put(meta, n, parts, locs)

    def CreateLocalGraph(self, g, meta, n, parts, locs, *rest):
        return self._put(meta, n, parts, locs)


class C19(Check):
    property = "C19"
    rule = ("each run converts a graph with the real converter, spreads its partitions over remote folders, a second remote store and local disk "
            "(with stale copies elsewhere), and downloads subsets from 1-3 concurrent processes through the download call, a server start or a local "
            "graph, with failures and delays of remote calls and local disk errors; non-trivial = at least one remote file copied; distinct by "
            "configuration digest, switch sequence and fired faults")
    real = ["deepgnn.graph_engine.snark._downloader", "deepgnn.graph_engine.snark.server", "deepgnn.graph_engine.snark.client (construction, reset)",
            "deepgnn.graph_engine.snark.meta", "deepgnn.graph_engine.snark.convert and its converter", "fsspec"]
    stubbed = ["remote stores (two fsspec implementations)", "native graph library (records the folders to load)", "multiprocessing, clocks, scheduling"]
    assumptions = ["the remote store reports its failures as errors: a store that silently returns shortened data or listings is not covered",
                   "feature files count when the metadata announces features"]

    def gen(self, rng, tier, index):
        cfg = V.gen_cfg(rng, maxn=6, modes=["default"], decs=["json", "json", "el"], temporal_p=0.5)
        cfg["files"] = V.split_files(rng, cfg["nodes"], 1)
        cfg["parts"] = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.05:
            cfg["parts"] = 12
        cfg["batch"], cfg["threads"], cfg["block"] = 512, 1, 100000
        cfg["place"] = [rng.choice(["A", "A", "A", "B", "C", "L"]) for _ in range(cfg["parts"])]
        cfg["stale"] = rng.random() < 0.4
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ids = rng.sample(range(cfg["parts"]), rng.randrange(1, cfg["parts"] + 1))
            jobs.append({"ids": ids, "api": rng.choice(["direct", "direct", "server", "client"]), "rel": rng.random() < 0.5})
        cfg["jobs"] = jobs
        cfg["rates"], cfg["budget"] = {}, 0
        if rng.random() < 0.65:
            cfg["budget"] = rng.choice([1, 1, 2, 5])
            p = rng.choice([0.02, 0.1, 0.3])
            cfg["rates"] = {"net:error:" + o: p for o in rng.sample(OPS, rng.choice([1, 2, 4]))}
            if rng.random() < 0.3:
                cfg["rates"]["net:delay"] = 0.2
            if rng.random() < 0.25:
                for k in ("write:eio", "write:enospc", "open:eio", "open:enospc"):
                    cfg["rates"][k] = p / 2
        cfg["sc"] = "default"
        cfg["label"] = "faults" if cfg["budget"] else "healthy"
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "convert"
        path, out, order = V.prepare(sim, cfg)
        sim.faults_on = False
        kind, sim.kind = sim.kind, "rr" if sim.replay is None else sim.kind
        V.convert(cfg, path, out)
        sim.kind = kind
        with V.offline():
            full = V.tree(out)
            meta = V.json.loads(full["meta.json"])
        parts = sorted(int(p) for p in meta["partitions"])
        names = {"A": "simstore://data/graph", "B": "otherstore://data/graph", "C": "simstore://more/x/graph", "L": os.path.join(sim.scratch, "local")}
        remote = sim.__dict__["remote"] = {"simstore": {}, "otherstore": {}}
        sim.engine = _Engine()

        def put(where, name, data):
            if where == "L":
                with V.offline():
                    os.makedirs(names["L"], exist_ok=True)
                    with open(os.path.join(names["L"], name), "wb") as f:
                        f.write(data)
            else:
                proto, rest = names[where].split("://")
                remote[proto][rest + "/" + name] = data

        self.want = want = {}
        for p in parts:
            mine = V.tree_of(full, p)
            need = {}
            for n, b in mine.items():
                if "_features_" in n and not meta[n.split("_")[0] + "_feature_count"]:
                    continue
                need[n] = b
            want[p] = need
            where = cfg["place"][p % len(cfg["place"])]
            for n, b in mine.items():
                put(where, n, b)
                if cfg["stale"]:
                    for other in "ABC":
                        if other != where:
                            put(other, n, b"stale" + b)
        put("A", "meta.json", full["meta.json"])
        put("A", "notes/readme.txt", b"x")
        n = info["n"] = {"downloads": 0, "failed": 0, "files": 0}
        self.meta = full["meta.json"]
        self.n, self.bad, self.open = n, [], []
        before = {k: dict(v) for k, v in remote.items()}
        sim.fault_filter = lambda op, p: "_snark/" in p
        sim.fault_rates, sim.fault_budget = dict(cfg["rates"]), cfg["budget"]
        sim.faults_on = bool(cfg["budget"])
        info["phase"] = "download"
        procs = [spawn(self.job, i, (sim, cfg, j, names)) for i, j in enumerate(cfg["jobs"])]
        for p in procs:
            p.join()
        for p in procs:
            expect(p.exitcode == 0, "a downloading process died: %s" % short(sim.thread_errors[-1:]), "process failed")
        expect(not self.bad, *(self.bad[0] if self.bad else ("", "")))
        expect(before == remote, "the remote store was changed", "remote changed")
        with V.offline():
            left = [d for d in os.listdir(os.path.join(sim.scratch, "tmp")) if d.endswith("_snark")]
        expect(not left, "local copies left after release: %s" % left, "copy not removed")
        info["nontrivial"] = n["files"] > 0

    def job(self, rank, sim, cfg, j, names):
        want = [(names[cfg["place"][p % len(cfg["place"])]], p) for p in j["ids"]]
        asked = list(want)
        short_form = [p if loc == names["A"] and j["rel"] else (loc, p) for loc, p in want]
        for attempt in range(2):
            f0 = sum(sim.fired.values()) - sim.fired.get("net:delay", 0) - sim.fired.get("stall", 0)
            try:
                if j["api"] == "direct":
                    g = download_graph_data(names["A"], asked)
                    folder, got = g.name, asked
                elif j["api"] == "server":
                    g = Server(names["A"], short_form, "localhost:%d" % (9000 + rank))
                    folder, got = sim.cur.proc.env["loaded"]
                else:
                    g = MemoryGraph(names["A"], short_form)
                    folder, got = sim.cur.proc.env["loaded"]
            except Exception as e:
                f1 = sum(sim.fired.values()) - sim.fired.get("net:delay", 0) - sim.fired.get("stall", 0)
                self.n["failed"] += 1
                full = sim.__dict__.pop("disk_full", False)
                if f1 == f0 and len(cfg["jobs"]) == 1 and not full or not cfg["budget"]:
                    self.bad.append(("download of %s failed without any fault: %r" % (want, e), "failure without fault"))
                    return
                e = None
                gc.collect()
                continue
            self.n["downloads"] += 1
            self.compare(folder, got, want, names)
            g.reset()
            if folder != names["A"] and os.path.exists(folder):
                self.bad.append(("the local copy %s is still there after release" % os.path.basename(folder), "copy not removed"))
            break
        gc.collect()

    def compare(self, folder, got, want, names):
        def bad(what, sig):
            self.bad.append((what, sig))
        with V.offline():
            try:
                with open(os.path.join(folder, "meta.json"), "rb") as f:
                    m = f.read()
            except OSError as e:
                return bad("no metadata in the local copy: %r" % e, "metadata")
            if m != self.meta:
                return bad("metadata differs: %r" % m[:200], "metadata")
            if [p for _, p in got] != [p for _, p in want]:
                return bad("partitions %s instead of %s" % (got, want), "partition list")
            for (loc, p), (src, _) in zip(got, want):
                if src == names["L"]:
                    if loc != src:
                        bad("local partition %d is moved to %s" % (p, loc), "local partition moved")
                    continue
                if "://" in loc or not os.path.isdir(loc):
                    return bad("partition %d has no local folder: %s" % (p, loc), "no local folder")
                have = V.tree(loc)
                for n, b in self.want[p].items():
                    self.n["files"] += 1
                    if n not in have:
                        return bad("file %s of partition %d is missing in the local copy (%s)" % (n, p, sorted(have)), "file missing")
                    if have[n] != b:
                        return bad("file %s of partition %d differs: %r instead of %r" % (n, p, have[n][:80], b[:80]), "file differs")

    def shrink(self, cfg):
        if len(cfg["jobs"]) > 1:
            for j in cfg["jobs"]:
                yield dict(cfg, jobs=[j])
        if cfg["stale"]:
            yield dict(cfg, stale=False)
        for j in range(len(cfg["jobs"])):
            if cfg["jobs"][j]["api"] != "direct":
                js = list(cfg["jobs"])
                js[j] = dict(js[j], api="direct")
                yield dict(cfg, jobs=js)


CHECK = C19()
