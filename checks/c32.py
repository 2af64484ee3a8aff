"""C32: a graph streamed from remote storage is the graph that was converted."""
import copy
import os
import shutil
import tempfile

from nsim import glue
from vsim.core import Violation
from vsim.runner import Check
from . import native_lib as N
from .c24 import CHECK as SAMPLING
from .c25 import CHECK as LOADING
from .convert_lib import offline
from .reader_lib import expect

HARD = ["hdfs.connect", "hdfs.list", "hdfs.info", "hdfs.open", "hdfs.read"]
SOFT = ["hdfs.short_read", "hdfs.slow"]
HOSTS = ["hdfs://store:9000", "hdfs://store", "adl://store.example.net", "file://"]
FOLDERS = ["a", "graphs/b", "graph.v1", "neighbors_2", "neighbors_old/1"]


class C32(Check):
    property = "C32"
    rule = ("each run converts 1 or 2 random graphs (up to 500 nodes), puts their files into 1 or 2 remote folders (or local ones), and loads them at the same "
            "time into servers and local clients that stream, with short reads, delays and, in a third of the runs, failing calls of the storage, then asks "
            "for everything; non-trivial = a fault fired or several loads at once; distinct by configuration digest, switch sequence and faults fired")
    real = N.REAL
    stubbed = N.STUBBED
    assumptions = N.ASSUME

    def gen(self, rng, tier, index):
        graphs = []
        for i in range(rng.choice([1, 1, 2])):
            g = N.gen_graph_cfg(rng, maxn=rng.choice([10, 10, 10, 10, 10, 10, 230, 500]), maxservers=2)
            host, names = rng.choice(HOSTS), rng.sample(FOLDERS, 3)
            g["stream"] = rng.random() < 0.85
            # where the metadata and every partition are
            g["home"] = host + "/" + names[0] + rng.choice(["", "", "", "/"]) if g["stream"] else "local:" + names[0]
            other = rng.choice([host + "/" + names[1], "local:" + names[1]]) if g["stream"] else "local:" + names[1]
            g["at"] = [rng.choice([g["home"], other]) if rng.random() < 0.4 else g["home"] for _ in range(g["parts"])]
            g["servers"] = rng.random() < 0.5
            g["copies"] = 1 if g["servers"] else rng.choice([1, 1, 2])
            g["when"] = rng.sample(range(22), 2)
            g["queries"] = LOADING.everything(g) + [N.gen_query(rng, g) for _ in range(3)]
            g["samples"] = []
            graphs.append(g)
            count = {"node": [0] * g["ntypes"], "edge": [0] * g["etypes"]}
            for nd in g["nodes"]:
                count["node"][nd["t"]] += 1
                for e in nd["e"]:
                    count["edge"][e["t"]] += 1
            for _ in range(rng.randrange(3)):
                what = rng.choice(["node", "edge"])
                ok = [t for t, k in enumerate(count[what]) if k]
                if ok:
                    types = sorted(set(rng.sample(ok, rng.randrange(1, len(ok) + 1))))
                    kind = rng.choice(["weighted", "uniform", "withoutreplacement"])
                    total = sum(count[what][t] for t in types)
                    g["samples"].append({"what": what, "types": types, "kind": kind, "size": total if kind == "withoutreplacement" else rng.choice([5, 40, 1200]),
                                         "seed": rng.randrange(1 << 62), "api": "sampler", "times": 1})
        n = copy.deepcopy(graphs[0]["native"])
        n["max_steps"] = 400000000
        n["shuffle_dirs"] = rng.choice([1, rng.randrange(2, 1 << 20)])
        sc = rng.choice(["calm", "calm", "faults"])
        rate = rng.choice([0.003, 0.02, 0.1])
        n["rates"] = {k: rng.choice([0, rate]) if sc == "faults" else 0 for k in HARD}
        n["rates"].update({k: rng.choice([0, 0.1, 0.7]) for k in SOFT})
        n["fault_budget"] = rng.choice([1, 3, 1000, 1000])
        return {"sc": sc, "graphs": graphs, "config": rng.random() < 0.3, "native": n,
                "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 100000000, "pipe_cap": 65536, "p": 0.002}}

    def place(self, root, where):
        """Folder of an address."""
        return os.path.join(root, "store", where.rstrip("/").replace("://", "/").replace("local:", "local/"))

    def path(self, root, where):
        return self.place(root, where) if where.startswith("local:") else where

    def run(self, sim, cfg):
        info = sim.info
        root = sim.scratch
        for k, g in enumerate(cfg["graphs"]):
            out = N.make_graph(sim, g)
            with offline():
                self.distribute(root, k, g, out)
        with offline():
            for x in ("tmp", "hadoop/lib"):
                os.makedirs(os.path.join(root, x), exist_ok=True)
            for x in ("hadoop/lib/a.jar", "core-site.xml"):
                open(os.path.join(root, x), "w").close()
        config = root + "/core-site.xml" if cfg["config"] else ""
        nat = glue.Native(sim, cfg["native"])
        for k, g in enumerate(cfg["graphs"]):
            for where in [g["home"]] + g["at"]:
                if not where.startswith("local:"):
                    w = self.mark(k, where.rstrip("/"))
                    glue.LIB.nsim_hdfs(w.encode(), self.place(root, w).encode())
        n = info["n"] = {"queries": 0, "refused": 0, "loads": 0}
        nat.on_fatal = lambda kind, text: self.fatal(sim, kind, text)
        nat.begin()
        os.environ.update(TMPDIR=root + "/tmp", HADOOP_HOME=root + "/hadoop", LD_LIBRARY_PATH="")
        os.environ.pop("CLASSPATH", None)
        tempfile.tempdir = root + "/tmp"
        info["phase"] = "load"
        nat.faults(True)
        loaded, todo = {}, []
        for k, g in enumerate(cfg["graphs"]):
            for i in range(len(g["place"]) if g["servers"] else g["copies"]):
                todo.append((k, i))
        info["nontrivial"] = len(todo) > 1
        threads = [nat.thread(self.load, root, cfg, k, i, config, loaded) for k, i in todo]
        try:
            for t in threads:
                nat.join(t)
        except Exception as e:
            expect(any(x in nat.fired() for x in HARD), "loading fails without any fault: %r" % e, "loading fails without a fault")
            n["refused"] = 1
            info["nontrivial"] = True
            return
        n["loads"] = len(todo)
        info["phase"] = "query"
        keep = []
        for k, g in enumerate(cfg["graphs"]):
            m = N.Model(g)
            pool = {"node": {}, "edge": {}}
            for nd in g["nodes"]:
                pool["node"][(nd["id"],)] = (nd["t"], nd["w"])
                for e in nd["e"]:
                    pool["edge"][(nd["id"], e["d"], e["t"])] = (e["t"], e["w"])
            if g["servers"]:
                where = [self.address(k, i) for i in range(len(g["place"]))]
                clients = [N.snark_client.DistributedGraph(where, num_threads=1, num_cq_per_thread=1)]
            else:
                clients = [loaded[k, i] for i in range(g["copies"])]
            for c in clients:
                for q in g["queries"]:
                    n["queries"] += 1
                    N.check_answer(m, q, self.ask(nat, c, q))
                for q in g["samples"]:
                    try:
                        got = SAMPLING.sample(c, None, q, 0, keep)
                    except Violation:
                        raise
                    except Exception as e:
                        expect(any(x in nat.fired() for x in HARD), "sampling %s fails without any fault: %r" % (q, e), "sampling fails without a fault")
                        continue
                    SAMPLING.judge(q, got, pool[q["what"]], {"elements": 0, "complete": 0, "covered": 0})
                if g["servers"]:
                    keep.append(c)
        info["phase"] = "stop"
        for x in keep + [loaded[t] for t in todo]:
            x.reset()
        nat.end()
        info["nontrivial"] = info["nontrivial"] or any(x in sim.fired for x in HARD + SOFT)

    def ask(self, nat, c, q):
        try:
            return N.ask(c, q)
        except Violation:
            raise
        except Exception as e:
            expect(False, "query %s fails: %r" % (q, e), "query fails")

    def mark(self, k, where):
        """Every graph has folders of its own."""
        return where + "/g%d" % k

    def address(self, k, i):
        return "localhost:%d" % (5000 + 100 * k + i)

    def load(self, root, cfg, k, i, config, loaded):
        g = cfg["graphs"][k]
        home = self.path(root, self.mark(k, g["home"].rstrip("/"))) + ("/" if g["home"].endswith("/") else "")
        parts = sorted(p for x in g["place"] for p in x) if not g["servers"] else g["place"][i]
        parts = [(self.path(root, self.mark(k, g["at"][p].rstrip("/"))), p) for p in parts]
        if g["servers"]:
            loaded[k, i] = N.snark_server.Server(home, parts, self.address(k, i), config_path=config, stream=g["stream"])
        else:
            loaded[k, i] = N.snark_client.MemoryGraph(home, parts, config_path=config, stream=g["stream"])

    def distribute(self, root, k, g, out):
        """Move the converted files to the folders of their partitions."""
        for where in [g["home"]] + g["at"]:
            os.makedirs(self.place(root, self.mark(k, where.rstrip("/"))), exist_ok=True)
        for f in sorted(os.listdir(out)):
            stem = f.rsplit(".", 1)[0].split("_")
            if f.endswith(".json"):
                where = g["home"]
            else:
                where = g["at"][int(stem[-1] if f.endswith(".alias") else stem[-2])]
            shutil.move(os.path.join(out, f), os.path.join(self.place(root, self.mark(k, where.rstrip("/"))), f))
        for f in sorted(os.listdir(root)):
            if f not in ("store", "tmp"):
                x = os.path.join(root, f)
                shutil.rmtree(x) if os.path.isdir(x) else os.unlink(x)

    def fatal(self, sim, kind, text):
        """A message in the log and the end of the process reports the failure."""
        if (kind == "fatal-log" or (sim.info.get("phase") == "load" and kind == "crash" and text.startswith("uncaught exception:"))) \
                and any(k in sim.fired for k in HARD):
            sim.info["n"]["refused"] = 1
            sim.info["nontrivial"] = True
            return "ok", None
        return None

    def shrink(self, cfg):
        gs = cfg["graphs"]
        if len(gs) > 1:
            for i in range(len(gs)):
                yield dict(cfg, graphs=gs[:i] + gs[i + 1:])
        for i, g in enumerate(gs):
            for h in ([dict(g, copies=1)] if g["copies"] > 1 else []) + ([dict(g, samples=[])] if g["samples"] else []) + \
                    ([dict(g, servers=False)] if g["servers"] else []) + ([dict(g, at=[g["home"]] * g["parts"])] if set(g["at"]) != {g["home"]} else []):
                yield dict(cfg, graphs=gs[:i] + [h] + gs[i + 1:])
            for j in range(len(g["queries"])):
                yield dict(cfg, graphs=gs[:i] + [dict(g, queries=g["queries"][:j] + g["queries"][j + 1:])] + gs[i + 1:])


CHECK = C32()
