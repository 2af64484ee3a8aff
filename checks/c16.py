"""C16: the data uploader stores every accepted write exactly once."""
import os
import queue
import threading
import time

from vsim import core, stubs
from vsim.core import Violation
from vsim.runner import Check
from deepgnn.graph_engine.adl_uploader import AdlDataWriter
from .reader_lib import expect, short


class C16(Check):
    property = "C16"
    rule = ("each run draws 1-4 upload processes with 1-4 threads (now and then 12 with 11), queue and chunk sizes, a history of write calls by one or two threads and store "
            "latencies, without store failures or with 1-3 of them, and a schedule; non-trivial = at least two processes or threads, an empty "
            "write, or a fired store failure; distinct by configuration digest and switch sequence")
    real = ["deepgnn.graph_engine.adl_uploader", "deepgnn.graph_engine._adl_reader (credentials)", "threading", "queue"]
    stubbed = ["azure data lake file system and authentication (in-memory store, a file's content appears when it is closed)",
               "multiprocessing (simulated processes, queues with feeder threads and bounded pipes)", "clocks and sleep (virtual time)"]
    assumptions = ["thread switches happen only at lines of the code under test and at lock, queue, pipe, store and clock operations"]

    def gen(self, rng, tier, index):
        many = rng.random() < 0.04
        cfg = {"procs": 12 if many else rng.choice([1, 1, 2, 3, 4]), "threads": 11 if many else rng.choice([1, 1, 2, 4]), "queue": rng.choice([1, 2, 4, 100]),
               "per_file": rng.choice([0, 0, 1, 2, 3]), "lines": rng.choice([1, 2, 5, 1024]), "writers": rng.choice([1, 1, 1, 2]),
               "with": rng.random() < 0.5, "twice": rng.random() < 0.3}
        ops = []
        for k in range(60 if many else rng.choice([0, 1, 3, 6, 12, 20])):
            r = rng.random()
            if r < 0.1:
                ops.append(["write", -1])
            elif r < 0.18:
                ops.append(["write", -2])
            elif r < 0.6:
                ops.append(["write", rng.choice([0, 1, 3, 40])])
            elif r < 0.9:
                ops.append(["lines", [rng.choice([0, 2, 10]) for _ in range(rng.choice([0, 1, 2, 5, 11]))]])
            else:
                ops.append(["sleep", rng.choice([0.1, 5, 35])])
        cfg["ops"] = ops
        cfg["rates"], cfg["budget"] = {"net:delay": rng.choice([0, 0, 0.2])}, 30
        cfg["errors"] = 0
        if rng.random() < 0.35:
            cfg["errors"] = rng.choice([1, 1, 2, 3])
            for o in rng.sample(["open", "write", "flush", "auth"], rng.choice([1, 2])):
                cfg["rates"]["net:error:" + o] = rng.choice([0.05, 0.3, 1.0])
        cfg["sim"] = {"max_steps": 400000, "max_time": 1e6, "pipe_cap": rng.choice([64, 4096, 65536])}
        cfg["label"] = "store failures" if cfg["errors"] else "healthy store"
        return cfg

    def run(self, sim, cfg):
        home = os.path.join(sim.scratch, "hadoop")
        os.makedirs(os.path.join(home, "etc/hadoop"))
        with open(os.path.join(home, "etc/hadoop/core-site.xml"), "w") as f:
            f.write(stubs.ADL_XML)
        os.environ["HADOOP_HOME"] = home
        store = stubs.store()
        n = sim.info["n"] = {"writes": 0, "accepted": 0, "rejected": 0, "files": 0, "bytes": 0}
        sim.fault_rates = dict(cfg["rates"])
        sim.fault_budget = cfg["errors"] if cfg["errors"] else cfg["budget"]
        sim.faults_on = True
        accepted, attempted, nid = [], [], [0]
        sim.info["phase"] = "upload"
        w = AdlDataWriter("store", "out/part", cfg["per_file"], cfg["procs"], cfg["threads"], cfg["queue"], cfg["lines"])

        def token(size):
            nid[0] += 1
            if size == -2:   # a single byte
                return chr(ord("A") + nid[0]) if nid[0] < 26 else "<%d>" % nid[0]
            return "<%d:%s>" % (nid[0], "é" * (size % 7) + "x" * size)

        def writer(ops):
            for kind, a in ops:
                if kind == "sleep":
                    time.sleep(a)
                    continue
                n["writes"] += 1
                if kind == "write":
                    pieces = [token(a)] if a != -1 else []
                    call, arg = w.write, pieces[0] if pieces else ""
                else:
                    texts = [token(x) for x in a]
                    pieces = [t + "\n" for t in texts]
                    call, arg = w.writelines, texts
                attempted.extend(pieces)
                try:
                    ok = call(arg) is not False
                except queue.Full:
                    ok = False
                except Exception as e:
                    if not cfg["errors"]:
                        raise Violation("%s failed with %r on a healthy store" % (kind, e), "write failed")
                    ok = False
                n["accepted" if ok else "rejected"] += 1
                if ok:
                    accepted.extend(pieces)

        bad = []

        def guarded(ops):
            try:
                writer(ops)
            except Violation as v:
                bad.append(v)
        if cfg["writers"] == 1:
            guarded(cfg["ops"])
        else:
            ths = [threading.Thread(target=guarded, args=(cfg["ops"][k::2],)) for k in range(2)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        sim.info["phase"] = "close"
        if cfg["with"]:
            with w:
                pass
        else:
            w.close()
        if cfg["twice"]:
            w.close()
        if bad:
            raise bad[0]
        errors = sum(v for k, v in sim.fired.items() if k.startswith("net:error"))
        sim.info["nontrivial"] = cfg["procs"] * cfg["threads"] > 1 or errors > 0 or ["write", -1] in cfg["ops"]
        if errors:
            return
        finished = {p for k, p, _ in store.log if k == "close"}
        files = {p: d.decode("utf-8") for p, d in store.files.items()}
        n["files"], n["bytes"] = len(files), sum(len(d) for d in store.files.values())
        expect(set(files) <= finished, "files %s were never finished" % sorted(set(files) - finished), "file not finished")
        expect(all(p.startswith("out/part") for p in files), "files %s are outside of the given prefix" % sorted(files), "wrong file name")
        text = "\0".join(files[p] for p in sorted(files))
        for p in accepted:
            c = text.count(p)
            expect(c == 1, "a piece of %d characters written successfully is stored %d times after close (files %s)" % (
                len(p), c, short({a: len(b) for a, b in files.items()})), "piece stored %s" % ("twice" if c > 1 else "zero times"))
        rest = text
        for p in sorted(attempted, key=len, reverse=True):
            c = rest.count(p)
            expect(c <= 1, "a rejected piece is stored %d times" % c, "piece stored twice")
            rest = rest.replace(p, "", 1)
        expect(not rest.strip("\0"), "the store holds data nobody wrote: %r" % rest[:200], "foreign data")
        if cfg["per_file"] and not any(k == "lines" for k, _ in cfg["ops"]):
            worst = max([d.count("<") for d in files.values()] or [0])
            expect(worst <= cfg["per_file"], "a file holds %d chunks, the limit is %d" % (worst, cfg["per_file"]), "file too long")

    def shrink(self, cfg):
        for k in range(len(cfg["ops"])):
            yield dict(cfg, ops=cfg["ops"][:k] + cfg["ops"][k + 1:])
        for k, v in (("writers", 1), ("procs", 1), ("threads", 1), ("twice", False), ("with", False)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})


CHECK = C16()
