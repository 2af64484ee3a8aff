"""C12: multi-worker conversion plus metadata merge."""
import json
import multiprocessing
import os

from vsim import core, mpsim
from vsim.runner import Check
from vsim.core import Violation
from . import convert_lib as V
from .reader_lib import expect
from deepgnn.graph_engine.snark.meta_merger import merge_metadata_files


def work(cfg, path, out, i, w, status):
    try:
        V.convert(dict(cfg, watermark=cfg["marks"][i]) if cfg["marks"] else cfg, path, out, worker_index=i, worker_count=w)
        status[i] = "ok"
    except BaseException as e:
        # a failed worker may never end: its writer threads wait for input for ever
        status[i] = repr(e)
        raise


class C12(Check):
    property = "C12"
    rule = ("each run draws a graph spread over files, a worker count (1 to 12), a partition count and a schedule of all workers converting "
            "concurrently into one folder, merges the metadata and reads everything back; non-trivial = at least 2 workers, 3 input lines and "
            "one preemption; distinct by configuration digest and switch sequence")
    real = V.REAL + ["deepgnn.graph_engine.snark.meta_merger"]
    stubbed, assumptions = V.STUBBED, V.ASSUME

    def gen(self, rng, tier, index):
        cfg = V.gen_cfg(rng, maxn=10, modes=["default"], maxfiles=1)
        w = rng.choice([1, 2, 2, 3, 3, 4, 5, 11, 12])
        kind = rng.choice(["ok", "ok", "ok", "ok", "fewparts", "fewfiles"])
        nf = w + rng.choice([0, 0, 1, 2])
        parts = w + rng.choice([0, 1, 2, w, w + 1])
        if w > 1 and kind == "fewparts":
            parts = rng.randrange(1, w)
        if w > 1 and kind == "fewfiles":
            nf = rng.randrange(1, w)
        cfg["files"] = V.split_files(rng, cfg["nodes"], nf)
        cfg["workers"], cfg["parts"] = w, parts
        cfg["threads"] = min(2, cfg["threads"])
        if rng.random() < 0.6:
            for nd in cfg["nodes"]:
                nd["f"] = V.trim(cfg["dec"], nd["f"][:1])
                for e in nd["e"]:
                    e["f"] = []
        cfg["serial"] = rng.random() < 0.15
        cfg["kind"] = kind
        # a worker whose share ends earlier knows an earlier latest time
        cfg["marks"] = [max(0, cfg["watermark"] - rng.choice([0, 0, 1, 15])) for _ in range(w)] if cfg["temporal"] and rng.random() < 0.4 else None
        cfg["sc"] = "default"
        cfg["sim"]["max_steps"] = 4000000
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "convert"
        path, out, order = V.prepare(sim, cfg)
        w = cfg["workers"]
        procs = []
        status = {}

        def wait(i, p):
            while p._sp.alive and status.get(i, "ok") == "ok":
                p.join(timeout=1)
        for i in range(w):
            p = multiprocessing.Process(target=work, args=(cfg, path, out, i, w, status))
            p.start()
            procs.append(p)
            if cfg["serial"]:
                wait(i, p)
        for i, p in enumerate(procs):
            wait(i, p)
        n = info["n"] = {"lines": len(order), "workers": w, "partitions": cfg["parts"], "refused": 0}
        failed = [i for i, p in enumerate(procs) if p.exitcode != 0 or status.get(i) != "ok"]
        impossible = cfg["parts"] < w or len(cfg["files"]) < w
        if failed:
            expect(impossible, "workers %s of %d failed with %d partitions and %d files: %s" % (
                failed, w, cfg["parts"], len(cfg["files"]), sim.thread_errors[-1:]), "worker failed")
            n["refused"] += 1
            info["nontrivial"] = w > 1
            return
        info["phase"] = "merge"
        owners = {}
        with V.offline():
            for i in range(w):
                name = os.path.join(out, "meta_%d.json" % i if w > 1 else "meta.json")
                try:
                    with open(name) as f:
                        m = json.load(f)
                except (OSError, ValueError) as e:
                    raise Violation("worker %d of %d reported success without metadata: %r" % (i, w, e), "worker without metadata")
                for p in m["partitions"]:
                    expect(p not in owners, "partition %s is written by workers %s and %d" % (p, owners.get(p), i), "partition written twice")
                    owners[p] = i
        merge_metadata_files(out)
        info["phase"] = "compare"
        with V.offline():
            try:
                meta = V.parse_meta(out)
            except V.Bad as e:
                raise Violation("merge reported success but %s" % e, "metadata unreadable")
            expect(sorted(map(int, meta["partitions"])) == list(range(cfg["parts"])), "partitions %s instead of 0..%d" % (
                sorted(meta["partitions"]), cfg["parts"] - 1), "metadata partitions")
            want = self.locate(cfg, out, order)
            if cfg["marks"]:
                cfg = dict(cfg, watermark=max(cfg["marks"]), watermark_of={int(p): cfg["marks"][i] for p, i in owners.items()})
            V.check_content(cfg, out, want)
            nt, et = V.check_meta(cfg, out, want, meta)
            n["alias_rows"] = V.check_alias(cfg, out, want, nt, et)
        info["nontrivial"] = w > 1 and len(order) >= 3 and sim.preempts > 0

    def locate(self, cfg, out, order):
        """Which partition got which input line, from the data itself; every line exactly once."""
        pending = {}
        for it in order:
            key = it.nodes[0] if it.nodes else it.edges[0]
            pending.setdefault(key, []).append(it)
        want = {p: [] for p in range(cfg["parts"])}
        for p in want:
            try:
                got = V.parse_partition(out, p, cfg["watermark"] is not None)
            except (V.Bad, ValueError) as e:
                raise Violation("partition %d cannot be read back: %s" % (p, e), "unreadable partition")
            keys = list(got["nodes"]) + (list(got["edges"]) if cfg["dec"] == "el" else [])
            for k in keys:
                l = pending.get(k)
                expect(l, "partition %d holds %s which is not in the input or was written twice" % (p, V.short(k)), "record written twice")
                want[p].append(l.pop())
        left = [it.line for l in pending.values() for it in l]
        expect(not left, "%d input lines are in no partition: %s" % (len(left), V.short(left)), "records lost")
        return want


CHECK = C12()
