"""C18: sharded file samplers cover the training set exactly once per epoch."""
import importlib
import os
import sys
import time
import types
from collections import Counter

import numpy as np

from vsim import core
from vsim.runner import Check, PYSRC
from .reader_lib import expect, short
from .sync_lib import spawn

from deepgnn.graph_engine import samplers as S
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset


def _load_torch():
    """The torch dataset needs only the class to inherit from and the data loader's worker info."""
    if "torch" not in sys.modules:
        torch, utils, data = (types.ModuleType(n) for n in ("torch", "torch.utils", "torch.utils.data"))
        data.IterableDataset = type("IterableDataset", (), {})
        data.get_worker_info = lambda: getattr(core.SIM.cur.proc, "loader", None)
        torch.utils, utils.data = utils, data
        sys.modules.update({"torch": torch, "torch.utils": utils, "torch.utils.data": data})
    for name, path in (("deepgnn.pytorch", "deepgnn/pytorch"), ("deepgnn.pytorch.common", "deepgnn/pytorch/common")):
        if name not in sys.modules:
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(PYSRC, path)]
            sys.modules[name] = m
    return importlib.import_module("deepgnn.pytorch.common.dataset").TorchDeepGNNDataset


TorchDeepGNNDataset = _load_torch()
KINDS = ["node", "edge", "edgefeat", "tuple", "tuple2", "text", "range", "rangeedge", "csv"]
ONEFILE = ("tuple", "tuple2", "csv")


class _Backend:
    graph = "graph"


def query(graph, x):
    time.sleep(0.01)
    return x


class C18(Check):
    property = "C18"
    rule = ("each run draws the sampler kind, the training set (files, examples, attributes), 1-4 workers x 1-3 data-parallel replicas as simulated "
            "processes, batch size, epochs, shuffling, drop_last, back-fill value, the way of iterating (sampler, dataset, dataset with prefetching, "
            "data-loader dataset), passes and a schedule; non-trivial = at least two processes or prefetching, and at least two batches; distinct "
            "by configuration digest and switch sequence")
    real = ["deepgnn.graph_engine.samplers", "deepgnn.graph_engine.graph_dataset", "deepgnn.graph_engine.prefetch",
            "deepgnn.graph_engine._adl_reader", "deepgnn.pytorch.common.dataset"]
    stubbed = ["torch IterableDataset and worker info", "graph backend (handle only)", "multiprocessing (simulated processes)", "clocks and sleep"]
    assumptions = ["every worker gets at least one example", "shuffling is not combined with replicas: the replicas of one worker would draw "
                   "different permutations", "the announced length is exact without replicas and within one batch with them"]

    def gen(self, rng, tier, index):
        kind = rng.choice(KINDS)
        if kind == "text" and rng.random() < 0.6:
            kind = rng.choice(KINDS[:5])
        w, dp = rng.choice([(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 2)])
        if kind == "csv":
            w = 1
        if kind == "rangeedge":
            dp = 1
        batch = rng.choice([1, 2, 3, 4, 5, 8])
        nf = 1 if kind in ONEFILE else w * rng.choice([1, 1, 2]) + rng.choice([0, 1, 2])
        if kind == "text":
            nf += w * (dp - 1)
        sizes = [rng.choice([1, 2, 3, batch, batch * 2, batch * 2 + 1, rng.randrange(1, 30)]) for _ in range(nf)]
        if nf == 1:
            sizes[0] = max(sizes[0], w)
        if kind == "range":
            sizes[0] = max(sizes[0], (w - 1) * batch * dp + 1)
        if kind == "rangeedge":
            sizes[0] = max(sizes[0], (w - 1) * batch + 1)
        api = rng.choice(["sampler", "sampler", "dataset", "prefetch", "torch", "torch"])
        return {"kind": kind, "w": w, "dp": dp, "batch": batch, "sizes": sizes, "api": api, "epochs": rng.choice([1, 1, 2, 3]),
                "shuffle": dp == 1 and rng.random() < 0.4, "drop": rng.random() < 0.35, "fill": rng.choice([-1, -1, -7, 999999]),
                "passes": rng.choice([1, 1, 2]), "dim": rng.choice([1, 2, 3]), "etype": rng.choice([0, 2]), "eol": rng.random() < 0.7,
                "late": rng.random() < 0.3, "par": rng.choice([1, 2, 4]), "dup": rng.random() < 0.15, "block": rng.choice([60, 300, 5000]),
                "first": rng.choice([0, 1, 17]), "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 600000}, "label": kind}

    # ---- training set ----
    def examples(self, cfg):
        out, k = [], 100
        for s in cfg["sizes"]:
            one = []
            for _ in range(s):
                k += 1
                a = 100 + (k % 7) if cfg["dup"] else k
                if cfg["kind"] == "node":
                    one.append((a,))
                elif cfg["kind"] == "edge":
                    one.append((a, k * 3, cfg["etype"]))
                elif cfg["kind"] == "edgefeat":
                    one.append((a, k * 3, cfg["etype"]) + tuple(float(k + 0.5 * d) for d in range(cfg["dim"])))
                elif cfg["kind"] == "tuple":
                    one.append((a, k % 5))
                elif cfg["kind"] == "tuple2":
                    one.append((a, float(k % 5)) + tuple(float(k + 0.5 * d) for d in range(cfg["dim"])))
                elif cfg["kind"] == "csv":
                    one.append((a,) + tuple(k + d for d in range(1, cfg["dim"])))
                elif cfg["kind"] == "text":
                    one.append(("%d:%s" % (a, "x" * (k % 6)),))
            out.append(one)
        if cfg["kind"] == "range":
            return [[(cfg["first"] + i,) for i in range(cfg["sizes"][0])]]
        if cfg["kind"] == "rangeedge":
            return [[(cfg["first"] + 2 * i, cfg["first"] + 2 * i + 1, cfg["etype"]) for i in range(cfg["sizes"][0])]]
        return out

    def write(self, sim, cfg, ex):
        d = os.path.join(sim.scratch, "train")
        core.SIM = None
        try:
            os.makedirs(d)
            for i, one in enumerate(ex):
                sep = {"csv": ",", "text": ""}.get(cfg["kind"], "\t")
                lines = []
                for e in one:
                    if cfg["kind"] in ("edge", "edgefeat"):
                        e = e[:2] + e[3:]
                    if cfg["kind"] == "tuple2":
                        e = e[:2] + (" ".join(str(v) for v in e[2:]),)
                    lines.append(sep.join(str(v) for v in e))
                with open(os.path.join(d, "part_%d.txt" % (i * 7 + 3)), "w") as f:
                    f.write("\n".join(lines) + ("\n" if cfg["eol"] else ""))
        finally:
            core.SIM = sim
        return d

    def spec(self, cfg, d, w, r):
        """Sampler class and its arguments."""
        b, kind = cfg["batch"], cfg["kind"]
        common = dict(batch_size=b, worker_index=w, num_workers=cfg["w"])
        if not (cfg["api"] == "torch" or (cfg["late"] and kind not in ("text", "csv"))):
            common.update(data_parallel_num=cfg["dp"], data_parallel_index=r)
        files = dict(epochs=cfg["epochs"], shuffle=cfg["shuffle"], drop_last=cfg["drop"])
        one = os.path.join(d, "part_3.txt")
        if kind == "node":
            return S.FileNodeSampler, dict(common, sample_files=d + "/*", backfill_id=cfg["fill"], **files)
        if kind in ("edge", "edgefeat"):
            f = dict(feature_dim=cfg["dim"]) if kind == "edgefeat" else {}
            return S.FileEdgeSampler, dict(common, edge_type=cfg["etype"], sample_files=d + "/*", backfill_id=cfg["fill"], **files, **f)
        if kind == "tuple":
            return S.FileTupleSampler, dict(common, filename=one, backfill=cfg["fill"], **files)
        if kind == "tuple2":
            return S.FileTupleSamplerV2, dict(common, filename=one, backfill=cfg["fill"], **files)
        if kind == "text":
            return S.TextFileSampler, dict(common, store_name=None, filename=d, buffer_size=4, read_block_in_M=cfg["block"] / 1e6,
                                           buffer_queue_size=2, **dict(files, drop_last=False))
        if kind == "csv":
            common.pop("worker_index"), common.pop("num_workers")
            return S.CSVNodeSampler, dict(common, sample_file=one)
        n = cfg["sizes"][0]
        if kind == "range":
            return S.RangeNodeSampler, dict(common, first=cfg["first"], last=cfg["first"] + n, backfill_id=cfg["fill"])
        return S.RangeEdgeSampler, dict(common, edge_type=cfg["etype"], first=cfg["first"], last=cfg["first"] + 2 * n, backfill_id=cfg["fill"])

    def process(self, rank, sim, cfg, d, out):
        w, r = divmod(rank, cfg["dp"])
        cls, kw = self.spec(cfg, d, w, r)
        passes = 1 if cfg["kind"] == "csv" else cfg["passes"]
        if cfg["api"] == "sampler":
            src = cls(**kw)
        else:
            if cfg["api"] == "torch":
                if cfg["dp"] > 1 or cfg["late"]:
                    core.SIM.cur.proc.loader = types.SimpleNamespace(id=r, num_workers=cfg["dp"])
                src = TorchDeepGNNDataset(cls, query, _Backend(), enable_prefetch=cfg["late"], prefetch_worker_size=cfg["par"], **kw)
            else:
                src = DeepGNNDataset(cls, query, _Backend(), enable_prefetch=cfg["api"] == "prefetch", prefetch_queue_size=2,
                                     prefetch_worker_size=cfg["par"], **kw)
        if cfg["late"] and cfg["api"] != "torch" and cfg["kind"] not in ("text", "csv"):
            s = src if cfg["api"] == "sampler" else src.sampler
            s.data_parallel_num, s.data_parallel_index = cfg["dp"], r
        for k in range(passes):
            it = iter(src)
            got = []
            while True:
                try:
                    b = next(it)
                except StopIteration:
                    break
                got.append(b)
                expect(len(got) < 400, "worker %d replica %d: the sampler does not end" % (w, r), "does not end")
            if hasattr(it, "join"):
                it.join()
            out[rank].append(got)
        if cfg["kind"] != "text":
            out[rank].append(len(src))
        out[rank].append("done")

    # ---- oracle ----
    @staticmethod
    def rows(cfg, b, who):
        size = cfg["batch"]
        parts = b if isinstance(b, list) and cfg["kind"] in ("edgefeat", "tuple2") else [b]
        if cfg["kind"] == "text":
            expect(len(b) == size, "%s: a batch with %d entries instead of %d" % (who, len(b), size), "batch size")
            return [(l,) for l in b]
        n = len(parts[0])
        expect(n == size or (cfg["kind"] == "csv" and 0 < n <= size), "%s: a batch with %d entries instead of %d" % (who, n, size), "batch size")
        rows = [[] for _ in range(n)]
        for p in parts:
            p = np.asarray(p)
            expect(len(p) == n, "%s: parts of a batch have %d and %d entries" % (who, n, len(p)), "batch size")
            for i in range(n):
                rows[i].extend(p[i].reshape(-1).tolist())
        return [tuple(x) for x in rows]

    def run(self, sim, cfg):
        ex = self.examples(cfg)
        d = self.write(sim, cfg, ex)
        total = cfg["w"] * cfg["dp"]
        out = [[] for _ in range(total)]
        sim.info["phase"] = "sampling"
        procs = [spawn(self.process, i, (sim, cfg, d, out)) for i in range(total)]
        for p in procs:
            p.join()
        for e in sim.thread_errors:
            expect(False, "a sampling process failed: %s" % short(e), "process failed")
        for i, o in enumerate(out):
            expect(o and o[-1] == "done", "process %d did not finish" % i, "process failed")
        epochs = 1 if cfg["kind"] in ("range", "rangeedge", "csv") else cfg["epochs"]
        drop = cfg["drop"] and cfg["kind"] not in ("text", "range", "rangeedge", "csv")
        want = Counter(e for one in ex for e in one)
        for e in want:
            want[e] *= epochs
        passes = 1 if cfg["kind"] == "csv" else cfg["passes"]
        n = sim.info["n"] = {"batches": 0, "examples": 0}
        fill = "" if cfg["kind"] == "text" else cfg["fill"]
        inorder = cfg["api"] in ("sampler", "dataset") or (cfg["api"] == "torch" and not cfg["late"]) or cfg["par"] == 1
        for k in range(passes):
            got = Counter()
            for i in range(total):
                who = "worker %d replica %d" % divmod(i, cfg["dp"])
                padded = 0
                bs = out[i][k]
                n["batches"] += len(bs)
                for j, b in enumerate(bs):
                    rows = self.rows(cfg, b, who)
                    if len(rows) < cfg["batch"] and inorder:
                        expect(j == len(bs) - 1, "%s: batch %d is short" % (who, j), "batch size")
                    pads = [x[0] == fill for x in rows]
                    m = sum(pads)
                    if m:
                        padded += 1
                        expect(not drop, "%s: padding although incomplete batches are dropped: %s" % (who, short(rows)), "drop_last ignored")
                        expect(m < len(rows), "%s: a batch of padding only" % who, "padding only")
                        expect(all(pads[-m:]), "%s: padding between examples %s" % (who, short(rows)), "padding position")
                        expect(not inorder or j == len(bs) - 1, "%s: padding in batch %d of %d" % (who, j, len(bs)), "padding position")
                        for x in rows[len(rows) - m:]:
                            if cfg["kind"] in ("edge", "edgefeat", "rangeedge"):
                                expect(x[1] == fill and x[2] == cfg["etype"], "%s: padding entry %s" % (who, x), "padding value")
                            if cfg["kind"] == "tuple":
                                expect(x[1] == fill, "%s: padding entry %s" % (who, x), "padding value")
                        rows = rows[:len(rows) - m]
                    got.update(rows)
                    n["examples"] += len(rows)
                expect(padded <= 1, "%s: %d batches with padding" % (who, padded), "padding position")
                if cfg["kind"] != "text":
                    announced = out[i][passes]
                    slack = 0 if cfg["dp"] == 1 else 1
                    expect(abs(announced - len(bs)) <= slack, "%s: %d batches but the sampler announces %d" % (who, len(bs), announced), "length")
            extra = got - want
            expect(not extra, "examples produced too often or never in the set: %s" % short(sorted(extra.items())[:8]), "extra examples")
            missing = want - got
            if drop:
                lim = cfg["w"] * (cfg["batch"] - 1)
                expect(sum(missing.values()) <= lim, "%d examples missing, at most %d may be dropped" % (sum(missing.values()), lim), "examples lost")
            else:
                expect(not missing, "examples never produced: %s" % short(sorted(missing.items())[:8]), "examples lost")
        sim.info["nontrivial"] = (total > 1 or cfg["api"] == "prefetch" or cfg["late"]) and n["batches"] >= 2

    def shrink(self, cfg):
        for key, v in (("passes", 1), ("epochs", 1), ("shuffle", False), ("late", False), ("api", "sampler"), ("dup", False), ("par", 1)):
            if cfg[key] != v:
                yield dict(cfg, **{key: v})


CHECK = C18()
