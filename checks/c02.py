"""C02: worker shards and byte-range splits partition the lines."""
import os
import threading
from collections import Counter

from vsim import core
from vsim.runner import Check
from vsim.core import Violation
from . import reader_lib as R


class C02(Check):
    property = "C02"
    rule = ("each run draws input files, a worker count and data-parallel split (shards), or line-aligned cuts of one file (ranges), the "
            "directory order every worker sees, reader settings and a schedule of all workers running concurrently; non-trivial = at least "
            "2 workers or ranges, 4 lines and one preemption; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = R.REAL, R.STUBBED, R.ASSUME

    def gen(self, rng, tier, index):
        sc = rng.choice(["shards", "shards", "ranges", "ranges", "sampler", "refuse"])
        cfg = {"sc": sc, "epochs": rng.choice([1, 1, 2]), "shuffle": rng.random() < 0.3, "drop_last": False,
               "passes": rng.choice([1, 2]), "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 900000}}
        if sc == "ranges":
            files = R.gen_files(rng, maxfiles=1, maxlines=20)
            files[0]["lines"] = files[0]["lines"] or ["a", "b"]
            cfg["where"] = rng.choice(["file", "adl"])
            n = len(files[0]["lines"])
            k = rng.randrange(1, min(4, n) + 1)
            cfg["cuts"] = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
            cfg["last_open"] = rng.random() < 0.5
            cfg["epochs"] = 1
            cfg["shuffle"] = False
            cfg["passes"] = rng.choice([1, 2, 3])
        else:
            files = R.gen_files(rng, maxfiles=6, maxlines=8)
            cfg["where"] = rng.choice(["dir", "dir", "adl"])
            nf = len(files)
            if sc == "sampler":
                cfg["dp"] = rng.choice([1, 1, 2])
                cfg["workers"] = max(1, rng.randrange(1, nf + 1) // cfg["dp"])
                cfg["dp"] = min(cfg["dp"], nf // cfg["workers"])
            else:
                cfg["workers"] = rng.randrange(1, nf + 1)
        if sc == "refuse":
            cfg["workers"] = len(files) + rng.randrange(1, 4)
        cfg["files"] = files
        cfg["p"] = R.gen_params(rng, files)
        if sc != "ranges":
            cfg["p"]["block"] = max(cfg["p"]["block"], R.total_bytes(files) // 6 + 1)
            cfg["p"]["threads"] = min(3, cfg["p"]["threads"])
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        path = R.put_files(sim, cfg["files"], cfg["where"])
        n = info["n"] = {"lines": 0}
        sc = cfg["sc"]
        if sc == "refuse":
            for i in range(cfg["workers"]):
                try:
                    R.make_iter(path, cfg, worker_index=i, num_workers=cfg["workers"])
                except Exception:
                    continue
                raise Violation("worker %d of %d accepted with %d input files" % (i, cfg["workers"], len(cfg["files"])), "too many workers accepted")
            info["nontrivial"] = True
            return
        jobs = []
        lim = R.batch_limit(cfg["files"], cfg["epochs"], cfg["p"]["batch"])
        results = []
        if sc == "ranges":
            f = cfg["files"][0]
            data = R.content(f)
            enc = [(l + f["eol"]).encode("utf-8") for l in f["lines"]]
            offs = [0]
            for e in enc:
                offs.append(offs[-1] + len(e))
            offs[-1] = len(data)
            bounds = [0] + cfg["cuts"] + [len(enc)]
            if cfg["where"] == "adl":
                path = "data/" + f["name"]
            for j in range(len(bounds) - 1):
                a, b = bounds[j], bounds[j + 1]
                length = offs[b] - offs[a]
                if j == len(bounds) - 2 and cfg["last_open"]:
                    length = -1
                p = cfg["p"]
                kw = dict(filename=path, batch_size=p["batch"], read_block_in_M=p["block"] / 1e6, buffer_queue_size=p["queue"],
                          thread_count=p["threads"], worker_offset=offs[a], total_read_length=length)
                kw.update(R.adl_args(cfg["where"]))
                jobs.append((lambda kw=kw: R.TextFileSplitIterator(**kw), [l for l in f["lines"][a:b] if l]))
        elif sc == "shards":
            for i in range(cfg["workers"]):
                jobs.append((lambda i=i: R.make_iter(path, cfg, worker_index=i, num_workers=cfg["workers"]), None))
        else:
            for i in range(cfg["workers"]):
                for d in range(cfg["dp"]):
                    jobs.append((lambda i=i, d=d: R.make_sampler(path, cfg, worker_index=i, num_workers=cfg["workers"],
                                                                data_parallel_num=cfg["dp"], data_parallel_index=d), None))

        def work(j, make):
            try:
                it = make()
                passes = []
                for _ in range(cfg["passes"]):
                    passes.append([l for b in R.consume(it, lim) for l in b if l])
                results.append((j, passes, None))
            except Violation as v:
                results.append((j, None, v))
            except Exception as e:
                results.append((j, None, Violation("worker %d failed: %r" % (j, e), "worker failed")))

        info["phase"] = "iterate"
        ts = [threading.Thread(target=work, args=(j, m)) for j, (m, _) in enumerate(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for _, _, e in results:
            if e is not None:
                raise e
        R.expect(len(results) == len(jobs), "a worker did not finish", "worker failed")
        results.sort(key=lambda r: r[0])
        want = [l for f in cfg["files"] for l in f["lines"] if l] * cfg["epochs"]
        for p in range(cfg["passes"]):
            got = [l for r in results for l in r[1][p]]
            n["lines"] += len(got)
            if Counter(got) != Counter(want):
                miss, extra = Counter(want) - Counter(got), Counter(got) - Counter(want)
                raise Violation("pass %d: %d workers together miss %s and repeat %s" % (p, len(jobs), R.short(dict(miss)), R.short(dict(extra))),
                                "lines lost or repeated between workers")
            if sc == "ranges":
                for (j, passes, _), (_, exp) in zip(results, jobs):
                    R.expect(passes[p] == exp, "pass %d: range %d delivered %s instead of %s" % (p, j, R.short(passes[p]), R.short(exp)),
                             "range content")
            else:
                # a line belongs to the same worker in every epoch
                for j, passes, _ in results:
                    c = Counter(passes[p])
                    R.expect(all(v == cfg["epochs"] for v in c.values()), "worker %d saw lines an uneven number of times: %s" % (j, R.short(c)),
                             "uneven epochs")
        info["nontrivial"] = len(jobs) > 1 and len(want) >= 4 and sim.preempts > 0


CHECK = C02()
