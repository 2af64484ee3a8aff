"""C01: text readers yield every line exactly once and in order."""
from vsim.runner import Check
from vsim.core import Violation
from . import reader_lib as R


class C01(Check):
    property = "C01"
    rule = ("each run draws files (count, names, line lengths, EOL style, empty files, missing final newline), block size, reader threads, "
            "queue size, batch size, epochs, shuffle, drop_last, local or remote store, and a thread schedule; non-trivial = at least 3 input "
            "lines, at least 2 blocks or files, and at least one preemption; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = R.REAL, R.STUBBED, R.ASSUME

    def gen(self, rng, tier, index):
        sampler = rng.random() < 0.25
        files = R.gen_files(rng, blanks=(not sampler and rng.random() < 0.2))
        where = rng.choice(["dir", "dir", "file", "adl"])
        if where == "file":
            files = files[:1]
        cfg = {"sc": "sampler" if sampler else "iterator", "files": files, "where": where, "p": R.gen_params(rng, files),
               "epochs": rng.choice([1, 1, 2, 3]), "shuffle": rng.random() < 0.35, "drop_last": rng.random() < 0.3,
               "passes": rng.choice([1, 1, 2]), "buffer": rng.choice([0, 3, 10, 40]),
               "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 600000}}
        if sampler:
            cfg["p"]["block"] = max(cfg["p"]["block"], R.total_bytes(files) // 6 + 1)
        cfg["instr"] = rng.random() < 0.1
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        path = R.put_files(sim, cfg["files"], cfg["where"])
        nlines = sum(1 for f in cfg["files"] for l in f["lines"] if l)
        lim = R.batch_limit(cfg["files"], cfg["epochs"], cfg["p"]["batch"])
        n = info["n"] = {"lines": 0, "batches": 0}
        if cfg["sc"] == "iterator":
            it = R.make_iter(path, cfg)
        else:
            it = R.make_sampler(path, cfg)
        for _ in range(cfg["passes"]):
            info["phase"] = "iterate"
            bs = R.consume(it, lim)
            n["lines"] += sum(len(b) for b in bs)
            n["batches"] += len(bs)
            if cfg["sc"] == "iterator":
                R.check_stream(bs, cfg["files"], cfg["epochs"], cfg["shuffle"], cfg["drop_last"], cfg["p"]["batch"])
                for _ in range(2):
                    try:
                        b = next(it)
                    except StopIteration:
                        pass
                    else:
                        raise Violation("a batch %s after the end of data" % R.short(b), "data after end")
            else:
                self.check_sampler(bs, cfg)
        info["phase"] = "close"
        del it
        info["nontrivial"] = nlines >= 3 and sim.preempts > 0 and (len(cfg["files"]) > 1 or cfg["p"]["block"] < R.total_bytes(cfg["files"]))

    def check_sampler(self, bs, cfg):
        size = cfg["p"]["batch"]
        for b in bs:
            R.expect(len(b) == size, "sampler batch has %d entries instead of %d" % (len(b), size), "batch size")
        flat = [l for b in bs for l in b]
        pad = 0
        while flat and flat[-1] == "":
            flat.pop()
            pad += 1
        R.expect("" not in flat, "padding in the middle of the data", "padding position")
        want = [l for f in R.ordered(cfg["files"]) for l in f["lines"] if l] * cfg["epochs"]
        R.expect(pad < size or not want or (cfg["drop_last"] and not flat), "a whole batch of padding", "padding amount")
        if cfg["drop_last"]:
            keep = len(want) - len(want) % size
            if not cfg["shuffle"]:
                want = want[:keep]
                R.expect(flat == want, "sampler lines differ: got %s want %s" % (R.short(flat), R.short(want)), "lines differ")
            else:
                R.expect(len(flat) == keep and not (_count(flat) - _count(want)), "sampler lines differ: got %s want most of %s" % (
                    R.short(flat), R.short(want)), "lines differ")
            return
        if cfg["shuffle"]:
            R.expect(sorted(flat) == sorted(want), "sampler lines differ: got %s want %s" % (R.short(sorted(flat)), R.short(sorted(want))),
                     "lines differ")
        else:
            R.expect(flat == want, "sampler lines differ: got %s want %s" % (R.short(flat), R.short(want)), "lines differ")

    def shrink(self, cfg):
        c = dict(cfg)
        c["passes"] = 1
        if cfg["passes"] > 1:
            yield c


def _count(x):
    from collections import Counter
    return Counter(x)


CHECK = C01()
