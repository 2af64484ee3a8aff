"""C05: prefetching delivers every query result exactly once, then ends."""
from vsim.runner import Check
from vsim.core import Violation
from . import prefetch_lib as P


class C05(Check):
    property = "C05"
    rule = ("each run draws sampler length, queue size, number of query threads, sampler/query/consumer delays in virtual time, entry point "
            "(generator or dataset), number of passes and a schedule; non-trivial = at least 2 batches and one preemption; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = P.REAL, P.STUBBED, P.ASSUME

    def gen(self, rng, tier, index):
        cfg = P.gen_base(rng)
        cfg.update(sc=cfg["api"], passes=rng.choice([1, 1, 2]), extra=rng.choice([1, 2, 3]), instr=rng.random() < 0.15)
        if rng.random() < 0.2:
            cfg["values"] = "mixed"
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        w, make = P.build(sim, cfg)
        n = info["n"] = {"results": 0, "empty": 0}
        for _ in range(cfg["passes"]):
            w.started, w.finished, w.nones = [], [], 0
            gen = make()
            info["phase"] = "iterate"
            got = []
            for r in gen:
                got.append(P.ident(w, r))
                P.expect(len(got) <= cfg["length"] + 5, "more results than batches: %s" % got, "too many results")
                if cfg["cdelay"]:
                    w.delay(len(got))
            want = list(range(cfg["length"]))
            n["results"] += len(got)
            n["empty"] += 0 if got else 1
            P.expect(sorted(got) == want, "results %s for batches 0..%d" % (P.short(sorted(got)), cfg["length"] - 1), "lost or repeated results")
            if cfg["parallel"] == 1:
                P.expect(got == want, "one query thread but results out of order: %s" % got, "order")
            P.expect(sorted(w.finished) == want, "queries executed %s" % P.short(sorted(w.finished)), "queries lost or repeated")
            info["phase"] = "after-end"
            for _ in range(cfg["extra"]):
                try:
                    r = next(gen)
                except StopIteration:
                    continue
                raise Violation("a result %s after the end" % P.short(r), "result after end")
            info["phase"] = "close"
            gen.join()
        info["nontrivial"] = cfg["length"] >= 2 and sim.preempts > 0


CHECK = C05()
