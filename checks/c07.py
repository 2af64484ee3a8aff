"""C07: a prefetch generator can be closed at any moment."""
from vsim import core
from vsim.runner import Check
from vsim.core import Violation
from . import prefetch_lib as P


class C07(Check):
    property = "C07"
    rule = ("each run draws a prefetch configuration, the number of results consumed before closing (or closing at a seeded scheduling point "
            "while the producer works), delays and a schedule; non-trivial = closed before all batches were produced; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = P.REAL, P.STUBBED, P.ASSUME

    def gen(self, rng, tier, index):
        cfg = P.gen_base(rng)
        cfg["length"] = max(cfg["length"], rng.choice([0, 1, 3, 25, 70]))
        cfg.update(sc=rng.choice(["join", "join", "drop", "join2"]), consume=rng.choice([0, 0, 1, 2, rng.randrange(0, cfg["length"] + 1)]),
                   spin=rng.choice([0, 0, 5, 50, 300]), pause=rng.choice([0, 0, 0.5, 10]), instr=rng.random() < 0.15)
        if rng.random() < 0.1:
            # as good as endless: closing cannot wait for the sampler to end
            cfg.update(length=10 ** 9, consume=rng.choice([0, 0, 1, 5, 25]))
        elif rng.random() < 0.15:
            cfg["fail_query"] = [rng.randrange(0, cfg["length"] + 1)]
        return cfg

    def run(self, sim, cfg):
        import time
        info = sim.info
        info["phase"] = "construct"
        w, make = P.build(sim, cfg)
        n = info["n"] = {"closed_early": 0, "queries_run": 0}
        gen = make()
        info["phase"] = "iterate"
        got = 0
        for _ in range(cfg["consume"]):
            try:
                P.ident(w, next(gen))
            except StopIteration:
                break
            except Violation:
                raise
            except Exception:
                break
            got += 1
            if cfg["cdelay"]:
                w.delay(got)
        for _ in range(cfg["spin"]):
            sim.point("consumer")
        if cfg["pause"]:
            time.sleep(cfg["pause"])
        early = w.steps < cfg["length"] or len(w.started) < cfg["length"]
        info["phase"] = "close"
        if cfg["sc"] == "drop":
            gen.__del__()
        else:
            gen.join()
            if cfg["sc"] == "join2":
                gen.join()
        w.closed = True
        info["phase"] = "after-close"
        live = P.live_threads(sim)
        n["queries_run"] = len(w.started)
        # let leftovers, if any, run: they would be seen as late sampler steps or queries
        time.sleep(100)
        P.expect(not w.late, "after close returned: %s" % w.late[:5], "work after close")
        P.expect(len(w.started) == n["queries_run"], "queries started after close", "work after close")
        P.expect(not live, "background threads left after close: %s" % [(t.name, t.wait) for t in live], "threads left")
        n["closed_early"] = 1 if early else 0
        info["nontrivial"] = early


CHECK = C07()
