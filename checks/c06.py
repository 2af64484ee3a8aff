"""C06: sampler and query failures reach the consumer of a prefetched dataset."""
from vsim.runner import Check
from vsim.core import Violation
from . import prefetch_lib as P


class C06(Check):
    property = "C06"
    rule = ("each run draws a prefetch configuration plus failing sampler step and/or failing query calls, delays and a schedule; non-trivial = "
            "the injected failure was actually raised; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = P.REAL, P.STUBBED, P.ASSUME

    def gen(self, rng, tier, index):
        cfg = P.gen_base(rng)
        L = cfg["length"]
        kind = rng.choice(["sampler", "query", "query", "query2", "both"])
        if L == 0:
            kind = "sampler"
        if kind in ("sampler", "both"):
            cfg["fail_sampler"] = rng.randrange(0, L + 1)
        if kind in ("query", "both"):
            cfg["fail_query"] = [rng.randrange(0, L)]
            if rng.random() < 0.3:
                cfg["fail_query"] = [L - 1]
        if kind == "query2":
            cfg["fail_query"] = sorted(set(rng.randrange(0, L) for _ in range(3)))
        cfg.update(sc=kind, instr=rng.random() < 0.15, after=rng.choice(["next", "close", "close"]))
        cfg["exc"] = rng.choice([0, 0, 0, 1, 2, 3, 4])
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        w, make = P.build(sim, cfg)
        n = info["n"] = {"results_before_error": 0, "errors": 0}
        gen = make()
        info["phase"] = "iterate"
        got = []
        err = None
        try:
            for r in gen:
                got.append(P.ident(w, r))
                P.expect(len(got) <= cfg["length"], "more results than batches", "too many results")
                if cfg["cdelay"]:
                    w.delay(len(got))
        except Violation:
            raise
        except Exception as e:
            err = e
        bad = set(cfg.get("fail_query") or [])
        P.expect(len(set(got)) == len(got) and not (set(got) & bad) and set(got) <= set(w.finished),
                 "results delivered before the failure are wrong: %s" % got, "wrong results")
        if err is None:
            raise Violation("normal end of data after %d results although %s failed" % (len(got), cfg["sc"]), "failure hidden")
        texts = ["query failure #%d#" % i for i in bad]
        if cfg.get("fail_sampler") is not None:
            texts.append("sampler failure #%d#" % cfg["fail_sampler"])
        P.expect(any(t in str(err) for t in texts), "the error does not carry the original text: %s" % P.short(str(err)), "error text lost")
        n["results_before_error"] = len(got)
        n["errors"] = 1
        sim.fired["raise:" + ("sampler" if "sampler failure" in str(err) else "query")] = 1
        if cfg["after"] == "next":
            info["phase"] = "next-after-error"
            for _ in range(cfg["length"] + 3):
                try:
                    r = next(gen)
                except StopIteration:
                    break
                except Exception:
                    continue
                P.ident(w, r)
        info["phase"] = "close"
        gen.join()
        P.expect(not P.live_threads(sim), "background threads left after close", "threads left")
        info["nontrivial"] = True


CHECK = C06()
