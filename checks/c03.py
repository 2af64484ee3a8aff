"""C03: read failures are reported, never turned into silently missing data."""
from vsim.runner import Check
from vsim.core import Violation
from . import reader_lib as R


class C03(Check):
    property = "C03"
    rule = ("each run draws input files, reader settings, a schedule and a fault plan (I/O errors on open or read of the local files, short "
            "reads, remote read errors and delays) applied at seeded operations of the background readers; non-trivial = at least one fault "
            "fired while data was being read; distinct by configuration digest, switch sequence and faults fired")
    real, stubbed, assumptions = R.REAL, R.STUBBED, R.ASSUME

    def gen(self, rng, tier, index):
        sampler = rng.random() < 0.25
        files = R.gen_files(rng, nonempty=rng.random() < 0.7)
        where = rng.choice(["dir", "dir", "file", "adl"])
        if where == "file":
            files = files[:1]
        cfg = {"sc": ("sampler-" if sampler else "iterator-") + where, "sampler": sampler, "files": files, "where": where, "p": R.gen_params(rng, files),
               "epochs": rng.choice([1, 1, 2]), "shuffle": rng.random() < 0.2, "drop_last": rng.random() < 0.2, "buffer": 0,
               "rate": rng.choice([0.01, 0.03, 0.1, 0.3, 1.0]), "budget": rng.choice([1, 1, 1, 2, 5, 1000]),
               "kinds": rng.choice(["error", "error", "short", "mixed"]), "stop_on_error": rng.random() < 0.7,
               "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 600000}}
        cfg["again"] = rng.choice([0, 1, 2])
        if sampler:
            cfg["p"]["block"] = max(cfg["p"]["block"], R.total_bytes(files) // 6 + 1)
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        path = R.put_files(sim, cfg["files"], cfg["where"])
        lim = R.batch_limit(cfg["files"], cfg["epochs"], cfg["p"]["batch"])
        n = info["n"] = {"errors_reported": 0, "completed_despite_faults": 0, "lines": 0}
        it = R.make_sampler(path, cfg) if cfg["sampler"] else R.make_iter(path, cfg)
        rate = cfg["rate"]
        rates = {}
        if cfg["kinds"] in ("error", "mixed"):
            rates.update({"read:eio": rate, "open:eio": rate, "open:emfile": rate / 3, "net:error:read": rate})
        if cfg["kinds"] in ("short", "mixed"):
            rates.update({"read:short": min(1.0, rate * 2), "net:delay": rate})
        sim.fault_rates = rates
        sim.fault_budget = cfg["budget"]
        info["phase"] = "iterate"
        sim.faults_on = True
        got = []
        error = None
        try:
            for b in it:
                got.append(list(b))
                if len(got) > lim:
                    raise Violation("more than %d batches" % lim, "too many batches")
        except Violation:
            raise
        except Exception as e:
            error = e
        sim.faults_on = False
        n["lines"] = sum(len(b) for b in got)
        fired = sum(v for k, v in sim.fired.items() if k != "stall")
        hard = any("eio" in k or "emfile" in k or "error" in k for k in sim.fired)
        if error is None:
            self.complete(got, cfg)
            n["completed_despite_faults"] = 1 if fired else 0
        else:
            R.expect(hard, "the iteration failed without a fault: %r" % error, "error without fault")
            n["errors_reported"] = 1
            # what was delivered before the error must still be genuine input in order
            self.prefix(got, cfg)
            # asking again may fail or end, but must not block
            info["phase"] = "next-after-error"
            for _ in range(cfg.get("again", 0)):
                try:
                    next(it)
                except Exception:
                    pass
        info["phase"] = "close"
        (it.file_iter if cfg["sampler"] and hasattr(it, "file_iter") else it).join()
        del it
        info["nontrivial"] = fired > 0

    def complete(self, got, cfg):
        if cfg["sampler"]:
            flat = [l for b in got for l in b if l]
            want = [l for f in R.ordered(cfg["files"]) for l in f["lines"] if l] * cfg["epochs"]
            if cfg["drop_last"]:
                R.expect(len(want) - len(flat) < cfg["p"]["batch"] and len(flat) == len(want) - len(want) % cfg["p"]["batch"],
                         "sampler ended normally after %d of %d lines" % (len(flat), len(want)), "silent loss")
                return
            R.expect(sorted(flat) == sorted(want), "the sampler ended normally with lines missing or damaged: got %s want %s" % (
                R.short(flat), R.short(want)), "silent loss")
            return
        try:
            R.check_stream(got, cfg["files"], cfg["epochs"], cfg["shuffle"], cfg["drop_last"], cfg["p"]["batch"])
        except Violation as v:
            raise Violation("normal end of data but " + v.what, "silent loss")

    def prefix(self, got, cfg):
        if cfg["sampler"] or cfg["shuffle"]:
            allowed = set(l for f in cfg["files"] for l in f["lines"])
            for b in got:
                for l in b:
                    R.expect(l in allowed or l == "", "damaged line %r" % l, "damaged line")
            return
        flat = [l for b in got for l in b if l]
        want = [l for f in R.ordered(cfg["files"]) for l in f["lines"] if l] * cfg["epochs"]
        R.expect(want[:len(flat)] == flat, "lines delivered before the error are not a prefix of the input: got %s want prefix of %s" % (
            R.short(flat), R.short(want)), "damaged prefix")


CHECK = C03()
