"""C04: readers can be stopped, dropped or restarted at any moment."""
from vsim import core
from vsim.runner import Check
from vsim.core import Violation
from . import reader_lib as R


class C04(Check):
    property = "C04"
    rule = ("each run draws input files, reader settings, a history of consume-k/stop/restart/iterate/drop operations and a schedule; "
            "non-trivial = at least one stop, restart or drop while data was still unread and at least one preemption; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = R.REAL, R.STUBBED, R.ASSUME

    def gen(self, rng, tier, index):
        sampler = rng.random() < 0.25
        files = R.gen_files(rng)
        where = rng.choice(["dir", "dir", "file", "adl"])
        if where == "file":
            files = files[:1]
        ops = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice([0, 0, 1, 1, 2, 3, 5])
            ops.append([rng.choice(["iter", "reset", "join", "join2", "iter"]), k])
        ops.append([rng.choice(["full", "full", "join", "drop", "resetfull"]), 0])
        cfg = {"sc": "sampler" if sampler else "iterator", "files": files, "where": where, "p": R.gen_params(rng, files),
               "epochs": rng.choice([1, 1, 2]), "shuffle": rng.random() < 0.15, "drop_last": rng.random() < 0.15, "buffer": 0, "ops": ops,
               "sim": {"dirseed": rng.randrange(1 << 30), "max_steps": 900000}}
        if not sampler and R.total_bytes(files) and ops[-1][0] in ("join", "drop") and rng.random() < 0.5:
            cfg["epochs"] = 10 ** 6  # nobody reads to the end of this
        if sampler:
            cfg["p"]["block"] = max(cfg["p"]["block"], R.total_bytes(files) // 5 + 1)
        return cfg

    def quiet(self, sim, when):
        me = sim.cur
        live = [t for t in sim.threads if t is not me and t.state in (core.READY, core.BLOCKED)]
        if live:
            raise Violation("%d background threads still running after %s returned: %s" % (
                len(live), when, [(t.name, t.state, t.wait) for t in live]), "background work after stop")

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "construct"
        path = R.put_files(sim, cfg["files"], cfg["where"])
        lim = R.batch_limit(cfg["files"], min(cfg["epochs"], 1000), cfg["p"]["batch"])
        n = info["n"] = {"stops": 0, "restarts": 0, "early": 0, "full_passes": 0}
        sampler = cfg["sc"] == "sampler"
        it = R.make_sampler(path, cfg) if sampler else R.make_iter(path, cfg)
        reader = getattr(it, "file_iter", it)
        started = False
        pos = []
        for op, k in cfg["ops"]:
            if op in ("iter", "full", "resetfull"):
                info["phase"] = "restart"
                if op == "resetfull":
                    it.reset()
                else:
                    it2 = iter(it)
                    R.expect(it2 is it or hasattr(it2, "__next__"), "iter() gave no iterator", "iter")
                n["restarts"] += 1
                started = True
                pos = []
            elif op == "reset":
                info["phase"] = "restart"
                it.reset()
                n["restarts"] += 1
                started = True
                pos = []
            elif op in ("join", "join2"):
                info["phase"] = "stop"
                reader.join()
                if op == "join2":
                    reader.join()
                n["stops"] += 1
                self.quiet(sim, "stop")
                started = False
                continue
            elif op == "drop":
                info["phase"] = "drop"
                it.__del__()
                n["stops"] += 1
                self.quiet(sim, "drop")
                started = False
                continue
            info["phase"] = "iterate"
            if op in ("full", "resetfull"):
                got = []
                while True:
                    try:
                        got.append(list(next(it)))
                    except StopIteration:
                        break
                    R.expect(len(got) <= lim, "more than %d batches" % lim, "too many batches")
                n["full_passes"] += 1
                if sampler:
                    flat = [l for b in got for l in b if l]
                    want = [l for f in R.ordered(cfg["files"]) for l in f["lines"] if l] * cfg["epochs"]
                    if cfg["drop_last"]:
                        want_n = len(want) - len(want) % cfg["p"]["batch"]
                        R.expect(len(flat) == want_n and set(flat) <= set(want), "after a restart: got %s want %s" % (R.short(flat), R.short(want)),
                                 "restart incomplete")
                    else:
                        ok = sorted(flat) == sorted(want) if cfg["shuffle"] else flat == want
                        R.expect(ok, "after a restart: got %s want %s" % (R.short(flat), R.short(want)), "restart incomplete")
                else:
                    try:
                        R.check_stream(got, cfg["files"], cfg["epochs"], cfg["shuffle"], cfg["drop_last"], cfg["p"]["batch"])
                    except Violation as v:
                        raise Violation("after history %s: %s" % (cfg["ops"], v.what), "restart incomplete")
            else:
                ended = False
                for _ in range(k):
                    try:
                        pos.append(list(next(it)))
                    except StopIteration:
                        ended = True
                        break
                if not ended:
                    n["early"] += 1
                if not sampler and not cfg["shuffle"]:
                    flat = [l for b in pos for l in b if l]
                    want = [l for f in R.ordered(cfg["files"]) for l in f["lines"] if l] * min(cfg["epochs"], 1000)
                    R.expect(want[:len(flat)] == flat, "after history %s: first lines %s are not a prefix of %s" % (
                        cfg["ops"], R.short(flat), R.short(want)), "leftovers after restart")
        info["phase"] = "stop"
        reader.join()
        self.quiet(sim, "stop")
        info["nontrivial"] = (n["early"] > 0) and sim.preempts > 0


CHECK = C04()
