"""C17: file based barrier of distributed training."""
import os
import sys
import time
import types

from vsim.runner import Check, PYSRC
from .reader_lib import expect, short
from .sync_lib import spawn


def _load():
    """The module needs tensorflow only for log messages."""
    if "tensorflow" not in sys.modules:
        tf = types.ModuleType("tensorflow")
        tf.compat = types.SimpleNamespace(v1=types.SimpleNamespace(logging=types.SimpleNamespace(
            info=lambda *a, **k: None, warning=lambda *a, **k: None, warn=lambda *a, **k: None, error=lambda *a, **k: None)))
        sys.modules["tensorflow"] = tf
    for name, path in (("deepgnn.tf", "deepgnn/tf"), ("deepgnn.tf.common", "deepgnn/tf/common")):
        if name not in sys.modules:
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(PYSRC, path)]
            sys.modules[name] = m
    import importlib
    return importlib.import_module("deepgnn.tf.common.dist_sync")


dist_sync = _load()


class C17(Check):
    property = "C17"
    rule = ("each run draws 1-6 tasks, a sequence of 1-5 sync points, delays before each, files left by earlier jobs and up to two successive jobs in "
            "one folder, and a schedule; non-trivial = at least two tasks; distinct by configuration digest and switch sequence")
    real = ["deepgnn.tf.common.dist_sync"]
    stubbed = ["tensorflow logging", "clocks and sleep (virtual time)", "multiprocessing (simulated processes)",
               "file system calls below the scratch folder (real files, simulated scheduling)"]
    assumptions = ["all tasks share one file system with atomic create and remove", "task 0 is created before the others"]

    def gen(self, rng, tier, index):
        n = rng.choice([1, 2, 2, 3, 4, 6, 11])
        names = ["train", "train.1", "eval", "1", "0", "a.b", "init", "train-2"]
        rounds = []
        for k in range(rng.choice([1, 1, 2])):
            m = n if rng.random() < 0.7 else rng.choice([1, 2, 3])
            tags = rng.sample(names, rng.choice([1, 2, 3, 5]))
            rounds.append({"n": m, "tags": tags, "delay": [[rng.choice([0, 0, 1, 20, 45, 200]) for _ in tags] for _ in range(m)],
                           "start": [rng.choice([0, 0, 0.5, 40]) for _ in range(m)]})
        stale = []
        if rng.random() < 0.6:
            stale = ["sync.%s.%d" % (rng.choice(names), rng.randrange(0, n + 1)) for _ in range(rng.choice([1, 4, 12]))]
        return {"rounds": rounds, "stale": stale, "sim": {"max_steps": 400000, "max_time": 1e6, "dirseed": rng.randrange(1 << 30)},
                "label": "%d tasks" % n}

    def run(self, sim, cfg):
        folder = os.path.join(sim.scratch, "sync")
        os.makedirs(folder)
        for f in cfg["stale"]:
            with open(os.path.join(folder, f), "w") as w:
                w.write("old")
        with open(os.path.join(folder, "model.ckpt"), "w") as w:
            w.write("keep")
        n = sim.info["n"] = {"syncs": 0, "tasks": 0}
        for r in cfg["rounds"]:
            self.job(sim, r, folder, n)
        expect(os.path.exists(os.path.join(folder, "model.ckpt")), "an unrelated file of the folder was removed", "unrelated file removed")
        sim.info["nontrivial"] = cfg["rounds"][0]["n"] >= 2

    def job(self, sim, r, folder, n):
        enter, leave, created, bad = {}, {}, [], []
        sim.info["phase"] = "barrier"

        def task(i, obj):
            if obj is None:
                if r["start"][i]:
                    time.sleep(r["start"][i])
                obj = dist_sync.DistributedSync(folder, i, r["n"])
            for k, tag in enumerate(r["tags"]):
                if r["delay"][i][k]:
                    time.sleep(r["delay"][i][k])
                enter.setdefault(tag, {})[i] = sim.now
                obj.sync(tag)
                missing = [j for j in range(r["n"]) if j not in enter.get(tag, {})]
                if missing:
                    bad.append("task %d left '%s' before tasks %s reached it" % (i, tag, missing))
                leave.setdefault(tag, {})[i] = sim.now

        first = dist_sync.DistributedSync(folder, 0, r["n"])
        procs = [spawn(task, i, (first if i == 0 else None,)) for i in range(r["n"])]
        for p in procs:
            p.join()
        expect(not bad, bad[0] if bad else "", "left early")
        for p in procs:
            expect(p.exitcode == 0, "a task failed: %s" % sim.thread_errors[-1:], "task failed")
        for tag in r["tags"]:
            last = max(enter[tag].values())
            for i, t in leave[tag].items():
                expect(t - last <= 300 + sim.stalled, "task %d left '%s' %.0f s after everybody had reached it" % (i, tag, t - last), "released late")
            n["syncs"] += r["n"]
        n["tasks"] += r["n"]

    def shrink(self, cfg):
        if len(cfg["rounds"]) > 1:
            for r in cfg["rounds"]:
                yield dict(cfg, rounds=[r])
        if cfg["stale"]:
            yield dict(cfg, stale=[])
        for k, r in enumerate(cfg["rounds"]):
            if len(r["tags"]) > 1:
                rs = list(cfg["rounds"])
                rs[k] = dict(r, tags=r["tags"][:1])
                yield dict(cfg, rounds=rs)


CHECK = C17()
