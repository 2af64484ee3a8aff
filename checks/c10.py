"""C10: conversion output does not depend on scheduling."""
import hashlib
import json
import os
import sys

from vsim import runner
from vsim.runner import Check
from vsim.core import Violation
from . import convert_lib as V


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def again(job):
    """Convert the graph of a job in this interpreter, for elsewhere()."""
    with open(job) as f:
        cfg = json.load(f)
    res = runner.execute(CHECK, cfg, cfg["digests"], None, job + "-scratch")
    with open(job + ".out", "w") as f:
        json.dump([res["outcome"], res["info"].get("files")], f)


def elsewhere(sim, cfg):
    """Digests of the files written by a conversion in an interpreter with other string hashes."""
    job = os.path.join(sim.scratch, "job")
    with open(job, "w") as f:
        json.dump(dict(cfg, folders=[0], other=0, digests=cfg["other"]), f)
    env = dict(os.environ, PYTHONHASHSEED=str(cfg["other"]), PYTHONDONTWRITEBYTECODE="1")
    pid = os.posix_spawn(sys.executable, [sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vsim import runner; runner.load('C10'); "
                                          "from checks.c10 import again; again(%r)" % (HERE, job)], env)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if status:
        raise RuntimeError("the other interpreter ended with %d" % status)
    with open(job + ".out") as f:
        return json.load(f)


class C10(Check):
    property = "C10"
    rule = ("each run draws a graph and settings and converts it two to four times under different schedules, partly into the same folder, "
            "one graph in fifty also in another interpreter with other string hashes, then compares all bytes; non-trivial = at least 3 input lines, 2 partitions and preemptions in every conversion; distinct by "
            "configuration digest and switch sequence")
    real, stubbed, assumptions = V.REAL, V.STUBBED, V.ASSUME

    def gen(self, rng, tier, index):
        cfg = V.gen_cfg(rng, maxn=9)
        cfg["folders"] = rng.choice([[0, 1], [0, 1], [0, 1, 2], [0, 0], [0, 1, 0]])
        cfg["kinds"] = [rng.choice(["rw", "rw", "pct", "rr", "starve"]) for _ in range(4)]
        cfg["sim"]["max_steps"] = 4000000
        cfg["other"] = rng.randrange(1, 1 << 30) if rng.random() < 0.02 else 0
        return cfg

    def shrink(self, cfg):
        return V.shrink(cfg)

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "convert"
        path, out, order = V.prepare(sim, cfg)
        first, busy = None, True
        parts = set(V.assign(cfg, order))
        for j, k in enumerate(cfg["folders"]):
            o = out + str(k)
            with V.offline():
                os.makedirs(o, exist_ok=True)
            if sim.replay is None:
                sim.kind = cfg["kinds"][j]
            before = sim.preempts
            V.convert(cfg, path, o)
            busy = busy and sim.preempts > before
            with V.offline():
                t = V.tree(o, parts)
            if first is None:
                first = t
                continue
            if sorted(t) != sorted(first):
                raise Violation("conversion %d wrote other files: only once %s" % (j, sorted(set(t) ^ set(first))), "file set differs")
            for n in t:
                if t[n] != first[n]:
                    raise Violation("conversion %d wrote other bytes to %s: %r instead of %r" % (j, n, t[n][:300], first[n][:300]), "bytes differ")
        files = {n: hashlib.sha256(t).hexdigest() for n, t in first.items()}
        if "digests" in cfg:
            info["files"] = files
        if cfg["other"]:
            with V.offline():
                outcome, there = elsewhere(sim, cfg)
            if outcome in ("wall", "error", "crash"):
                raise RuntimeError("the other interpreter gave no answer: " + outcome)
            if outcome != "ok":
                raise Violation("the conversion ends with %s in an interpreter with other string hashes" % outcome, "fails in another interpreter")
            if there != files:
                raise Violation("a conversion in an interpreter with other string hashes wrote other data to %s" %
                                sorted(n for n in set(files) | set(there) if files.get(n) != there.get(n)), "bytes differ between interpreters")
        info["n"] = {"interpreters": 1 + bool(cfg["other"]), "lines": len(order), "conversions": len(cfg["folders"]), "files_compared": len(first) * (len(cfg["folders"]) - 1),
                     "bytes": sum(map(len, first.values()))}
        info["nontrivial"] = len(order) >= 3 and len(parts) >= 2 and busy


CHECK = C10()
