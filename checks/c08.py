"""C08: conversion conserves nodes, edges, features and timestamps."""
import os

from vsim.runner import Check
from vsim.core import Violation
from . import convert_lib as V
from .reader_lib import expect


class C08(Check):
    property = "C08"
    rule = ("each run draws a graph, decoder, dispatcher (default, pipes or queues, threads or processes, debug), partition count and rule, "
            "reader settings and a schedule, converts it and reads the binary files back with an independent parser; non-trivial = at least 3 "
            "input lines, 2 partitions and one preemption; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = V.REAL, V.STUBBED, V.ASSUME

    def gen(self, rng, tier, index):
        cfg = V.gen_cfg(rng)
        if cfg["temporal"] and rng.random() < 0.3:
            for nd in cfg["nodes"]:
                for e in nd["e"]:
                    if "c" in e and nd["r"] != -1 and rng.random() < 0.3:
                        e["r"], e["explicit"][1] = -1, True
        return cfg

    def shrink(self, cfg):
        return V.shrink(cfg)

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "convert"
        path, out, order = V.prepare(sim, cfg)
        V.convert(cfg, path, out)
        info["phase"] = "compare"
        want = V.assign(cfg, order)
        with V.offline():
            try:
                meta = V.parse_meta(out)
            except V.Bad as e:
                raise Violation("conversion reported success but %s" % e, "metadata unreadable")
            for p in meta["partitions"]:
                want.setdefault(int(p), [])
            n = info["n"] = V.check_content(cfg, out, want)
            seen = set()
            for f in os.listdir(out):
                if f.startswith("node_") and f.endswith(".map"):
                    seen.add((int(f.split("_")[1]), f))
            for p, f in seen:
                if p not in want or not f.endswith("_0.map"):
                    expect(os.path.getsize(os.path.join(out, f)) == 0, "unexpected data file %s" % f, "extra partition data")
        n["lines"] = len(order)
        n["partitions"] = len(want)
        info["nontrivial"] = len(order) >= 3 and len(want) >= 2 and sim.preempts > 0


CHECK = C08()
