"""C09: metadata and sampling tables agree with the data."""
from vsim.runner import Check
from vsim.core import Violation
from . import convert_lib as V


class C09(Check):
    property = "C09"
    rule = ("each run draws a graph whose types are unevenly spread, decoder, dispatcher, partition count and rule, sampler flags and a "
            "schedule, converts it and compares metadata and alias tables with the input; non-trivial = at least 2 element types or 2 "
            "partitions, 3 input lines and one preemption; distinct by configuration digest and switch sequence")
    real, stubbed, assumptions = V.REAL, V.STUBBED, V.ASSUME

    def gen(self, rng, tier, index):
        cfg = V.gen_cfg(rng, maxn=10)
        if rng.random() < 0.7:
            for nd in cfg["nodes"]:
                nd["f"] = []
                for e in nd["e"]:
                    e["f"] = []
        return cfg

    def run(self, sim, cfg):
        info = sim.info
        info["phase"] = "convert"
        path, out, order = V.prepare(sim, cfg)
        V.convert(cfg, path, out)
        info["phase"] = "compare"
        want = V.assign(cfg, order)
        with V.offline():
            try:
                meta = V.parse_meta(out)
            except V.Bad as e:
                raise Violation("conversion reported success but %s" % e, "metadata unreadable")
            nt, et = V.check_meta(cfg, out, want, meta)
            rows = V.check_alias(cfg, out, want, nt, et)
        info["n"] = {"lines": len(order), "alias_rows": rows, "types": nt + et, "partitions": len(want)}
        info["nontrivial"] = len(order) >= 3 and (nt + et > 2 or len(want) > 1) and sim.preempts > 0


CHECK = C09()
