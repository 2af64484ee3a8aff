"""Shared pieces of the prefetch checks."""
import time

from vsim import core
from vsim.core import Violation
from deepgnn.graph_engine.prefetch import Generator
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset
from deepgnn.graph_engine.samplers import BaseSampler
from .reader_lib import expect, short

REAL = ["deepgnn.graph_engine.prefetch", "deepgnn.graph_engine.graph_dataset", "deepgnn.graph_engine.samplers.BaseSampler",
        "threading", "queue", "concurrent.futures.ThreadPoolExecutor"]
STUBBED = ["_thread locks and thread start (deterministic scheduler)", "clocks and sleep (virtual time)",
           "graph backend (opaque object)", "sampler and query function (harness-supplied, recording)"]
ASSUME = ["thread switches happen only at lines of the code under test and at lock, queue and clock operations"]


class Boom(Exception):
    pass


EXC = [Boom, ValueError, OSError, SystemExit, KeyboardInterrupt]


class World:
    """Observable events of one dataset: sampler steps, query starts and ends."""

    def __init__(self, sim, cfg):
        self.sim = sim
        self.cfg = cfg
        self.steps = 0
        self.started = []
        self.finished = []
        self.closed = False
        self.late = []
        self.nones = 0
        self.delays = cfg["delays"]

    def delay(self, i):
        d = self.delays[i % len(self.delays)] if self.delays else 0
        if d:
            time.sleep(d)

    def value(self, i):
        # values that look falsy or odd are legitimate query results too
        k = self.cfg.get("values", "tuple")
        if k == "tuple":
            return ("r", i)
        if k == "int":
            return i
        if k == "mixed":
            return ("r", i) if i % 2 else None
        return {"r": i}

    def query(self, graph, inputs):
        i = inputs[0]
        if self.closed:
            self.late.append(("query", i))
        self.started.append(i)
        self.sim.point("query")
        if self.cfg.get("qdelay"):
            self.delay(i)
        if i in (self.cfg.get("fail_query") or []):
            raise EXC[self.cfg.get("exc", 0)]("query failure #%d#" % i)
        expect(graph is self.graph, "the query got a different graph object", "wrong graph")
        self.finished.append(i)
        return self.value(i)


class ListSampler(BaseSampler):
    """Yields [0], [1], ... and records steps."""

    world = None

    def __init__(self, batch_size=1, epochs=1):
        super().__init__(batch_size, epochs=epochs, shuffle=False, sample_num=-1)
        self.w = ListSampler.world

    def __len__(self):
        return self.w.cfg["length"]

    def __iter__(self):
        w = self.w
        for i in range(w.cfg["length"]):
            if w.closed:
                w.late.append(("sample", i))
            w.steps += 1
            w.sim.point("sample")
            if w.cfg.get("sdelay"):
                w.delay(i + 3)
            if w.cfg.get("fail_sampler") == i:
                raise EXC[w.cfg.get("exc", 0)]("sampler failure #%d#" % i)
            yield [i]
        if w.cfg.get("fail_sampler") == w.cfg["length"]:
            raise Boom("sampler failure #%d#" % w.cfg["length"])


class StubBackend:
    def __init__(self, graph):
        self.graph = graph


def gen_base(rng):
    length = rng.choice([0, 1, 1, 2, 3, rng.randrange(0, 12), rng.randrange(0, 12), rng.randrange(15, 60)])
    return {"length": length, "prefetch": rng.choice([1, 1, 2, 3, 10, 30]), "parallel": rng.choice([1, 1, 2, 3, 5, 10]),
            "api": rng.choice(["generator", "dataset"]),
            "delays": [rng.choice([0, 0, 0.001, 0.5, 3.0, 20.0]) for _ in range(rng.randrange(1, 6))],
            "qdelay": rng.random() < 0.5, "sdelay": rng.random() < 0.4, "cdelay": rng.random() < 0.4,
            "values": rng.choice(["tuple", "tuple", "int", "dict"]),
            "sim": {"max_steps": 600000}}


def build(sim, cfg):
    w = World(sim, cfg)
    w.graph = object()
    ListSampler.world = w
    if cfg["api"] == "dataset":
        ds = DeepGNNDataset(sampler_class=ListSampler, query_fn=w.query, backend=StubBackend(w.graph), batch_size=1, epochs=1,
                            enable_prefetch=True, prefetch_queue_size=cfg["prefetch"], prefetch_worker_size=cfg["parallel"])
        return w, (lambda: iter(ds))
    return w, (lambda: Generator(graph=w.graph, sampler=ListSampler(), model_query_fn=w.query, prefetch_size=cfg["prefetch"],
                                 max_parallel=cfg["parallel"]))


def ident(w, r):
    """Index of the batch a result belongs to, or a violation."""
    k = w.cfg.get("values", "tuple")
    ok = {"tuple": lambda: isinstance(r, tuple) and len(r) == 2 and r[0] == "r", "int": lambda: isinstance(r, int),
          "dict": lambda: isinstance(r, dict) and "r" in r,
          "mixed": lambda: r is None or isinstance(r, tuple) and len(r) == 2 and r[0] == "r" and r[1] % 2}[k]()
    expect(ok, "the consumer got %s, which no query returned" % short(r), "foreign result")
    if r is None:  # the queries of even batches return nothing; these results are alike
        w.nones += 1
        return 2 * (w.nones - 1)
    return r if k == "int" else (r["r"] if k == "dict" else r[1])


def live_threads(sim):
    me = sim.cur
    return [t for t in sim.threads if t is not me and t.state in (core.READY, core.BLOCKED)]
