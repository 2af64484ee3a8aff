"""C28: interrupted training continues from its last checkpoint and loses or repeats nothing."""
import logging
import os
import time

import numpy as np

from vsim import mpsim, fsim, torchsim
from vsim.runner import Check
from vsim.core import Violation
from .reader_lib import expect, short
from .convert_lib import offline

torchsim.install()

import torch  # noqa: E402
from deepgnn import get_logger  # noqa: E402
from deepgnn.graph_engine import FileNodeSampler  # noqa: E402
from deepgnn.graph_engine.backends.common import GraphEngineBackend  # noqa: E402
from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset  # noqa: E402
from deepgnn.pytorch.modeling.base_model import BaseModel  # noqa: E402
from deepgnn.pytorch.training.factory import run_dist  # noqa: E402
import deepgnn.pytorch.training.trainer_ddp  # noqa: E402,F401
import deepgnn.pytorch.training.trainer_hvd  # noqa: E402,F401
from . import sync_lib as S  # noqa: E402

get_logger().setLevel(logging.CRITICAL)

FAULTS = ["write:eio", "write:enospc", "write:short", "write:torn_kill", "open:eio", "open:enospc", "open:emfile", "remove:eio", "rename:eio",
          "read:eio", "mkdir:enospc"]


class Metric:
    def name(self):
        return "sum"

    def compute(self, preds, labels):
        return torch.tensor(float(np.sum(preds.numpy())))


class Model(BaseModel):
    """Its parameters count how often every example contributed."""

    def __init__(self, n, record):
        super().__init__(np.float32, 0, 0, None)
        self.w = torch.nn.Parameter(np.zeros(n))
        self.metric = Metric()
        self.record = record

    def query(self, graph, inputs):
        return {"inputs": np.array(inputs)}

    def ids(self, context):
        return context["inputs"].squeeze(0).numpy().reshape(-1)

    def forward(self, context):
        ids = self.ids(context)
        self.record.forward(self, ids)
        loss = torch.tensor(float(len(ids)))
        real = ids[ids >= 0]

        def backward():
            g = np.zeros_like(self.w.a)
            np.add.at(g, real, 1.0)
            self.w.grad = g if self.w.grad is None else self.w.grad + g
        loss.backward_fns.append(backward)
        return loss, torch.tensor(ids.astype(np.float64)), torch.tensor(ids)

    def get_embedding(self, context):
        ids = self.ids(context)
        self.record.forward(self, ids)
        return torch.tensor(np.stack([ids * 10.0, self.w.a[ids]], axis=1))


class Count(torch.optim.Optimizer):
    def __init__(self, params, world):
        super().__init__(params, {"lr": 1.0})
        self.world = world

    def step(self, *a, **k):
        for p in self.params:
            if p.grad is not None:
                p.a += self.world * p.grad


class Backend(GraphEngineBackend):
    def __init__(self, options=None, is_leader=False):
        pass

    @property
    def graph(self):
        return None

    def close(self):
        pass


class Record:
    """What one attempt did."""

    def __init__(self):
        self.first = None       # parameters of the first training step of the leader
        self.saved = []         # parameters handed to the leader's saves
        self.completed = 0      # number of saves followed by more work
        self.states = []        # parameters and number of saves before each of the leader's training steps
        self.seen = {}          # rank -> examples of evaluation or inference steps
        self.steps = 0
        self.end = {}           # rank -> parameters when the job ended

    def forward(self, model, ids):
        rank = torchsim.my_rank()
        if not model.training:
            self.seen.setdefault(rank, []).extend(int(i) for i in ids if i >= 0)
            return
        self.steps += 1
        if rank == 0:
            self.completed = len(self.saved)
            if self.first is None:
                self.first = model.w.a.copy()
            self.states.append((model.w.a.copy(), len(self.saved)))


class C28(Check):
    property = "C28"
    rule = ("each run trains one model undisturbed to learn the length of the job, then trains another in 1-3 attempts that are killed at a drawn "
            "step (one worker or all) or hit disk errors, then lets a last attempt finish and computes embeddings; non-trivial = an attempt ended "
            "early after at least one training step; distinct by configuration digest, switch sequence and fired faults")
    real = ["deepgnn.pytorch.training.{trainer,trainer_fp16,trainer_ddp,trainer_hvd,factory,args}", "deepgnn.pytorch.common.{utils,dataset,args}",
            "deepgnn.pytorch.modeling.base_model", "deepgnn.graph_engine.{samplers,graph_dataset}"]
    stubbed = ["torch and horovod (tensors over numpy, checkpoint files with a digest, collective operations between simulated processes)",
               "graph backend (none is queried)", "processes and launcher (simulated; all workers are stopped when one fails)",
               "clocks and sleep (virtual time)", "file system calls below the scratch folder (real files, simulated scheduling and errors)"]
    assumptions = ["thread switches happen only at lines of the code under test and at lock, file, process and clock operations",
                   "data a process handed to the operating system survives the process, data in its buffers does not",
                   "workers read their examples in file order; without an early end for some of them (horovod) they have equally many batches"]

    def gen(self, rng, tier, index):
        kind = rng.choice(["base", "base", "ddp", "ddp", "hvd"])
        world = 1 if kind == "base" else rng.choice([1, 2, 2, 3])
        batch = rng.choice([1, 2, 2, 3, 5])
        steps = rng.choice([1, 2, 3, 4, 6])
        dp = rng.choice([0, 0, 1, 2])
        if dp == 2:
            steps += steps % 2
        uneven = kind == "hvd" and world > 1 and dp < 2 and rng.random() < 0.5
        files, per = [], rng.choice([1, 1, 2]) if steps * batch > 1 else 1
        nid = 0
        for r in range(world):
            # the last batch may be partly filled; several loaders split the examples evenly
            n = (rng.randint(1, steps) if uneven else steps) * batch - (rng.randrange(batch) if dp < 2 else 0)
            cut = sorted([0, n] + [rng.randint(1, n - 1) for _ in range(per - 1)]) if n > 1 else [0, n]
            while len(cut) < per + 1:
                cut.append(n)
            for j in range(per):
                files.append((j * world + r, list(range(nid + cut[j], nid + cut[j + 1]))))
            nid += n
        files = [f for _, f in sorted(files)]
        epochs = rng.choice([1, 1, 2, 3, 4])
        cfg = {"kind": kind, "world": world, "batch": batch, "files": files, "n": nid, "epochs": epochs, "dp": dp,
               "by_steps": rng.choice([0, 1, 1, 2, 3]), "by_epochs": rng.choice([1, 1, 1, 2]), "keep": rng.choice([0, 1, 1, 2, 3]),
               "max_samples": 0, "eval": rng.choice([0, 0, 0, 1, 2]), "per_step": rng.random() < 0.5, "log": rng.choice([1, 20]),
               "clip": rng.random() < 0.3, "then": rng.choice(["inference", "inference", "evaluate", None])}
        if uneven:
            cfg["eval"] = 0
        if rng.random() < 0.25:
            cfg["max_samples"] = world * batch * rng.randint(1, steps) + rng.randrange(world * batch)
        if rng.random() < 0.015:
            cfg.update(kind="base", world=1, files=[[0, 1]], n=2, batch=2, dp=0, epochs=rng.choice([1003, 1010]), by_steps=0, by_epochs=250,
                       max_samples=0, eval=0, log=5000)
        if rng.random() < 0.04:
            cfg["attempts"] = []
        else:
            cfg["attempts"] = [self.attempt_cfg(rng, world) for _ in range(rng.choice([1, 1, 2, 3]))]
        if cfg["then"] and rng.random() < 0.4:
            cfg["then_fault"] = self.attempt_cfg(rng, world)
        cfg["buf"] = rng.choice([16, 64, 1024, 8192])
        cfg["sim"] = {"max_steps": 6000000, "max_time": 1e9, "dirseed": rng.randrange(1 << 30), "stall_max": 1.0}
        cfg["label"] = kind + ("-long" if cfg["epochs"] > 100 else "")
        return cfg

    def attempt_cfg(self, rng, world):
        a = {"kind": rng.choice(["kill", "kill", "killone", "fault", "fault"]), "frac": rng.choice([rng.random(), rng.random(), 0.9 + 0.12 * rng.random()]),
             "victim": rng.randrange(world), "grace": rng.choice([0, 0, 0.5])}
        if a["kind"] == "fault":
            kinds = rng.sample(FAULTS, rng.choice([1, 1, 2, 4]))
            a["rates"] = {k: rng.choice([0.01, 0.05, 0.2, 0.6]) for k in kinds}
            a["budget"] = rng.choice([1, 1, 2, 4])
        return a

    # ------------------------------------------------------------------ the job
    def args(self, cfg, sim, mode, out):
        a = ["--trainer", cfg["kind"], "--mode", mode, "--num_epochs", cfg["epochs"], "--model_dir", self.folder, "--save_path",
             out or self.folder, "--metric_dir", os.path.join(sim.scratch, "metric"), "--save_ckpt_by_steps", cfg["by_steps"],
             "--save_ckpt_by_epochs", cfg["by_epochs"], "--log_by_steps", cfg["log"], "--max_saved_ckpts", cfg["keep"], "--batch_size", cfg["batch"],
             "--data_parallel_num", cfg["dp"], "--max_samples", cfg["max_samples"] if mode == "train" else 0,
             "--eval_during_train_by_steps", cfg["eval"], "--backend", "custom", "--sample_file", os.path.join(sim.scratch, "samples", "f*"),
             "--user_name", "u", "--job_id", "j"]
        if cfg["clip"]:
            a.append("--clip_grad")
        if cfg["per_step"]:
            a.append("--use_per_step_metrics")
        return [str(x) for x in a]

    def worker(self, rank, cfg, sim, mode, out, record):
        def dataset(args, model, rank, world_size, backend, **k):
            return TorchDeepGNNDataset(FileNodeSampler, model.query, backend=backend, num_workers=world_size, worker_index=rank,
                                       batch_size=args.batch_size, epochs=1, sample_files=args.sample_file)

        def extra(parser):
            parser.add_argument("--custom_backendclass", default=Backend)

        model = []

        def make(args):
            model.append(Model(cfg["n"], record))
            return model[0]
        run_dist(make, dataset, (lambda args, model, world_size: Count(model.parameters(), world_size)) if mode == "train" else None, extra,
                 self.args(cfg, sim, mode, out), dataset if mode == "train" and cfg["eval"] else None)
        record.end[rank] = model[0].w.a.copy()
        if rank == 0:
            record.completed = len(record.saved)

    def job(self, sim, cfg, mode, fault=None, length=None, out=None):
        """Runs the job once; returns whether every worker succeeded, and its record."""
        record = Record()
        sim.__dict__["torch_group"] = torchsim.Group(cfg["world"])
        sim.__dict__["on_save"] = lambda obj: record.saved.append(self.find(obj, cfg["n"]))
        state = {"done": False, "killed": False}
        procs = []

        def killall():
            state["killed"] = True
            ps = [p._sp for p in procs if p._sp.alive]
            for q in sorted(ps, key=lambda q: q is sim.cur.proc):
                mpsim.proc_killed(q, -9)

        def kill():
            if state["done"] or not procs:
                return
            if fault["kind"] == "kill":
                sim._count("kill:job")
                killall()
            else:
                v = procs[min(fault["victim"], len(procs) - 1)]._sp
                if v.alive:
                    sim._count("kill:worker")
                    mpsim.proc_killed(v, -9)

        if fault is not None:
            if fault["kind"] == "fault":
                sim.fault_rates, sim.fault_budget = fault["rates"], fault["budget"]
                sim.fault_filter = lambda op, p: p.startswith(self.folder) or (out is not None and p.startswith(out))
                sim.faults_on = True
            else:
                sim.at_step(sim.steps + 1 + int(fault["frac"] * length), kill)
        n = cfg["world"]
        for r in range(n):
            procs.append(S.spawn(self.worker, r, (cfg, sim, mode, out, record), environ={
                "RANK": str(r), "WORLD_SIZE": str(n), "MASTER_ADDR": "10.0.0.1", "MASTER_PORT": "29500", "LOCAL_RANK": str(r), "LOCAL_WORLD_SIZE": str(n)}))
        while any(p._sp.alive for p in procs):
            if any(not p._sp.alive and p.exitcode for p in procs):
                # the launcher stops the other workers when one fails
                if fault and fault["grace"]:
                    time.sleep(fault["grace"])
                killall()
                break
            live = [p for p in procs if p._sp.alive]
            live[0].join(timeout=1)
            if sim.now > self.deadline(sim):
                raise Violation("the %s job does not end: %s" % (mode, sim.blocked_report()), "job does not end")
        state["done"] = True
        sim.faults_on = False
        sim.__dict__["disk_full"] = False
        sim.__dict__["on_save"] = None
        if sim.__dict__.get("unsupported"):
            raise torchsim.Unsupported(sim.unsupported[0])
        return all(p.exitcode == 0 for p in procs), record

    def deadline(self, sim):
        return self.started + 1e7 + 10 * S.stall_slack(sim)

    def find(self, obj, n):
        """The parameters inside whatever was handed to a save."""
        if isinstance(obj, torchsim.Tensor) and obj.a.shape == (n,):
            return obj.a.copy()
        if isinstance(obj, dict):
            for v in obj.values():
                r = self.find(v, n)
                if r is not None:
                    return r
        return None

    def files(self):
        with offline():
            return sorted(os.listdir(self.folder)) if os.path.isdir(self.folder) else None

    def run(self, sim, cfg):
        info = sim.info
        n = info["n"] = {"steps": 0, "attempts": 0, "interrupted": 0, "resumed": 0, "saves": 0, "embeddings": 0}
        fsim.BUFSZ[0] = cfg["buf"]
        d = os.path.join(sim.scratch, "samples")
        os.makedirs(d)
        for i, f in enumerate(cfg["files"]):
            with fsim.REAL_OPEN(os.path.join(d, "f%02d" % i), "w") as o:
                o.write("".join("%d\n" % x for x in f))
        self.started = sim.now
        info["phase"] = "reference"
        self.folder = os.path.join(sim.scratch, "ref")
        s0 = sim.steps
        ok, ref = self.job(sim, cfg, "train")
        length = sim.steps - s0
        expect(ok, "undisturbed training failed: %s" % (sim.thread_errors[-1:],), "undisturbed training")
        final = self.final(cfg)
        self.check_end(cfg, ref, final, "undisturbed training")
        index = {tuple(w.tolist()): i for i, (w, _) in enumerate(ref.states)}
        index.setdefault(tuple(ref.end[0].tolist()), len(ref.states))
        self.check_saves(cfg, ref, index, "undisturbed training")
        self.folder = os.path.join(sim.scratch, "model")
        best = None     # newest checkpoint that is certainly complete
        allsaved = []
        for k, a in enumerate(cfg["attempts"] + [None]):
            info["phase"] = "attempt %d" % k if a else "last attempt"
            fired = dict(sim.fired)
            ok, rec = self.job(sim, cfg, "train", a, length)
            n["attempts"] += 1
            n["steps"] += rec.steps
            n["saves"] += len(rec.saved)
            n["interrupted"] += not ok
            info["nontrivial"] = info.get("nontrivial") or (not ok and rec.steps > 0)
            readerr = sim.fired.get("read:eio", 0) > fired.get("read:eio", 0) or sim.fired.get("open:eio", 0) > fired.get("open:eio", 0) \
                or sim.fired.get("open:emfile", 0) > fired.get("open:emfile", 0)
            expect(a or ok, "training does not continue after %d interrupted attempts: %s (folder %s)" % (
                k, sim.thread_errors[-1:], self.files()), "cannot continue")
            if rec.first is not None:
                if rec.first.any():
                    n["resumed"] += 1
                if best is not None and not readerr:
                    expect(rec.first.sum() >= best.sum(), "attempt %d starts at %s although a checkpoint with %s was completed" % (
                        k, short(rec.first.tolist()), short(best.tolist())), "starts before the last checkpoint")
            self.check_saves(cfg, rec, index, "attempt %d" % k)
            allsaved += [w for w in rec.saved if w is not None]
            for w in rec.saved[:rec.completed]:
                if w is not None and (best is None or w.sum() >= best.sum()):
                    best = w
            if ok:
                if rec.steps or not a:
                    self.check_end(cfg, rec, final, "attempt %d" % k, best)
        info["phase"] = cfg["then"] or "none"
        if cfg["keep"] and rec.saved and ok:
            with offline():
                got = [f for f in os.listdir(self.folder) if f.startswith("gnnmodel-")]
            expect(len(got) <= cfg["keep"], "%d checkpoints are kept, %d were asked for: %s" % (len(got), cfg["keep"], sorted(got)), "too many kept")
        if cfg["then"]:
            # a save that was interrupted right after its last write may have completed
            self.after(sim, cfg, [w for w in allsaved if best is None or w.sum() >= best.sum()] + ([np.zeros(cfg["n"])] if best is None else []),
                       length, n)

    def final(self, cfg):
        """Parameters after undisturbed training."""
        w = np.zeros(cfg["n"])
        world, b = cfg["world"], cfg["batch"]
        for r in range(world):
            ids = [i for f in cfg["files"][r::world] for i in f]
            w[ids] = cfg["epochs"]
        if cfg["max_samples"]:
            return None, cfg["max_samples"] // (world * b)
        return w, None

    def check_end(self, cfg, rec, final, what, best=None):
        w, limit = final
        ends = [rec.end[r] for r in sorted(rec.end)]
        for e in ends[1:]:
            expect(np.array_equal(ends[0], e), "%s: the models of two workers differ: %s and %s" % (what, short(ends[0].tolist()), short(e.tolist())),
                   "workers differ")
        e = ends[0]
        if limit is None:
            expect(np.array_equal(e, w), "%s: examples contributed %s times in %d epochs" % (what, short(e.tolist()), cfg["epochs"]),
                   "not every example once per epoch")
        else:
            # only the first batches of every worker, in every epoch
            expect(set(np.unique(e)) <= {0.0, float(cfg["epochs"])}, "%s: examples contributed %s times in %d epochs" % (
                what, short(e.tolist()), cfg["epochs"]), "not every example once per epoch")
            want = self.limited(cfg, limit)
            if want is not None:
                expect(np.array_equal(e, want * cfg["epochs"]), "%s: with %d steps per epoch examples contributed %s times" % (
                    what, limit, short(e.tolist())), "wrong examples")

    def check_saves(self, cfg, rec, index, what):
        """Every step starts from a state of undisturbed training, with no more than the asked for number of steps unsaved."""
        per = len(index) - 1
        per = per // cfg["epochs"]
        done = 0
        # the state an attempt starts from is in its checkpoint
        last = index.get(tuple(rec.first.tolist()), 0) if rec.first is not None else 0
        for w, saves in rec.states:
            i = index.get(tuple(w.tolist()))
            expect(i is not None, "%s: the parameters %s do not occur in undisturbed training" % (what, short(w.tolist())), "state never reached")
            for s in rec.saved[done:saves]:
                if s is not None:
                    last = index.get(tuple(s.tolist()), last)
            done = saves
            epoch, step = divmod(i, per)
            need = per * max(0, epoch - cfg["by_epochs"] + 1) if epoch >= cfg["by_epochs"] else 0
            if cfg["by_steps"]:
                need = max(need, epoch * per + step // cfg["by_steps"] * cfg["by_steps"] if step >= cfg["by_steps"] else 0)
            expect(last >= need, "%s: step %d of epoch %d begins although only %d of %d steps per epoch were saved (asked for every %d steps, %d epochs)"
                   % (what, step, epoch, last, per, cfg["by_steps"], cfg["by_epochs"]), "checkpoint not saved")

    def limited(self, cfg, limit):
        if cfg["dp"] > 1:
            return None
        w = np.zeros(cfg["n"])
        for r in range(cfg["world"]):
            ids = [i for f in cfg["files"][r::cfg["world"]] for i in f]
            w[ids[:limit * cfg["batch"]]] = 1
        return w

    def after(self, sim, cfg, allowed, length, n):
        mode = cfg["then"]
        out = os.path.join(sim.scratch, "out")
        a = cfg.get("then_fault")
        if a:
            self.job(sim, cfg, mode, a, max(50, length // (2 * cfg["epochs"])), out)
        ok, rec = self.job(sim, cfg, mode, None, None, out)
        expect(ok, "%s after training failed: %s" % (mode, sim.thread_errors[-1:]), "job after training failed")
        want = rec.end[0]
        for r in rec.end:
            expect(np.array_equal(rec.end[r], want), "workers use different models in %s" % mode, "not the trained model")
        expect(any(np.array_equal(want, w) for w in allowed), "%s uses the parameters %s, the last checkpoint has %s" % (
            mode, short(want.tolist()), short(allowed[0].tolist())), "not the trained model")
        for r in range(cfg["world"]):
            ids = [i for f in cfg["files"][r::cfg["world"]] for i in f]
            expect(sorted(rec.seen.get(r, [])) == sorted(ids), "%s on worker %d covers the examples %s instead of %s" % (
                mode, r, short(sorted(rec.seen.get(r, []))), short(ids)), "not every example once")
        if mode == "evaluate":
            return
        got = {}
        with offline():
            for f in sorted(os.listdir(out)):
                with open(os.path.join(out, f)) as h:
                    for line in h.read().splitlines():
                        k, v = line.split(" ", 1)
                        if int(k) >= 0:
                            got.setdefault(int(k), []).append(v)
        n["embeddings"] += len(got)
        exp = {i: ["%s %s" % (i * 10.0, want[i])] for i in range(cfg["n"])}
        expect(got == exp, "embeddings of examples %s are wrong: %s" % (
            short(sorted(i for i in set(got) | set(exp) if got.get(i) != exp.get(i))), short([got.get(i) for i in sorted(exp) if got.get(i) != exp[i]])),
            "wrong embeddings")


CHECK = C28()
