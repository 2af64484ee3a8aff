"""Shared pieces of the job start-up and shutdown checks (C13, C14, C15, C26)."""
import argparse
import json
import multiprocessing
import os
import threading
import time

import numpy as np

from vsim import core, mpsim, stubs
from vsim.core import Violation
from deepgnn.graph_engine.backends.snark import synchronized
from deepgnn.graph_engine.backends.snark.client import SnarkDistributedBackend
from deepgnn.graph_engine.backends.options import BackendOptions
from .reader_lib import expect, short

stubs.stub_sockets()

REAL = ["deepgnn.graph_engine.backends.snark.synchronized", "deepgnn.graph_engine.backends.snark.client",
        "deepgnn.graph_engine.backends.options", "deepgnn.graph_engine.snark.distributed", "deepgnn.graph_engine.snark.server",
        "deepgnn.graph_engine.snark.client (construction, reset, node types)", "deepgnn.graph_engine.snark.meta", "concurrent.futures", "threading"]
STUBBED = ["native graph library (recording stand-in: start and stop of servers, connection of clients)",
           "multiprocessing (simulated processes with fork semantics)", "sockets (address lookup and port reservation)",
           "clocks and sleep (virtual time)", "file system calls below the scratch folder (real files, simulated scheduling)",
           "environment variables (per simulated process)"]
ASSUME = ["thread switches happen only at lines of the code under test and at lock, file, process and clock operations",
          "all workers share one file system with atomic create and remove"]


def stall_slack(sim):
    """Upper bound of the virtual time that injected stalls can have added so far."""
    return sim.stalled


class World:
    """Recorded history of one job."""

    def __init__(self, sim, timeout):
        self.sim = sim
        self.timeout = timeout
        self.bad = []
        self.unregistered = set()
        self.up = {}         # server key -> time its start finished
        self.down = {}       # server key -> time it was reset inside its process
        self.proc = {}       # server key -> process
        self.stop_called = {}
        self.active = {}     # client key -> number of created and not closed
        self.uses = 0
        self.clients = 0
        self.live = {}       # process -> (rank, server keys) of its connected client

    def note(self, what, sig):
        self.bad.append((what, sig))

    def check(self):
        if self.bad:
            raise Violation(self.bad[0][0], self.bad[0][1])

    def serving(self, k):
        p = self.proc.get(k)
        return p is not None and p.alive and not p.env.get("py_exit") and k in self.up and k not in self.down

    def server_down(self, k):
        self.down[k] = self.sim.now
        for p, (who, servers) in self.live.items():
            t = self.stop_called.get(k)
            if k not in servers or not p.alive or who in self.unregistered:
                continue
            if self.timeout is not None and t is not None and self.sim.now - t >= self.timeout - 0.001:
                continue
            self.note("server %s shut down although client %s is connected (asked to stop %s)" % (
                k, who, "never" if t is None else "%.1f s ago" % (self.sim.now - t)), "server gone before its clients")

    def client_closed(self):
        self.live.pop(self.sim.cur.proc, None)

    def client_created(self, servers, who):
        self.clients += 1
        self.live[self.sim.cur.proc] = (who, list(servers))
        miss = [s for s in servers if s not in self.up]
        if miss:
            self.note("client of %s is constructed while servers %s have not finished starting" % (who, miss), "client before servers")

    def client_used(self, servers, who):
        self.uses += 1
        if who in self.unregistered:
            return
        for s in servers:
            if self.serving(s):
                continue
            t = self.stop_called.get(s)
            if self.timeout is not None and t is not None and self.sim.now - t >= self.timeout - 0.001:
                continue
            self.note("server %s does not serve although client %s is active (asked to stop %s)" % (
                s, who, "never" if t is None else "%.1f s ago" % (self.sim.now - t)), "server gone before its clients")


class Engine:
    """Stand-in for the native library: servers and clients as records."""

    def __init__(self, world, cfg, data_dir):
        self.w = world
        self.cfg = cfg
        self.data_dir = data_dir
        self.partitions = {}     # address -> partitions loaded
        self.order = []          # (address, process)
        self.connected = []      # (rank, [addresses])
        self.fail = set(cfg.get("fail_start") or [])
        self.handles = {}

    def _who(self):
        return core.SIM.cur.proc.env.get("rank")

    def StartServer(self, s, meta, n, parts, locs, host, *rest):
        sim = core.SIM
        addr = host.value.decode()
        who = self._who()
        d = (self.cfg.get("start_delay") or {}).get(str(who), 0)
        if d:
            time.sleep(d)
        if who in self.fail:
            sim._count("server-start-failure")
            return 1
        if addr in self.partitions and self.w.serving(addr):
            self.w.note("two servers of the job serve on the address %s" % addr, "address used twice")
        self.partitions[addr] = [int(p) for p in parts]
        self.order.append((addr, who))
        self.w.proc[addr] = sim.cur.proc
        self.w.down.pop(addr, None)
        self.w.up[addr] = sim.now
        sim.cur.proc.env["serves"] = addr
        return 0

    def ResetServer(self, s):
        addr = core.SIM.cur.proc.env.get("serves")
        if addr is not None:
            self.w.server_down(addr)
        return 0

    def ResetGraph(self, g):
        d = self.cfg.get("connect_delay")
        if d:
            time.sleep(d)
        self.w.client_closed()
        return 0

    def CreateRemoteClient(self, g, meta_dir, servers, n, *rest):
        addrs = [servers[i].decode() for i in range(n.value)]
        self.connected.append((self._who(), addrs))
        self.w.client_created(addrs, self._who())
        d = self.cfg.get("connect_delay")
        if d:
            time.sleep(d)
        with open(os.path.join(self.data_dir, "meta.json")) as f:
            m = f.read()
        with open(os.path.join(meta_dir.value.decode(), "meta.json"), "w") as f:
            f.write(m)
        core.SIM.cur.proc.env["connected"] = addrs
        return 0

    def GetNodeType(self, *a):
        self.w.client_used(core.SIM.cur.proc.env["connected"], self._who())
        return 0


def graph_folder(sim, parts, name="graph"):
    d = os.path.join(sim.scratch, name)
    os.makedirs(d, exist_ok=True)
    m = {"binary_data_version": "v2", "node_count": 3, "edge_count": 0, "node_type_count": 1, "edge_type_count": 0,
         "node_feature_count": 0, "edge_feature_count": 0,
         "partitions": {str(i): {"node_weight": [1.0], "edge_weight": []} for i in range(parts)},
         "node_count_per_type": [3], "edge_count_per_type": [], "watermark": -1}
    with open(os.path.join(d, "meta.json"), "w") as f:
        f.write(json.dumps(m))
    return d


def worker(fn, rank, host, environ, args):
    """Entry point of every simulated worker process."""
    env = core.SIM.cur.proc.env
    env["rank"] = rank
    if host:
        env["host"] = host
    for k, v in (environ or {}).items():
        os.environ[k] = v
    fn(rank, *args)


def spawn(fn, rank, args, host=None, environ=None):
    p = multiprocessing.Process(target=worker, args=(fn, rank, host, environ, args))
    p.start()
    return p


def options(data_dir, model_dir, job, rank, timeout, extra=None):
    """Command line options of one worker for a launcher kind."""
    ns = argparse.Namespace(data_dir=data_dir, model_dir=model_dir, ge_start_timeout=timeout, num_ge=job.get("num_ge", 0),
                            servers=list(job["servers"]) if job.get("servers") else job.get("noservers", []),
                            server_idx=None, client_rank=None, **(extra or {}))
    w = job["workers"][rank]
    if job["launcher"] == "cli":
        ns.server_idx, ns.client_rank = w["server"], rank
    if job["launcher"] == "tfargs":
        ns.task_index, ns.worker_hosts = rank, list(job["hosts"])
    return BackendOptions(ns)


def environ_of(job, rank):
    w = job["workers"][rank]
    kind = job["launcher"]
    n = len(job["workers"])
    if kind == "ddp":
        return {"LOCAL_RANK": str(w["local"]), "LOCAL_WORLD_SIZE": str(w["per"]), "WORLD_SIZE": str(n), "RANK": str(rank)}
    if kind in ("mpi", "horovod"):
        if kind == "mpi":
            k = ["OMPI_COMM_WORLD_LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_SIZE", "OMPI_COMM_WORLD_RANK", "OMPI_COMM_WORLD_SIZE"]
        else:
            k = ["HOROVOD_LOCAL_RANK", "HOROVOD_LOCAL_SIZE", "HOROVOD_RANK", "HOROVOD_SIZE"]
        return dict(zip(k, [str(w["local"]), str(w["per"]), str(rank), str(n)]))
    if kind == "tfconfig":
        return {"TF_CONFIG": json.dumps({"cluster": {"worker": job["hosts"]}, "task": {"type": "worker", "index": rank}})}
    return {}


def gen_job(rng, maxworkers=4, discover=None, launchers=None):
    """A job: launcher kind, workers with host, local rank and the server each must start (-1: none)."""
    kind = rng.choice(launchers or ["cli", "cli", "ddp", "mpi", "horovod", "tfconfig", "tfargs"])
    workers, hosts = [], []
    if kind == "cli":
        n = rng.randint(1, maxworkers)
        idx = list(range(n))
        if rng.random() < 0.6:
            rng.shuffle(idx)
        for r in range(n):
            # some workers only run a client
            if n > 1 and idx[r] == max(idx) and max(idx) > 0 and rng.random() < 0.3:
                idx[r] = -1
        for r in range(n):
            workers.append({"server": idx[r], "host": "10.0.0.%d" % (r + 1), "local": 0, "per": 1})
    elif kind in ("ddp", "mpi", "horovod"):
        per = rng.choice([1, 1, 2, 3])
        h = rng.randint(1, max(1, maxworkers // per))
        for i in range(h):
            for l in range(per):
                workers.append({"server": i if l == 0 else -1, "host": "10.0.0.%d" % (i + 1), "local": l, "per": per})
    else:
        names = rng.sample(rng.choice([["alpha", "alpha-2", "beta", "host1", "host10", "host2"], ["10.0.0.1", "10.0.0.2", "10.0.0.11", "10.1.0.1"],
                                       ["node.a", "node.b", "node", "node.a.b"]]), rng.randint(1, 3))
        for nm in names:
            for l in range(rng.choice([1, 1, 2])):
                hosts.append("%s:%d" % (nm, rng.choice([2000, 2001, 15, 30000]) + 7 * l))
        rng.shuffle(hosts)
        hosts = hosts[:maxworkers]
        first = {}
        for a in sorted(hosts):
            first.setdefault(a.rsplit(":", 1)[0], a)
        order = sorted(first.values())
        for r, a in enumerate(hosts):
            h = a.rsplit(":", 1)[0]
            workers.append({"server": order.index(a) if first[h] == a else -1, "host": h, "local": 0, "per": 1})
    if rng.random() < 0.1 and len(workers) > 0:
        for w in workers:
            w["host"] = "localhost"
    ns = sum(1 for w in workers if w["server"] >= 0)
    disc = rng.random() < 0.5 if discover is None else discover
    job = {"launcher": kind, "workers": workers, "hosts": hosts, "servers": None, "noservers": rng.choice([[], None]) if disc else []}
    if not disc:
        job["servers"] = ["%s:%d" % (next(w["host"] for w in workers if w["server"] == i), 5000 + i) for i in range(ns)]
        job["num_ge"] = 0
    else:
        # without explicit ranks the number of servers may also come from the graph metadata
        job["num_ge"] = len(workers) if kind == "cli" else rng.choice([0, len(workers)])
    return job


def nservers(job):
    return sum(1 for w in job["workers"] if w["server"] >= 0)


def locks(folder):
    """Sync files left anywhere below the folder."""
    out = []
    for d, _, fs in os.walk(folder):
        out += [os.path.relpath(os.path.join(d, f), folder) for f in fs if f.endswith((".client", ".server"))]
    return sorted(out)


def use(backend, times, pause):
    for _ in range(times):
        backend.graph.node_types(np.array([1], dtype=np.int64))
        if pause:
            time.sleep(pause)


def barrier(world, name, n):
    """Application-level barrier between simulated workers (stands for the training framework's own)."""
    b = world.__dict__.setdefault("barriers", {})
    if world.__dict__.get("aborted"):
        raise threading.BrokenBarrierError
    if name not in b:
        b[name] = threading.Barrier(n)
    b[name].wait()


def abort(world):
    """A worker failed: the framework's barriers break for everybody."""
    world.__dict__["aborted"] = True
    for b in list(world.__dict__.setdefault("barriers", {}).values()):
        b.abort()


def alone(job):
    return any(w["server"] < 0 for w in job["workers"])


def start_workers(job, work):
    return [spawn(lambda r: work(r), i, (), host=job["workers"][i]["host"], environ=environ_of(job, i)) for i in range(len(job["workers"]))]


def check_lists(sim, job, engine, got):
    """Every worker ended with the same address list, entry i being where server i runs."""
    ns = nservers(job)
    lists = sorted(set(tuple(v) for v in got.values()))
    expect(len(lists) == 1, "workers of a %s job ended with different server lists: %s" % (job["launcher"], short(got)), "workers disagree on addresses")
    servers = list(lists[0])
    expect(len(servers) == ns and len(set(servers)) == ns, "%d servers of a %s job have the address list %s" % (ns, job["launcher"], servers),
           "wrong number of addresses")
    started = {}
    for addr, who in engine.order:
        started.setdefault(job["workers"][who]["server"], []).append((addr, who))
    for i in range(ns):
        at = started.get(i, [])
        expect(len(at) == 1, "server %d of the job was started %d times (%s)" % (i, len(at), at), "server not started exactly once")
        expect(at[0][0] == servers[i], "server %d of a %s job runs on %s but entry %d of the list is %s" % (i, job["launcher"], at[0][0], i, servers[i]),
               "entry is not the address of its server")
        host = job["workers"][at[0][1]]["host"]
        expect(servers[i].rsplit(":", 1)[0] == host, "entry %d is %s but server %d is started by the worker on %s" % (i, servers[i], i, host),
               "address published by another worker")
    for who, addrs in engine.connected:
        expect(addrs == servers, "client of worker %d connected to %s instead of %s" % (who, addrs, servers), "client connected elsewhere")
    return servers
