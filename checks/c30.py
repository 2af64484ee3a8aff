"""C30: fetched files are complete or absent, whenever a job stops."""
import email.message
import io
import os
import pathlib
import sys
import time
import types
import urllib.error
import urllib.request

import requests
import requests.adapters

from vsim import core, fsim, mpsim, torchsim
from vsim.core import Violation
from vsim.runner import Check
from .convert_lib import offline
from .reader_lib import expect


class ClientError(Exception):
    def __init__(self, response, operation=""):
        super().__init__("%s: %s" % (operation, response))
        self.response = response


def _host():
    return core.SIM.__dict__["web"]


def _fault(sim, kinds, what):
    """A fault of the network, which may fail the worker that meets it and no other."""
    d = sim.fault(kinds, what)
    if d:
        _host().hit.add(sim.cur.proc)
    return d


def _delay(what):
    sim = core.SIM
    sim.point("net " + what)
    d = sim.fault(("net:delay",), what)
    if d:
        time.sleep(0.1 + 30 * d[1])
    return sim


class Body(io.RawIOBase):
    """The body of an answer, in small pieces."""

    def __init__(self, url, data, error):
        self.url, self.data, self.pos, self.error = url, data, 0, error

    def readable(self):
        return True

    def read(self, n=-1, *a, **k):
        sim = _delay("read")
        d = _fault(sim, ("net:reset",), "body of " + self.url)
        if d:
            raise self.error("connection lost")
        d = _fault(sim, ("net:short",), "body of " + self.url) if self.error is ConnectionResetError else None
        if d:
            self.pos = len(self.data)       # urllib reports a body shorter than announced by itself
        n = 1024 if n is None or n < 0 or n > 1024 else n
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def readinto(self, b):
        x = self.read(len(b))
        b[:len(x)] = x
        return len(x)

    def info(self):
        m = email.message.Message()
        m["Content-Length"] = str(len(self.data))
        return m

    headers = property(info)
    status = code = 200

    def getcode(self):
        return 200

    def geturl(self):
        return self.url


def urlopen(url, *a, **k):
    url = url if isinstance(url, str) else url.full_url
    sim = _delay("open")
    if _fault(sim, ("net:refused",), url):
        raise urllib.error.URLError("connection refused")
    if _fault(sim, ("net:status",), url):
        raise urllib.error.HTTPError(url, 503, "service unavailable", email.message.Message(), io.BytesIO(b"busy"))
    f = _host().get(url)
    if f is None:
        raise urllib.error.HTTPError(url, 404, "not found", email.message.Message(), io.BytesIO(b"nothing here"))
    _host().sent(url)
    return Body(url, f["data"], ConnectionResetError)


def adapter_send(self, request, stream=False, **k):
    """Stands in for the connection below the real requests module."""
    sim = _delay(request.method.lower())
    if _fault(sim, ("net:refused",), request.url):
        raise requests.exceptions.ConnectionError("connection refused")
    r = requests.Response()
    r.request, r.url, r.connection = request, request.url, self
    f = _host().get(request.url)
    if f is None:
        r.status_code, data = 404, b"nothing here"
    elif f.get("moved"):
        r.status_code, data = 302, b"<html>moved</html>"
        r.headers["Location"] = f["moved"]
    elif _fault(sim, ("net:status",), request.method + " " + request.url):
        r.status_code, data = 503, b"<html>busy</html>"
    else:
        r.status_code, data = 200, f["data"]
        if f["etag"]:
            r.headers["ETag"] = f["etag"]
        if request.method == "GET":
            _host().sent(request.url)
    r.reason = {200: "OK", 302: "Found", 404: "Not Found", 503: "Service Unavailable"}[r.status_code]
    r.headers["Content-Length"] = str(len(data))
    r.raw = Body(request.url, b"" if request.method == "HEAD" else data, requests.exceptions.ConnectionError)
    if not stream:
        r.content
    return r


class Resource:
    """Stand-in for an object store client."""

    class _Object:
        def __init__(self, url):
            self.url = url

        @property
        def e_tag(self):
            return _s3("head", self.url)["etag"]

    def Object(self, bucket, key):
        return self._Object("s3://%s/%s" % (bucket, key))

    class _Bucket:
        def __init__(self, name):
            self.name = name

        def download_fileobj(self, key, out, *a, **k):
            url = "s3://%s/%s" % (self.name, key)
            f = _s3("get", url)
            _host().sent(url)
            b = Body(url, f["data"], lambda t: ClientError({"Error": {"Code": "500"}}, t))
            while True:
                x = b.read()
                if not x:
                    return
                out.write(x)

    def Bucket(self, name):
        return self._Bucket(name)


def _s3(what, url):
    sim = _delay("s3 " + what)
    if _fault(sim, ("net:refused", "net:status"), url):
        raise ClientError({"Error": {"Code": "503"}}, what)
    f = _host().get(url)
    if f is None:
        raise ClientError({"Error": {"Code": "404"}}, what)
    return f


class Progress:
    def __init__(self, *a, **k):
        pass

    def update(self, n=1):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


urllib.request.urlopen = urlopen
requests.adapters.HTTPAdapter.send = adapter_send
requests.Session.trust_env = False
_init = requests.Session.__init__


def _session(self):
    _init(self)
    self.trust_env = False


requests.Session.__init__ = _session
for _name, _attrs in (("boto3", {"resource": lambda *a, **k: Resource()}), ("botocore", {}), ("botocore.exceptions", {"ClientError": ClientError}),
                      ("tqdm", {"tqdm": Progress})):
    _m = types.ModuleType(_name)
    _m.__dict__.update(_attrs)
    sys.modules[_name] = _m
sys.modules["botocore"].exceptions = sys.modules["botocore.exceptions"]
torchsim.install()

from deepgnn.graph_engine.data.data_util import download_file  # noqa: E402
from deepgnn.pytorch.encoding.twinbert.deepspeed.file_utils import cached_path, filename_to_url  # noqa: E402
from . import sync_lib as S  # noqa: E402

NET = ["net:refused", "net:status", "net:reset", "net:short"]
DISK = ["write:eio", "write:enospc", "write:short", "write:torn_kill", "open:eio", "open:enospc", "rename:eio", "mkdir:enospc", "read:eio"]


class Host:
    """The remote side."""

    def __init__(self, files):
        self.files, self.requests, self.hit = files, [], set()

    def get(self, url):
        return self.files.get(url)

    def sent(self, url):
        self.requests.append(url)


class C30(Check):
    property = "C30"
    rule = ("each run lets 1-3 workers fetch files from web servers and an object store into shared folders, in 1-3 attempts that are killed at a drawn "
            "step (one worker or all) or hit network or disk errors, with remote files replaced in between, then in an undisturbed attempt; non-trivial = "
            "an attempt was disturbed or two workers fetched the same file; distinct by configuration digest, switch sequence and fired faults")
    real = ["deepgnn.graph_engine.data.data_util (download)", "deepgnn.pytorch.encoding.twinbert.deepspeed.file_utils", "urllib (retrieval)", "requests (above the connection)"]
    stubbed = ["web connections (below requests and urllib)", "boto3, botocore, tqdm, torch (imports)", "processes (simulated)", "clocks and sleep (virtual time)",
               "file system calls below the scratch folder (real files, simulated scheduling and errors)"]
    assumptions = ["thread switches happen only at lines of the code under test and at file, network, process and clock operations",
                   "data a process handed to the operating system survives the process, data in its buffers does not",
                   "remote files are replaced only while no worker runs; the HTTP library reports connections closed early"]

    def gen(self, rng, tier, index):
        files = []
        for i in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["http", "http", "s3", "data", "data"])
            files.append({"kind": kind, "size": rng.choice([0, 1, 700, 3000, 3000, 20000]) if kind != "data" else rng.choice([1, 700, 3000, 20000]),
                          "etag": kind == "s3" or (kind == "http" and rng.random() < 0.7), "moved": kind == "http" and rng.random() < 0.3,
                          "form": rng.choice([0, 0, 1, 2])})
        workers = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            workers.append([rng.randrange(len(files)) for _ in range(rng.choice([1, 1, 2, 3]))])
        cfg = {"files": files, "workers": workers, "folder": rng.random() < 0.5, "buf": rng.choice([16, 64, 1024, 8192]), "local": rng.random() < 0.1, "path": rng.random() < 0.3}
        cfg["attempts"] = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a = {"kind": rng.choice(["kill", "kill", "killone", "net", "net", "disk"]), "frac": rng.random(), "victim": rng.randrange(len(workers)),
                 "update": [rng.random() < 0.2 for _ in files], "rates": {}, "budget": 0}
            if a["kind"] in ("net", "disk"):
                ks = NET if a["kind"] == "net" else DISK
                a["rates"] = {k: rng.choice([0.05, 0.3, 1]) for k in rng.sample(ks, rng.choice([1, 1, 2, len(ks)]))}
                a["budget"] = rng.choice([1, 1, 2, 5])
            a["gone"] = [i for i in range(len(files)) if rng.random() < 0.1]
            a["rates"]["net:delay"] = rng.choice([0, 0, 0.1])
            cfg["attempts"].append(a)
        cfg["last"] = {"update": [rng.random() < 0.2 for _ in files], "rates": {"net:delay": rng.choice([0, 0.1])}}
        cfg["sim"] = {"max_steps": 3000000, "max_time": 1e9, "dirseed": rng.randrange(1 << 30), "stall_max": 1.0}
        cfg["label"] = cfg["attempts"][0]["kind"] if cfg["attempts"] else "calm"
        return cfg

    # ------------------------------------------------------------------ run
    def url(self, cfg, i):
        f = cfg["files"][i]
        return {"http": ["https://models.example/%d.bin", "https://models.example/get?file=%d", "http://models.example/%d/model.bin"],
                "s3": ["s3://bucket/dir/%d.bin", "s3://bucket/%d/model.bin", "s3://bucket-%d/model.bin"],
                "data": ["http://data.example/%d.zip", "http://data.example/get?file=%d", "https://data.example/%d/data.zip"]}[f["kind"]][f["form"]] % i

    def content(self, cfg, i):
        v = self.version[i]
        return (b"<%d v%d>" % (i, v)) * (cfg["files"][i]["size"] // 7 + 1) if cfg["files"][i]["size"] else b""

    def worker(self, rank, sim, cfg):
        for i in cfg["workers"][rank]:
            f = cfg["files"][i]
            try:
                if f["kind"] == "data":
                    download_file(self.url(cfg, i), self.data, "f%d.zip" % i)
                    path, name = os.path.join(self.data, "f%d.zip" % i), None
                else:
                    path = cached_path(self.url(cfg, i), self.where(cfg))
                    name = os.path.basename(path)
            except (AttributeError, TypeError, NameError, torchsim.Unsupported):
                raise
            except Exception as e:
                self.failed.append((rank, i, repr(e), sim.cur.proc))
                continue
            self.look(sim, cfg, i, path, name)
            self.n["fetched"] += 1
            self.certain.add((i, self.key(cfg, i)))

    def where(self, cfg):
        return pathlib.Path(self.cache) if cfg["path"] else self.cache

    def key(self, cfg, i):
        return self.version[i] if cfg["files"][i]["kind"] != "data" else 0

    def local(self, sim, cfg):
        """A local name stands for itself."""
        path = os.path.join(sim.scratch, "here")
        with offline():
            try:
                cached_path(path, self.cache)
            except OSError:
                pass
            else:
                raise Violation("a local file that does not exist is accepted", "missing local file")
            with open(path, "wb"):
                pass
            expect(cached_path(path, self.cache) == path, "a local file is not used in place", "local file")

    def look(self, sim, cfg, i, path, name):
        """What a caller finds when the fetch returned."""
        with offline():
            try:
                with open(path, "rb") as f:
                    got = f.read()
            except OSError as e:
                self.bad.append(("fetch of %s returned, but the file cannot be opened: %r" % (self.url(cfg, i), e), "no file"))
                return
            want = self.content(cfg, i)
            if got != want:
                self.bad.append(("fetch of %s returned a file of %d bytes %r instead of %d bytes %r" % (self.url(cfg, i), len(got), got[:40], len(want), want[:40]),
                                 "wrong content"))
                return
            if name is None:
                return
            try:
                r = filename_to_url(name, self.where(cfg))
            except (OSError, ValueError) as e:
                self.bad.append(("the origin of the cached %s cannot be read: %r" % (self.url(cfg, i), e), "no origin"))
                return
            if tuple(r) != (self.url(cfg, i), self.etag(cfg, i)):
                self.bad.append(("the origin of the cached %s is recorded as %s" % (self.url(cfg, i), r), "wrong origin"))

    def etag(self, cfg, i):
        return '"v%d"' % self.version[i] if cfg["files"][i]["etag"] else None

    def publish(self, sim, cfg, update, gone):
        for i, u in enumerate(update):
            if u and cfg["files"][i]["etag"]:
                self.version[i] += 1
                self.n["updated"] += 1
        there = {}
        for i in range(len(cfg["files"])):
            if i not in gone:
                at = self.url(cfg, i)
                if cfg["files"][i]["moved"]:
                    there[at] = {"moved": "https://cdn.example/%d" % i}
                    at = there[at]["moved"]
                there[at] = {"data": self.content(cfg, i), "etag": self.etag(cfg, i)}
        self.host = sim.__dict__["web"] = Host(there)
        self.gone = gone

    def attempt(self, sim, cfg, a, length):
        self.failed = []
        procs, state = [], {"done": False}

        def kill():
            if state["done"] or not procs:
                return
            live = [p._sp for p in procs if p._sp.alive]
            if a["kind"] == "killone":
                live = [p for p in live if p is procs[a["victim"] % len(procs)]._sp]
            if live:
                sim._count("kill:job" if a["kind"] == "kill" else "kill:worker")
                self.n["killed"] += 1
            for q in sorted(live, key=lambda q: q is sim.cur.proc):
                mpsim.proc_killed(q, -9)

        self.publish(sim, cfg, a["update"], a.get("gone", []))
        self.before = set(self.certain)
        sim.fault_rates, sim.fault_budget = a["rates"], a.get("budget", 0) + (100 if a["rates"].get("net:delay") else 0)
        sim.fault_filter = lambda op, p: p.startswith((self.cache, self.data, self.temp))
        sim.faults_on = True
        fired = {k: v for k, v in sim.fired.items()}
        if a.get("kind") in ("kill", "killone"):
            sim.at_step(sim.steps + 1 + int(a["frac"] * length), kill)
        s0 = sim.steps
        for r in range(len(cfg["workers"])):
            procs.append(S.spawn(self.worker, r, (sim, cfg)))
        for p in procs:
            p.join()
        state["done"] = True
        sim.faults_on = False
        sim.__dict__["disk_full"] = False
        if sim.__dict__.get("unsupported"):
            raise torchsim.Unsupported(sim.unsupported[0])
        if self.bad:
            raise Violation(*self.bad[0])
        hurt = [k for k, v in sim.fired.items() if v > fired.get(k, 0) and not k.startswith(("net:delay", "stall"))]
        disk = [k for k in hurt if not k.startswith(("net:", "kill:"))]
        for rank, i, what, proc in self.failed:
            if i not in self.gone and not disk and proc not in self.host.hit:
                raise Violation("worker %d failed to fetch %s and met no fault (%s in others): %s" % (rank, self.url(cfg, i), hurt, what), "fetch fails without a fault")
        for r, p in enumerate(procs):
            expect(p.exitcode == 0 or (hurt and p.exitcode == -9), "worker %d ended with %s: %s" % (r, p.exitcode, sim.thread_errors[-1:]), "fetch fails without a fault")
        self.n["failed"] += len(self.failed)
        for i in range(len(cfg["files"])):
            if (i, self.key(cfg, i)) in self.before:
                self.n["reused"] += 1
                expect(self.url(cfg, i) not in self.host.requests and "https://cdn.example/%d" % i not in self.host.requests, "%s is complete in the folder and is fetched again" % self.url(cfg, i), "complete file fetched again")
        return sim.steps - s0

    def run(self, sim, cfg):
        info = sim.info
        self.n = info["n"] = {"fetched": 0, "failed": 0, "killed": 0, "reused": 0, "updated": 0}
        fsim.BUFSZ[0] = cfg["buf"]
        self.version, self.bad, self.certain = [1] * len(cfg["files"]), [], set()
        self.temp = os.path.join(sim.scratch, "tmp")
        length = self.measure(sim, cfg)
        self.cache, self.data = os.path.join(sim.scratch, "c", "cache"), os.path.join(sim.scratch, "d", "data")
        if cfg["folder"]:
            os.makedirs(self.cache)
            os.makedirs(self.data)
        for k, a in enumerate(cfg["attempts"]):
            info["phase"] = "attempt %d" % k
            self.attempt(sim, cfg, a, length)
        info["phase"] = "last attempt"
        self.attempt(sim, cfg, cfg["last"], length)
        if cfg["local"]:
            self.local(sim, cfg)
        same = len([i for w in cfg["workers"] for i in set(w)]) > len({i for w in cfg["workers"] for i in w})
        info["nontrivial"] = same or self.n["killed"] > 0 or self.n["failed"] > 0

    def measure(self, sim, cfg):
        """Length of an undisturbed attempt in folders of its own."""
        sim.info["phase"] = "reference"
        self.cache, self.data = os.path.join(sim.scratch, "r", "cache"), os.path.join(sim.scratch, "r", "data")
        n = self.attempt(sim, cfg, {"update": [False] * len(cfg["files"]), "rates": {}}, 0)
        self.certain = set()
        return n

    def shrink(self, cfg):
        for i in range(len(cfg["attempts"])):
            yield dict(cfg, attempts=cfg["attempts"][:i] + cfg["attempts"][i + 1:])
        for i in range(len(cfg["workers"])):
            if len(cfg["workers"]) > 1:
                yield dict(cfg, workers=cfg["workers"][:i] + cfg["workers"][i + 1:])
            if len(cfg["workers"][i]) > 1:
                for j in range(len(cfg["workers"][i])):
                    w = list(cfg["workers"])
                    w[i] = w[i][:j] + w[i][j + 1:]
                    yield dict(cfg, workers=w)


CHECK = C30()
