"""Stand-ins for external systems: Azure Data Lake, TensorFlow logging, telemetry."""
import errno
import fnmatch
import os
import sys
import types

from . import core


class StubError(OSError):
    pass


class StubStore:
    """In-memory data lake; a file's bytes become durable when it is closed or flushed."""

    def __init__(self):
        self.files = {}
        self.log = []
        self.open_fail = None


def store():
    sim = core.SIM
    s = sim.__dict__.get("adl_store")
    if s is None:
        s = sim.__dict__["adl_store"] = StubStore()
    return s


def _norm(p):
    p = str(p)
    for pre in ("adl://", "adls://"):
        if p.startswith(pre):
            p = p[len(pre):]
            p = p[p.index("/"):] if "/" in p else "/"
    return p.lstrip("/")


def _net(op, path):
    """Latency, then possibly a failure, of one remote call."""
    sim = core.SIM
    sim.point("adl-" + op)
    d = sim.fault(("net:delay",), "adl %s %s" % (op, path))
    if d is not None:
        sim.block("adl-" + op, sim.now + d[1] * 20)
    d = sim.fault(("net:error:" + op,), "adl %s %s" % (op, path))
    if d is not None:
        what = "injected remote failure in %s of %s" % (op, path)
        if op == "read" and d[1] < 0.4:
            raise RuntimeError(what)        # clients of remote stores do not only raise I/O errors
        raise StubError(errno.ECONNRESET, what)


class StubADLFile:
    def __init__(self, fs, path, mode):
        self.path = path
        self.mode = mode
        self.closed = False
        self.buf = bytearray()
        self.pos = 0
        st = store()
        if "w" in mode:
            st.files.setdefault(path, b"")
            st.files[path] = b""
        elif "a" in mode:
            self.buf = bytearray(st.files.get(path, b""))
        elif path not in st.files:
            raise FileNotFoundError(path)
        self.name = path

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        _net("write", self.path)
        self.buf += bytes(data)
        return len(data)

    def flush(self, *a, **k):
        if self.closed:
            return
        _net("flush", self.path)
        store().files[self.path] = bytes(self.buf)

    def close(self):
        if self.closed:
            return
        if "r" not in self.mode:
            _net("flush", self.path)
            store().files[self.path] = bytes(self.buf)
            store().log.append(("close", self.path, len(self.buf)))
        self.closed = True

    def read(self, n=-1):
        _net("read", self.path)
        d = store().files[self.path]
        out = d[self.pos:] if n < 0 else d[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(store().files[self.path]) + off)
        return self.pos

    def tell(self):
        return self.pos

    def readline(self):
        d = store().files[self.path]
        i = d.find(b"\n", self.pos)
        e = len(d) if i < 0 else i + 1
        out = d[self.pos:e]
        self.pos = e
        return out

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StubADLFileSystem:
    def __init__(self, token=None, store_name=None, *a, **k):
        self.token = token
        self.store_name = store_name

    def open(self, path, mode="rb", *a, **k):
        p = _norm(path)
        _net("open", p)
        return StubADLFile(self, p, mode)

    def glob(self, path, *a, **k):
        _net("glob", path)
        p = _norm(path)
        out = []
        for f in store().files:
            if fnmatch.fnmatchcase(f, p) and f.count("/") == p.count("/"):
                out.append(f)
        import random
        sim = core.SIM
        sim.dircalls = getattr(sim, "dircalls", 0) + 1
        random.Random("adl/%s/%d" % (sim.opts.get("dirseed", 0), sim.dircalls)).shuffle(out)
        return out

    def ls(self, path, detail=False, *a, **k):
        _net("ls", path)
        p = _norm(path).rstrip("/")
        out = sorted(f for f in store().files if f == p or f.startswith(p + "/"))
        return [self.info(f) for f in out] if detail else out

    def info(self, path, *a, **k):
        p = _norm(path)
        return {"name": p, "length": len(store().files[p]), "type": "FILE"}

    def exists(self, path, *a, **k):
        p = _norm(path)
        return p in store().files or any(f.startswith(p.rstrip("/") + "/") for f in store().files)

    def read_block(self, fn, offset, length, delimiter=None):
        p = _norm(fn)
        _net("read", p)
        if p not in store().files:
            raise FileNotFoundError(p)
        d = store().files[p]
        return d[offset:] if length is None else d[offset:offset + length]

    def cat(self, path):
        _net("read", path)
        return store().files[_norm(path)]

    def rm(self, path, *a, **k):
        store().files.pop(_norm(path), None)

    def mkdir(self, path):
        pass

    def touch(self, path):
        store().files[_norm(path)] = b""


def _auth(*a, **k):
    sim = core.SIM
    if sim is not None:
        sim.point("adl-auth")
        d = sim.fault(("net:error:auth",), "adl auth")
        if d is not None:
            raise StubError(errno.ECONNREFUSED, "injected authentication failure")
    return {"access": "token"}


class LibFunction:
    """One C function of the stand-in native library: the check supplies the behaviour."""

    def __init__(self, name):
        self.name = name
        self.argtypes = None
        self.restype = None
        self.errcheck = None

    def __call__(self, *args):
        sim = core.SIM
        engine = sim.__dict__.get("engine") if sim is not None else None
        if sim is not None:
            sim.point("lib-" + self.name)
        f = getattr(engine, self.name, None)
        res = 0 if f is None else (f(*args) or 0)
        return self.errcheck(res, self, args) if self.errcheck else res


class StubLibrary:
    def __init__(self, path):
        self._name = path

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = LibFunction(name)
        self.__dict__[name] = f
        return f


def stub_native_library():
    import ctypes
    real = ctypes.CDLL
    if getattr(real, "_vsim", None):
        return

    class CDLL:
        _vsim = True

        def __new__(cls, name=None, *a, **k):
            if name is not None and "wrapper" in os.path.basename(str(name)):
                return StubLibrary(str(name))
            return real(name, *a, **k)

    ctypes.CDLL = CDLL


def stub_sockets():
    import socket
    from . import patch
    socket.socket = patch.SocketSeam


def install():
    stub_native_library()
    try:
        from azure.datalake.store import core as acore, lib as alib
        acore.AzureDLFileSystem = StubADLFileSystem
        alib.auth = _auth
    except ImportError:
        pkg = types.ModuleType("azure.datalake.store")
        sys.modules["azure.datalake.store"] = pkg
        c = types.ModuleType("azure.datalake.store.core")
        l = types.ModuleType("azure.datalake.store.lib")
        c.AzureDLFileSystem = StubADLFileSystem
        l.auth = _auth
        pkg.core, pkg.lib = c, l
        sys.modules["azure.datalake.store.core"] = c
        sys.modules["azure.datalake.store.lib"] = l
    if "tensorflow" not in sys.modules:
        tf = types.ModuleType("tensorflow")

        class _Log:
            def __getattr__(self, n):
                return lambda *a, **k: None

        class _NS:
            pass

        tf.compat = _NS()
        tf.compat.v1 = _NS()
        tf.compat.v1.logging = _Log()
        tf.get_logger = lambda: _Log()
        sys.modules["tensorflow"] = tf
        sys.modules["tensorflow.compat"] = tf.compat
        sys.modules["tensorflow.compat.v1"] = tf.compat.v1


ADL_XML = """<configuration>
<property><name>fs.adl.oauth2.client.id</name><value>id</value></property>
<property><name>fs.adl.oauth2.credential</name><value>secret</value></property>
<property><name>fs.adl.oauth2.refresh.url</name><value>https://x/12345678-1234-1234-9234-123456789abc/oauth2</value></property>
</configuration>"""
