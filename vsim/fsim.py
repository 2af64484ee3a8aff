"""File seam: real files in a scratch directory, with scheduling points and injected faults.

Writes that reached the operating system survive a process kill; data still in a
Python buffer of the killed process is lost.
"""
import builtins
import errno
import io
import os
import stat as _stat

from . import core

REAL_OPEN = io.open
ROOT = None       # scratch root; only paths below it are simulated
BUFSZ = [8192]

_real = {n: getattr(os, n) for n in
         ("stat", "lstat", "scandir", "listdir", "remove", "unlink", "rename", "replace",
          "mkdir", "rmdir", "open", "fsync", "write", "link", "symlink", "utime", "truncate")}


def _inside(path):
    if ROOT is None or core.SIM is None:
        return False
    if isinstance(path, int):
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        return False
    return p.startswith(ROOT)


def _allowed(op, path):
    f = core.SIM.__dict__.get("fault_filter")
    return f is None or f(op, path)


def _raise(kind, path):
    code = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES,
            "emfile": errno.EMFILE, "estale": errno.ESTALE}[kind.split(":")[-1]]
    raise OSError(code, os.strerror(code), path)


class SimFileIO(io.FileIO):
    def __init__(self, path, mode, closefd=True, opener=None):
        super().__init__(path, mode, closefd=closefd, opener=opener)
        self._p = path
        self._owner = core.SIM.cur.proc if core.SIM else None

    def write(self, b):
        sim = core.SIM
        if sim is None:
            return super().write(b)
        if self._owner is not None and not self._owner.alive:
            return len(b)
        n = len(b)
        d = sim.fault(("write:eio", "write:enospc", "write:short", "write:torn_kill"), "write " + os.path.basename(self._p)) \
            if _allowed("write", self._p) else None
        if d is not None:
            k = d[0]
            part = int(d[1] * n)
            if k == "write:short":
                if n > 1:
                    return super().write(bytes(b)[:max(1, part)])
            elif k == "write:torn_kill":
                if part:
                    super().write(bytes(b)[:part])
                from . import mpsim
                if sim.cur.proc.pid != 1000:
                    mpsim.proc_killed(sim.cur.proc, -9)
            else:
                if k == "write:enospc":
                    sim.__dict__["disk_full"] = True
                    if part:
                        super().write(bytes(b)[:part])
                _raise(k, self._p)
        if sim.__dict__.get("disk_full") and n and _allowed("write", self._p):
            _raise("enospc", self._p)
        return super().write(b)

    def readinto(self, b):
        self._rfault()
        sim = core.SIM
        if sim is not None and len(b) > 1:
            d = sim.fault(("read:short",), "read " + os.path.basename(self._p)) if _allowed("read", self._p) else None
            if d is not None:
                k = max(1, int(d[1] * len(b)))
                return super().readinto(memoryview(b)[:k])
        return super().readinto(b)

    def _rfault(self):
        sim = core.SIM
        if sim is not None and _allowed("read", self._p):
            d = sim.fault(("read:eio",), "read " + os.path.basename(self._p))
            if d is not None:
                _raise(d[0], self._p)

    def read(self, n=-1):
        self._rfault()
        return super().read(n)

    def readall(self):
        self._rfault()
        return super().readall()


class _Ops:
    def read(self, *a):
        _pt("fread")
        return super().read(*a)

    def readline(self, *a):
        _pt("freadline")
        return super().readline(*a)


def _pt(site):
    s = core.SIM
    if s is not None:
        s.point(site)


class SimReader(_Ops, io.BufferedReader):
    pass


class SimWriter(io.BufferedWriter):
    def write(self, b):
        _pt("fwrite")
        return super().write(b)

    def flush(self):
        _pt("fflush")
        return super().flush()

    def close(self):
        if not self.closed:
            _pt("fclose")
        return super().close()


class SimRandom(_Ops, io.BufferedRandom):
    def write(self, b):
        _pt("fwrite")
        return super().write(b)


class SimText(io.TextIOWrapper):
    def write(self, s):
        _pt("fwrite")
        return super().write(s)

    def close(self):
        if not self.closed:
            _pt("fclose")
        return super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _inside(file):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim = core.SIM
    path = os.fspath(file)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    sim.point("open")
    modes = set(mode)
    writing = bool(modes & set("wax+"))
    if _allowed("open", path):
        d = sim.fault(("open:eio", "open:emfile", "open:eacces") + (("open:enospc",) if writing else ()),
                      "open %s %s" % (mode, os.path.basename(path)))
        if d is not None:
            _raise(d[0], path)
    binary = "b" in modes
    text = not binary
    rawmode = "".join(c for c in ("x", "r", "w", "a") if c in modes) or "r"
    if "+" in modes:
        rawmode += "+"
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    raw = SimFileIO(path, rawmode, closefd, opener)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else BUFSZ[0]
    if "+" in modes:
        buf = SimRandom(raw, size)
    elif writing:
        buf = SimWriter(raw, size)
    else:
        buf = SimReader(raw, size)
    sim.point("opened")
    if binary:
        return buf
    t = SimText(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap(name, site, kinds=()):
    fn = _real[name]

    def w(path, *a, **k):
        if not _inside(path):
            return fn(path, *a, **k)
        sim = core.SIM
        sim.point(site)
        if kinds and _allowed(name, os.fspath(path)):
            d = sim.fault(kinds, "%s %s" % (name, os.path.basename(os.fspath(path))))
            if d is not None:
                _raise(d[0], os.fspath(path))
        return fn(path, *a, **k)
    w.__name__ = name
    return w


def _order(seq, key):
    sim = core.SIM
    out = sorted(seq, key=key)
    # directory order is arbitrary: derived from the seed, not from the file system
    import random
    sim.dircalls = getattr(sim, "dircalls", 0) + 1
    random.Random("dir/%s/%d" % (sim.opts.get("dirseed", 0), sim.dircalls)).shuffle(out)
    return out


class _Scan:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path="."):
    if not _inside(path):
        return _real["scandir"](path)
    core.SIM.point("scandir")
    with _real["scandir"](path) as it:
        return _Scan(_order(list(it), lambda e: e.name))


def _listdir(path="."):
    if not _inside(path):
        return _real["listdir"](path)
    core.SIM.point("listdir")
    return _order(_real["listdir"](path), lambda e: e)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.scandir = _scandir
    os.listdir = _listdir
    os.stat = _wrap("stat", "stat")
    os.lstat = _wrap("lstat", "lstat")
    os.remove = _wrap("remove", "remove", ("remove:eio",))
    os.unlink = _wrap("unlink", "remove", ("remove:eio",))
    os.rename = _wrap("rename", "rename", ("rename:eio",))
    os.replace = _wrap("replace", "rename", ("rename:eio",))
    os.mkdir = _wrap("mkdir", "mkdir", ("mkdir:eio", "mkdir:enospc"))
    os.rmdir = _wrap("rmdir", "rmdir")
    os.open = _wrap("open", "os.open", ("open:eio",))
    # modules that copied the names at import time
    import glob, shutil, tempfile, pathlib  # noqa
    import os.path as osp
    for m in (tempfile,):
        if hasattr(m, "_infer_return_type"):
            pass
    # os.supports_* sets hold the original functions
    for sname in ("supports_dir_fd", "supports_fd", "supports_follow_symlinks", "supports_effective_ids"):
        s = getattr(os, sname)
        for n, f in _real.items():
            if f in s:
                s.add(getattr(os, n))


def set_root(path):
    global ROOT
    ROOT = path.rstrip("/") + "/" if path else None
