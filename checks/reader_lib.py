"""Shared generators and oracles for the text reader checks."""
import os

from vsim import core, stubs
from vsim.core import Violation
from deepgnn.graph_engine._adl_reader import TextFileIterator, TextFileSplitIterator
from deepgnn.graph_engine.samplers import TextFileSampler

B36 = "0123456789abcdefghijklmnopqrstuvwxyz"
PAYLOADS = ["", "", "x", "ab", "é", "中文", "\U0001F600z", "tab\tq", " sp", "sp ", "a,b;c", "q" * 23]


def gen_lines(rng, fi, n, blanks):
    out = []
    for i in range(n):
        tag = "%s%s" % (B36[fi % 36], B36[i % 36] if i < 36 else "%d" % i)
        p = rng.choice(PAYLOADS)
        if rng.random() < 0.04:
            p = "L" * rng.randrange(30, 160)
        out.append(tag + ":" + p)
        if blanks and rng.random() < 0.15:
            out.append("")
    if out and out[-1] and rng.random() < 0.2:
        out[-1] = B36[fi % 36]
    return out


def gen_files(rng, maxfiles=4, maxlines=12, blanks=False, nonempty=False):
    nf = rng.randrange(1, maxfiles + 1)
    files = []
    for fi in range(nf):
        n = rng.choice([0, 1, 2, rng.randrange(0, maxlines + 1), rng.randrange(0, maxlines + 1)])
        if nonempty:
            n = max(1, n)
        lines = gen_lines(rng, fi, n, blanks)
        eol = rng.choice(["\n", "\n", "\r\n"])
        tail = rng.random() < 0.6
        files.append({"name": "%s%02d.txt" % (rng.choice(["p", "q"]), fi), "lines": lines, "eol": eol, "tail": tail})
    if rng.random() < 0.15 and nf > 1:  # names whose numeric and text order differ
        for i, f in enumerate(files):
            f["name"] = "part%d" % (i * 7 + 4)
    return files


def content(f):
    s = f["eol"].join(f["lines"])
    if f["lines"] and f["tail"]:
        s += f["eol"]
    return s.encode("utf-8")


def ordered(files):
    return sorted(files, key=lambda f: f["name"])


def total_bytes(files):
    return sum(len(content(f)) for f in files)


def gen_params(rng, files):
    tb = max(1, total_bytes(files))
    block = rng.choice([rng.randrange(1, 40), rng.randrange(1, 40), rng.randrange(1, tb + 20), tb, 10 * tb, 100000])
    # keep the number of blocks bounded
    block = max(block, tb // 25 + 1)
    return {"block": block, "threads": rng.choice([1, 1, 2, 3, 4, 5]), "queue": rng.choice([1, 1, 2, 3]),
            "batch": rng.choice([1, 2, 3, 4, 5, 7, 16, 50])}


def put_files(sim, files, where, sub="data"):
    """Write the input, return the path argument for the reader."""
    if where == "adl":
        st = stubs.store()
        for f in files:
            st.files[sub + "/" + f["name"]] = content(f)
        return sub + "/*"
    d = os.path.join(sim.scratch, sub)
    core.SIM = None
    try:
        os.makedirs(d, exist_ok=True)
        for f in files:
            with open(os.path.join(d, f["name"]), "wb") as h:
                h.write(content(f))
    finally:
        core.SIM = sim
    if where == "file":
        return os.path.join(d, files[0]["name"])
    return d


def adl_args(where):
    if where == "adl":
        return {"store_name": "store", "adl_config": stubs.ADL_XML}
    return {}


def make_iter(path, cfg, **kw):
    p = cfg["p"]
    a = dict(filename=path, batch_size=p["batch"], epochs=cfg.get("epochs", 1), read_block_in_M=p["block"] / 1e6,
             buffer_queue_size=p["queue"], thread_count=p["threads"], shuffle=cfg.get("shuffle", False),
             drop_last=cfg.get("drop_last", False))
    a.update(adl_args(cfg["where"]))
    a.update(kw)
    return TextFileIterator(**a)


def make_sampler(path, cfg, **kw):
    p = cfg["p"]
    a = dict(store_name=None, filename=path, batch_size=p["batch"], buffer_size=cfg.get("buffer", 0), epochs=cfg.get("epochs", 1),
             shuffle=cfg.get("shuffle", False), drop_last=cfg.get("drop_last", False),
             read_block_in_M=p["block"] / 1e6, buffer_queue_size=p["queue"])
    a.update(adl_args(cfg["where"]))
    a.update(kw)
    return TextFileSampler(**a)


def consume(it, limit):
    out = []
    for b in it:
        if not isinstance(b, (list, tuple)):
            raise Violation("a batch is not a list of lines: %r" % (b,), "batch type")
        out.append(list(b))
        if len(out) > limit:
            raise Violation("the reader does not end: more than %d batches" % limit, "too many batches")
    return out


def expect(cond, what, sig):
    if not cond:
        raise Violation(what, sig)


def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + "..."


def check_stream(batches, files, epochs, shuffle, drop_last, batch_size, who="reader"):
    """Order, completeness and batching of one complete pass."""
    for b in batches[:-1]:
        expect(len(b) == batch_size, "%s: a batch other than the last has %d lines instead of %d" % (who, len(b), batch_size),
               "batch size")
    if batches:
        expect(0 < len(batches[-1]) <= batch_size, "%s: last batch has %d lines" % (who, len(batches[-1])), "last batch size")
        if drop_last:
            expect(len(batches[-1]) == batch_size, "%s: incomplete last batch although drop_last" % who, "drop_last kept")
    raw = [l for b in batches for l in b]
    got = [l for l in raw if l != ""]
    nblank = len(raw) - len(got)
    want_files = [[l for l in f["lines"] if l] for f in ordered(files)]
    per_epoch = sum(len(w) for w in want_files)
    blanks_in = sum(1 for f in files for l in f["lines"] if not l) * epochs
    expect(nblank <= blanks_in, "%s: more blank lines than in the input" % who, "extra blanks")
    if not shuffle:
        want = [l for w in want_files for l in w] * epochs
        if drop_last:
            if blanks_in:
                expect(want[:len(got)] == got and len(want) - len(got) < batch_size,
                       "%s: got %s want a prefix of %s missing less than one batch" % (who, short(got), short(want)), "lines differ")
            else:
                want = want[:len(want) - len(want) % batch_size]
                expect(got == want, "%s: got %s want %s" % (who, short(got), short(want)), "lines differ")
        else:
            expect(got == want, "%s: got %s want %s" % (who, short(got), short(want)), "lines differ")
        return
    i = 0
    for e in range(epochs):
        seg = got[i:i + per_epoch]
        i += per_epoch
        _check_file_permutation(seg, want_files, drop_last and per_epoch - len(seg) + 1, who)
    if drop_last:
        expect(per_epoch * epochs - len(got) < batch_size, "%s: %d of %d lines with drop_last and batches of %d" % (
            who, len(got), per_epoch * epochs, batch_size), "lines missing")
    expect(not got[i:], "%s: extra lines %s" % (who, short(got[i:])), "extra lines")


def _check_file_permutation(seg, want_files, missing_below, who):
    remaining = [list(w) for w in want_files if w]
    i = 0
    while i < len(seg):
        for w in remaining:
            if w[0] == seg[i]:
                break
        else:
            raise Violation("%s: line %r is not the first line of a pending file" % (who, seg[i]), "lines differ")
        n = min(len(w), len(seg) - i)
        if seg[i:i + n] != w[:n]:
            raise Violation("%s: file content differs: got %s want %s" % (who, short(seg[i:i + n]), short(w)), "lines differ")
        if n < len(w):
            w[:] = w[n:]
        else:
            remaining.remove(w)
        i += n
    left = sum(len(w) for w in remaining)
    if left and not (missing_below and left < missing_below):
        raise Violation("%s: %d lines of an epoch missing: %s" % (who, left, short(remaining)), "lines missing")


def batch_limit(files, epochs, batch):
    return sum(len(f["lines"]) + 1 for f in files) * epochs // batch + 20


REAL = ["deepgnn.graph_engine._adl_reader", "deepgnn.graph_engine.samplers", "threading", "queue",
        "concurrent.futures.ThreadPoolExecutor", "fsspec LocalFileSystem on real files"]
STUBBED = ["_thread locks and thread start (deterministic scheduler)", "clocks and sleep (virtual time)",
           "Azure Data Lake file system (in-memory store)", "directory listing order (seeded)"]
ASSUME = ["thread switches happen only at lines of the code under test and at lock, queue, clock and file operations",
          "input lines are non-blank UTF-8 separated by LF or CRLF without other Unicode line separators"]
