"""Builds the simulated engine library from the repository's C++ sources; objects are cached by content."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen_grpc  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(HERE, "build")
CXX = "/usr/bin/g++"
CXXFLAGS = ["-std=c++20", "-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-fno-omit-frame-pointer", "-w",
            "-DSNARK_PLATFORM_LINUX", "-DGLOG_NO_ABBREVIATED_SEVERITIES"]
# Release builds of the library are compiled with -c opt, which defines NDEBUG.
SIMFLAGS = ["-include", "prelude.h", "-fsanitize=thread", "-DNDEBUG", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
WRAP = """malloc free calloc realloc posix_memalign aligned_alloc pthread_create pthread_join pthread_detach
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
pthread_cond_signal pthread_cond_broadcast pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once sem_wait sem_post sem_trywait syscall clock_gettime gettimeofday time
nanosleep clock_nanosleep usleep sleep sched_yield get_nprocs abort __assert_fail fopen fopen64 fread read dlopen dlsym dlclose dlerror memcpy memmove memset""".split()
LIBS = "/usr/lib/x86_64-linux-gnu"


class BuildError(Exception):
    pass


def _sources(repo):
    lib = os.path.join(repo, "src/cc/lib")
    out = []
    for root, dirs, files in os.walk(lib):
        dirs[:] = sorted(d for d in dirs if d not in ("benchmark", "tests"))
        out += [os.path.join(root, f) for f in sorted(files)]
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def tree_digest(repo=None):
    repo = repo or REPO
    own = [os.path.join(HERE, "rt.cc"), os.path.join(HERE, "gen_grpc.py"), os.path.abspath(__file__)]
    own += sorted(p for p in glob.glob(os.path.join(HERE, "shim/**"), recursive=True) if os.path.isfile(p))
    return _sha(*[x for p in own + _sources(repo) for x in (os.path.relpath(p, repo if p.startswith(repo + "/") else HERE), _read(p))])


def build(repo=None, log=None):
    """Returns the path of the library for the present sources."""
    repo = repo or REPO
    os.makedirs(OUT, exist_ok=True)
    name = os.path.join(OUT, "libsnarksim-%s.so" % tree_digest(repo))
    if os.path.exists(name) and os.path.exists(name + ".syms"):
        return name
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(name) and os.path.exists(name + ".syms"):
            return name
        _build(repo, name)
    return name


def _build(repo, name):
    tmp = name + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    srcs = _sources(repo)
    units = []
    # The packaged protobuf's iterators are contiguous but not declared so, as later releases do.
    os.makedirs(gen + "/google/protobuf")
    text = open("/usr/include/google/protobuf/repeated_field.h").read()
    mark = "  using iterator_category = std::random_access_iterator_tag;\n"
    assert mark in text
    with open(gen + "/google/protobuf/repeated_field.h", "w") as f:
        f.write(text.replace(mark, mark + "  using iterator_concept = std::contiguous_iterator_tag;\n", 1))
    # Hash tables are seeded with the address the library happens to be loaded at; the simulator fixes the seed.
    os.makedirs(gen + "/absl/hash/internal")
    text = open("/usr/include/absl/hash/internal/hash.h").read()
    mark = "reinterpret_cast<uintptr_t>(&kSeed)"
    assert mark in text
    with open(gen + "/absl/hash/internal/hash.h", "w") as f:
        f.write(text.replace(mark, "0x51ed2701a3c5e9b7ull"))
    for p in srcs:
        if p.endswith(".proto"):
            rel = os.path.relpath(p, repo)
            _run(["protoc", "-I", repo, "--cpp_out=" + gen, rel if not os.path.isabs(rel) else p])
            head = rel[:-6] + ".pb.h"
            with open(os.path.join(gen, rel[:-6] + ".grpc.pb.h"), "w") as f:
                f.write(gen_grpc.generate(open(p).read(), head))
            units.append((os.path.join(gen, rel[:-6] + ".pb.cc"), False))
        elif p.endswith((".cc", ".cpp")):
            units.append((p, True))
    units.append((os.path.join(HERE, "rt.cc"), False))
    inc = ["-I" + gen, "-I" + repo, "-I" + os.path.join(HERE, "shim")]
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)

    def compile_one(u):
        src, sim = u
        flags = CXXFLAGS + (SIMFLAGS if sim else ["-O2"]) + inc
        pre = subprocess.run([CXX] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pre.returncode:
            raise BuildError("cannot preprocess %s\n%s" % (src, pre.stderr.decode(errors="replace")[-4000:]))
        obj = os.path.join(objdir, _sha(pre.stdout, " ".join(CXXFLAGS + (SIMFLAGS if sim else []))) + ".o")
        if not os.path.exists(obj):
            _run([CXX] + flags + ["-c", src, "-o", obj + ".%d" % os.getpid() + os.path.basename(src)])
            os.replace(obj + ".%d" % os.getpid() + os.path.basename(src), obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, units))
    api = set()
    for o in objs:
        for line in _run(["readelf", "-sW", o]).splitlines():
            p = line.split()
            if len(p) == 8 and p[3] == "FUNC" and p[4] == "GLOBAL" and p[5] == "DEFAULT" and p[6] != "UND" and not p[7].startswith("_"):
                api.add(p[7])
    with open(tmp + "/map", "w") as f:
        f.write("{ global: _Znw*; _Zna*; _Zdl*; _Zda*; %s local: *; };\n" % " ".join(a + ";" for a in sorted(api)))
    absl = [p for p in sorted(glob.glob(LIBS + "/libabsl_*.a")) if "raw_hash_set" not in p and "hashtablez" not in p]
    _run([CXX, "-shared", "-o", tmp + "/lib.so"] + objs + ["-static-libstdc++", "-static-libgcc", "-Wl,--exclude-libs,ALL", "-Wl,-Bsymbolic",
         "-Wl,--version-script=" + tmp + "/map", "-Wl,-z,now"]
         + ["-Wl,--wrap=" + w for w in WRAP]
         + ["-Wl,-z,defs", "-Wl,--start-group"] + absl + ["-Wl,--end-group", "-lprotobuf", "-ldl", "-lpthread", "-lm"])
    syms = []
    for line in _run(["nm", "-C", "--defined-only", "-n", tmp + "/lib.so"]).splitlines():
        p = line.split(" ", 2)
        if len(p) == 3 and p[1] in "tTwW":
            syms.append([int(p[0], 16), p[2].split("(")[0][-120:]])
    with open(tmp + "/syms", "w") as f:
        json.dump(syms, f)
    os.replace(tmp + "/syms", name + ".syms")
    os.replace(tmp + "/lib.so", name)
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    print(build())
