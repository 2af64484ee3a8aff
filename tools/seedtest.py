#!/usr/bin/env python3
"""Try a planted change in a scratch copy: demo on both trees, stable tests, and the check of its property.

usage: seedtest.py ID... [--notests] [--secs N] [--all-checks]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1800):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def stable(cwd):
    """The stable tests of the copy, by rewriting the paths of the test script."""
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    script = open("/opt/vp/test.sh").read().replace("/repo/", cwd + "/")
    open(cwd + "/../t.sh", "w").write(script)
    out = cwd + "/../out.json"
    sh(["bash", cwd + "/../t.sh", out], cwd)
    res = json.load(open(out))
    passed = set(res["passed"])
    missing = sorted(base - passed)
    return "%d of %d stable pass%s" % (len(base) - len(missing), len(base), "; failing: %s" % missing[:4] if missing else "")


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    secs = None
    if "--secs" in sys.argv:
        secs = sys.argv[sys.argv.index("--secs") + 1]
        ids.remove(secs)
    for sid in ids:
        d = os.path.join(HERE, "seeded", sid)
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="seedtest-", dir="/dev/shm")
        try:
            repo = tmp + "/repo"
            subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), repo], check=True)
            t0 = time.time()
            r0 = sh(["bash", d + "/demo.sh"], repo, timeout=300)
            t1 = time.time()
            a = sh(["git", "apply", d + "/patch.diff"], repo)
            if a.returncode:
                print(sid, "PATCH FAILS", a.stderr)
                continue
            r1 = sh(["bash", d + "/demo.sh"], repo, timeout=300)
            msg = "%s [%s] demo clean=%d (%.1fs) patched=%d" % (sid, meta["property"], r0.returncode, t1 - t0, r1.returncode)
            if r0.returncode:
                msg += "\n   clean demo output: " + (r0.stdout + r0.stderr)[-1500:]
            if r1.returncode == 0:
                msg += "\n   patched demo output: " + (r1.stdout + r1.stderr)[-1500:]
            if "--notests" not in sys.argv:
                msg += "\n   tests: %s" % stable(repo)
            print(msg, flush=True)
            props = [meta["property"]]
            if "--all-checks" in sys.argv:
                props = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
            for p in ([] if "--nocheck" in sys.argv else props):
                env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
                if secs:
                    env["VSIM_SECS"] = secs
                t = time.time()
                c = sh(["python3", HERE + "/vcheck_run.py", p], HERE, env)
                print("   check %s rc=%d %.0fs: %s" % (p, c.returncode, time.time() - t, (c.stdout[-500:] + c.stderr[-300:]).strip().replace("\n", "\n      ")), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
