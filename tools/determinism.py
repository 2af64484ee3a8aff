#!/usr/bin/env python3
"""Runs the same seeds in several fresh interpreters (different hash seeds, different orders) and by replaying
the recorded decisions, and compares the full digests of the executions.

usage: determinism.py C01 [runs]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def inner(name, n, mode):
    sys.path.insert(0, HERE)
    os.environ["VSIM_DEC"] = "1"
    from vsim import runner
    check = runner.load(name)
    base = runner.scratch_base()
    out = {}
    idx = list(range(n))
    if mode == "reverse":
        idx.reverse()
    try:
        for i in idx:
            seed = runner.run_seed(check.property, 77, i)
            cfg = runner.make_cfg(check, seed, "quick", i)
            res = runner.execute(check, cfg, seed, None, os.path.join(base, "%s%d" % (mode, i)))
            if mode == "replay":
                a = res
                res = runner.execute(check, cfg, seed, res.get("decisions"), os.path.join(base, "%s%d" % (mode, i)))
            out[i] = [res["outcome"], res["steps"], res.get("switches"), res.get("ihash"), res.get("sim_s"), res["fired"], res["info"],
                      res.get("decisions")]
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(out, sort_keys=True))


def main():
    name, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60
    outs = []
    for hs, mode in (("0", "plain"), ("1234", "reverse"), ("99", "replay")):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([PY, os.path.abspath(__file__), "--inner", name, str(n), mode], capture_output=True, text=True, env=env)
        if r.returncode:
            print(r.stderr[-3000:])
            return 2
        outs.append(json.loads(r.stdout.strip().split("\n")[-1]))
    bad = 0
    for k in outs[0]:
        for j, o in enumerate(outs[1:], 1):
            if o[k] != outs[0][k]:
                bad += 1
                print("seed index %s differs in variant %d:\n  %s\n  %s" % (k, j, str(outs[0][k][:7])[:600], str(o[k][:7])[:600]))
    print("%s: %d seeds x 3 executions (fresh interpreters, 3 hash seeds, reversed order, replay from decisions): %d differences" % (name, n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--inner":
        inner(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    else:
        sys.exit(main())
