#!/usr/bin/env python3
"""Measures how many small changes of the repository's sources the checks notice.

usage: mutate.py OUT.jsonl --checks C20,C21 --files a,b [--lines A-B] [--count N] [--seed S] [--secs T] [--jobs J]

Every change is tried in a scratch copy of the repository with a scratch copy of this framework; both are removed at the end.
"""
import argparse
import concurrent.futures
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SWAPS = [(r"(?<![<>=\-!+*/&|])<(?![<=])(?= )", "<="), (r"<=", "<"), (r"(?<![->=<])>(?![>=])(?= )", ">="), (r">=", ">"), (r"==", "!="),
         (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r" and ", " or "), (r" or ", " and "),
         (r"\bif not ", "if "), (r"\bnot in\b", "in"), (r"(?<![\w.\"'])0(?![\w.\"'])", "1"), (r"(?<![\w.\"'])1(?![\w.\"'])", "2"),
         (r"\+= ", "-= "), (r"\+\+", "--"), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
         (r"lower_bound", "upper_bound"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"fetch_sub\(1\)", "fetch_sub(0)"),
         (r"\.first\b", ".second"), (r"\.second\b", ".first")]


def candidates(path, lo, hi):
    py = path.endswith(".py")
    text = open(path).read().split("\n")
    doc = False
    for i, line in enumerate(text):
        s = line.strip()
        if py and s.count('"""') == 1:
            doc = not doc
            continue
        if doc or not s or not lo <= i + 1 <= hi or s.startswith(("//", "#", "*", '"""', "template", "import", "from", "using", "RAW_LOG", "get_logger", "self.logger",
                                                                  "m_logger", "assert", "raise", "log_", "def ", "class ", "namespace", "case", "public:", "logger")):
            continue
        code = re.split(r"\s//|\s#", line)[0]
        for pat, new in SWAPS:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2 or code[:m.start()].count("'") % 2:
                    continue
                yield i, line, line[:m.start()] + new + line[m.end():], pat
        ind = line[:len(line) - len(line.lstrip())]
        if not py and s.endswith(";") and re.match(r"[\w\*\(:]", s) and not re.match(
                r"(return|auto|const|using|std::\w+(<.*>)? \w+[;({=]|[\w:<>,\* ]+ \**&?\w+( = .*|\(.*\)|\{.*\})?;$|[{}])", s) and s.count("(") == s.count(")"):
            yield i, line, ind + ";", "delete"
        if not py and s.startswith("std::lock_guard"):
            yield i, line, ind + ";", "delete"
        if py and re.match(r"[\w\.\[\]]+(\(.*\)| [+\-]?= .*)$", s) and s.count("(") == s.count(")") and s.count("[") == s.count("]"):
            yield i, line, ind + "pass", "delete"
        if py and re.match(r"if .*:$", s):
            yield i, line, ind + "if False:", "if"
        if not py and re.match(r"if \(.*\)$", s) and s.count("(") == s.count(")"):
            yield i, line, ind + "if (false)", "if"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--checks", required=True)
    ap.add_argument("--files", required=True)
    ap.add_argument("--lines", default="1-1000000")
    ap.add_argument("--count", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=10)
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    lo, hi = map(int, a.lines.split("-"))
    todo = []
    for f in a.files.split(","):
        todo += [(f,) + c for c in candidates(os.path.join(REPO, f), lo, hi)]
    done = set()
    if os.path.exists(a.out):
        for line in open(a.out):
            d = json.loads(line)
            done.add((d["file"], d["line"], d["new"]))
    random.Random(a.seed).shuffle(todo)
    todo = [t for t in todo if (t[0], t[1] + 1, t[3].strip()) not in done][:a.count]
    base = tempfile.mkdtemp(prefix="mutate-", dir="/dev/shm")
    places = queue.Queue()
    out = open(a.out, "a")
    stats = {}

    def prepare(k):
        d = "%s/%d" % (base, k)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", REPO, d + "/repo"], check=True)
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns("evidence", ".git", "seeded", "*.tmp"))
        places.put(d)

    def one(t):
        f, i, old, new, op = t
        d = places.get()
        p = os.path.join(d, "repo", f)
        text = open(p).read()
        try:
            lines = text.split("\n")
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "op": op, "result": "missed", "by": None}
            if f.endswith(".py") and subprocess.run([sys.executable, "-c", "import ast,sys;ast.parse(open(sys.argv[1]).read())", p], capture_output=True).returncode:
                res["result"] = "invalid"
            else:
                for c in a.checks.split(","):
                    env = dict(os.environ, VERIF_REPO=d + "/repo", VSIM_PROBE="1", VSIM_SECS=str(a.secs), VSIM_WORKERS=str(max(1, 8 // a.jobs)), VSIM_WALL_CAP="15")
                    try:
                        r = subprocess.run(["/opt/venv/bin/python", d + "/verif/vcheck_run.py", c], capture_output=True, text=True, env=env, timeout=400, cwd=d + "/verif")
                    except subprocess.TimeoutExpired:
                        res["result"], res["by"] = "timeout", c
                        continue
                    if r.returncode == 1:
                        res["result"], res["by"], res["what"] = "caught", c, r.stdout.strip()[-300:]
                        break
                    if r.returncode != 0:
                        if "BuildError" in r.stdout + r.stderr or "command failed" in r.stdout + r.stderr:
                            res["result"] = "invalid"
                            break
                        res["result"], res["by"], res["what"] = "error", c, (r.stdout + r.stderr)[-300:]
                for x in os.listdir(d + "/verif/nsim/build"):
                    if x.startswith("libsnarksim"):
                        y = d + "/verif/nsim/build/" + x
                        shutil.rmtree(y) if os.path.isdir(y) else os.unlink(y)
            out.write(json.dumps(res) + "\n")
            out.flush()
            stats[res["result"]] = stats.get(res["result"], 0) + 1
        finally:
            open(p, "w").write(text)
            places.put(d)

    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            list(ex.map(prepare, range(a.jobs)))
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(stats))


main()
