#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  — reads a JSON {old,new,needs,what} list from stdin and writes seeded/ID/patch.diff + meta.json."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
tmp = tempfile.mkdtemp(prefix="mkseed-", dir="/dev/shm")
try:
    subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), tmp + "/repo"], check=True)
    for e in spec["edits"]:
        p = tmp + "/repo/" + e["file"]
        s = open(p).read()
        assert s.count(e["old"]) == 1, (e["file"], s.count(e["old"]), e["old"])
        open(p, "w").write(s.replace(e["old"], e["new"]))
    diff = subprocess.run(["git", "diff"], cwd=tmp + "/repo", capture_output=True, text=True).stdout
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(d + "/meta.json", "w"), indent=1)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaviour intact\nexport PYTHONPATH="$PWD/src/python" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
finally:
    shutil.rmtree(tmp)
