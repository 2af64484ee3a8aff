#!/usr/bin/env python3
"""Entry point: vcheck_run.py C01 | --replay FILE"""
import os
import sys

PY = "/opt/venv/bin/python"
if (os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.executable) != os.path.realpath(PY)
        or sys.prefix != "/opt/venv") and not os.environ.get("VSIM_REEXECED"):
    env = dict(os.environ, PYTHONHASHSEED=os.environ.get("VSIM_HASHSEED", "0"), VSIM_REEXECED="1", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    try:
        # no address randomisation: native runs must not depend on where things are loaded
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass
    os.execve(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim import runner  # noqa: E402

if __name__ == "__main__":
    try:
        rc = runner.replay(sys.argv[2]) if sys.argv[1] == "--replay" else runner.main(sys.argv[1])
    except Exception:     # a failure of the framework is no answer
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
