#!/usr/bin/env python3
"""setup_cmd: build the native engine for simulation; verify that the simulators start and are deterministic."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
PY = "/opt/venv/bin/python"
# A check builds the library itself if the sources changed since.
if subprocess.run([PY, os.path.join(HERE, "nsim", "build.py")]).returncode:
    print("the native engine does not build; C20-C25, C27, C29, C31 and C32 will not answer")
sys.exit(max(subprocess.run([PY, os.path.join(HERE, "tools", "determinism.py"), c, "20"]).returncode for c in ("C05", "C20")))
