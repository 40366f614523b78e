#!/usr/bin/env python3
"""Checks that everything the framework needs is there (nothing is built in
advance: the preloaded library is compiled by every check into scratch)."""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
with tempfile.TemporaryDirectory() as d:
    so = os.path.join(d, "simio.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so,
                    os.path.join(V, "sim", "shim.c"), "-ldl"], check=True)
    r = subprocess.run([PY, "-B", "-c", "import ctypes, netCDF4, numpy\n"
                        "ctypes.CDLL(None).sim_present()"],
                       env={**os.environ, "LD_PRELOAD": so})
sys.exit(r.returncode)
