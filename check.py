#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("RBMV_PYTHON", "/opt/venv/bin/python")
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_CACHE_DIR": "/tmp/rbmv-numba-%d" % os.getuid(),
    "PYTHONNOUSERSITE": "1",
}
if os.environ.get("RBMV_BOOT") != "1":
    env = dict(os.environ, RBMV_BOOT="1", **WANT)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
repo = os.environ.get("RBMV_REPO", "/repo")
sys.path[:0] = [repo, HERE]

import importlib
import warnings

warnings.simplefilter("ignore")
import rigid_body_motion

if not os.path.abspath(rigid_body_motion.__file__).startswith(repo + os.sep):
    print("INCONCLUSIVE: imported", rigid_body_motion.__file__)
    sys.exit(2)

from rbmv import core

pid = sys.argv[1]
mod = importlib.import_module("rbmv.props." + pid.lower())
rc = core.main(mod.prop, sys.argv[2:])
sys.stdout.flush()
os._exit(rc)
