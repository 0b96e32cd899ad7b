#!/usr/bin/env python3
"""Entry point: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--sub NAME]

Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself failed (harness error / inconclusive).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "VERIF_CHILD": "1",
}

if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.join(HERE, "run.py")] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "vendor"))

if __name__ == "__main__":
    from pbt.runner import main

    sys.exit(main(sys.argv[1:]))
