"""Entry point of every check: python run.py P01 [--tier quick|thorough] [--replay FILE]."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in FIXED.items()):
        os.environ.update(FIXED)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]])
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), os.path.join(HERE, "lib")]
    import core

    sys.exit(core.main(sys.argv[1:]))
