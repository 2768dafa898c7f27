"""Sanity check of the environment; nothing has to be built."""

import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", os.path.join(ROOT, "lib")]
import jsonpickle  # noqa: E402

import core  # noqa: E402, F401
import gen  # noqa: E402, F401

assert os.path.abspath(jsonpickle.__file__).startswith("/repo/"), jsonpickle.__file__
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print("jsonpickle", jsonpickle.__version__, "from", jsonpickle.__file__)
