"""Records what the interpreter does while a block runs: imports, compiles, executions, files, processes."""

import contextlib
import sys

_LOG = []
_ON = []
WATCH = ("import", "exec", "compile", "open", "os.", "subprocess.", "socket.", "shutil.", "ctypes.", "code.", "marshal.", "pickle.", "urllib.", "builtins.input", "cpython.run")


def _hook(event, args):
    if _ON and event.startswith(WATCH):
        _LOG.append((event, str(args)[:200]))


sys.addaudithook(_hook)


@contextlib.contextmanager
def watching():
    """Yields the list of events; only those of the block end up in it."""
    del _LOG[:]
    out = []
    _ON.append(1)
    try:
        yield out
    finally:
        _ON.pop()
        out.extend(_LOG)
        del _LOG[:]
