"""P33: documents do not depend on the process that writes or reads them."""

import json
import os
import select
import subprocess

import iso
import peer
from api import quiet
from core import Scenario, check

RULE = (
    "The same values, built from the same seed in different processes, are encoded and the texts compared; each process decodes the "
    "other's text and compares the result with its own value. Processes differ in hash seed, time zone, locale, directory, "
    "optimisation, memory layout and the order of imports. Sets are only compared as decoded values. Distinct by value shape, "
    "options and process."
)
REQUIRED = ("documents_exchanged", "texts_compared", "set_documents", "arrays", "frames", "made_classes", "processes_started")
ASSUMPTIONS = ["the same Python and libraries in all processes"]

# name, environment, interpreter options, modules imported first
PEERS = (
    ("hash1", {"PYTHONHASHSEED": "1"}, [], []),
    ("tokyo", {"PYTHONHASHSEED": "7", "TZ": "Asia/Tokyo", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, [], ["decimal", "jsonpickle"]),
    ("optimised", {"PYTHONHASHSEED": "99", "TZ": "America/New_York", "PYTHONMALLOC": "malloc"}, ["-OO"], ["vpfix"]),
    ("imports", {"PYTHONHASHSEED": "random", "PYTHONMALLOC": "pymalloc_debug", "PYTHONDEVMODE": "0"}, [], ["yaml", "sqlite3", "pandas", "jsonpickle.ext.numpy"]),
)
_running = {}


def ask(mon, n, q):
    pid = os.getpid()
    p = _running.get((pid, n))
    if p is None:
        name, env, flags, first = PEERS[n]
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        e.update(env, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = _running[pid, n] = subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", *flags, peer.__file__, *first], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8", env=e, cwd="/")  # fmt: skip
        mon.event("processes_started")
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    ready = select.select([p.stdout], [], [], 120)[0]
    line = p.stdout.readline() if ready else ""
    if not line:
        p.kill()
        del _running[pid, n]
        check(False, f"process {PEERS[n][0]} gave no answer", request=q, status=p.wait())
    return json.loads(line)


WHAT = ("graph", "graph", "graph", "sets", "made", "stdlib")


def exchange(r, mon, what):
    kw = {}
    for name, v, p in (("keys", True, 0.3), ("use_base85", True, 0.3), ("indent", 2, 0.2)):
        if r.random() < p:
            kw[name] = v
    if what in ("pandas", "numpy"):
        kw.pop("keys", None)
    q = {"what": what, "seed": r.getrandbits(60), "options": kw}
    with quiet():
        mine = peer.answer(q)
    check(mine["error"] is None, f"{what}: {mine['error']}", request=q)
    mon.last = mine["doc"]
    for n in r.sample(range(len(PEERS)), 2):
        theirs = ask(mon, n, {**q, "doc": mine["doc"]})
        check(theirs["error"] is None, f"{what}: process {PEERS[n][0]} reads the document differently: {theirs['error']}", document=mine["doc"], detail=theirs["detail"])
        if what == "sets":
            mon.event("set_documents")
        else:
            check(theirs["doc"] == mine["doc"], f"{what}: process {PEERS[n][0]} writes another document", here=mine["doc"], there=theirs["doc"])
            mon.event("texts_compared")
        with quiet():
            back = peer.answer({**q, "doc": theirs["doc"]})
        check(back["error"] is None, f"{what}: the document of process {PEERS[n][0]} is read differently here: {back['error']}", document=theirs["doc"], detail=back["detail"])
        mon.event("documents_exchanged", 2)
        mon.event({"numpy": "arrays", "pandas": "frames", "made": "made_classes"}.get(what, "graphs"))
        with quiet():
            mon.sig(what, PEERS[n][0], tuple(sorted(kw)), iso.shape(json.loads(mine["doc"]), 40))


def plain(r, mon):
    exchange(r, mon, r.choice(WHAT))


def arrays(r, mon):
    exchange(r, mon, r.choice(("numpy", "pandas")))


SCENARIOS = [Scenario("plain", plain, 5000), Scenario("arrays", arrays, 1500)]
