"""P30: what cannot be encoded becomes null in its place, and warn=True says so."""

import io
import random

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, warnings_seen
from core import Scenario, check

RULE = (
    "Random graphs with things that have no encoding (lambdas, open text files, objects whose state cannot be taken, objects whose handler "
    "gives nothing) in list, tuple, attribute and item positions, shared or not; a twin graph has None in those places. The document must "
    "equal the twin's with and without warn, and with warn=True there must be a warning for each such thing and no other. Distinct by "
    "losses and shape."
)
REQUIRED = ("documents", "losses", "warned", "silent", "same_text", "nodes_compared", "shared_losses", "nothing_lost")


class NoState:
    """Like a file descriptor: has __getstate__ but it cannot be called."""

    def __init__(self, n):
        self.n = n

    def __getstate__(self):
        raise TypeError("cannot pickle")

    def __setstate__(self, s):
        raise AssertionError

    def __str__(self):
        return f"<NoState {self.n}>"

    __repr__ = __str__


class Handled:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<Handled {self.n}>"


class NoHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        return None

    def restore(self, data):
        raise AssertionError


def k_lost(g, d):
    r = g.r
    n = len(g.lost)
    # in plain JSON there is also nothing to show of an object without members
    k = r.randrange(7 if g.plain else 4)
    o = (NoState(n), Handled(n), io.TextIOWrapper(io.BytesIO()), NoState(n), memoryview(b"ab"), object(), ...)[k]
    if g.twin:
        g.lost.append(None)
        return None
    g.lost.append(o)
    return o


def k_lambda(g, d):
    """Lambdas in lists; as items and attributes they are left out."""
    fn = None if g.twin else lambda: None
    g.lost.append(fn)
    k = g.r.randrange(8)
    if k == 0:
        o = g.keep((fn, g.value(d)), mutable=False)
    elif k == 1:
        o = (g.value(d), fn, fn)
    elif k == 2:
        o = {fn}
    elif k == 3:
        o = g.keep(F.ListSub([g.value(d), fn]))
    elif k == 4:
        o = g.keep(F.NT(fn, g.value(d)), mutable=False, target=False)
    else:
        o = g.keep([fn, g.value(d)] if g.r.random() < 0.5 else [g.value(d), fn])
    g.alive.append(o)
    g.holder[id(fn)] = id(o)
    return o


def k_function(g, d):
    """Functions without a name are left out as items and attributes; those with one are kept."""
    r = g.r
    o = g.keep(r.choice((dict, F.Plain))(), mutable=False)
    items = o if isinstance(o, dict) else o.__dict__
    for i in range(r.randrange(1, 4)):
        k = f"k{i}" if o is not items or not g.any_keys or r.random() < 0.5 else (i, "t")
        kind = r.randrange(3)
        if kind == 0 and not g.plain:
            items[k] = r.choice((F.module_function, len, F.Plain))
        elif kind == 1:
            if not g.twin:
                items[k] = lambda: None
        else:
            items[k] = g.value(d)
    return o


gen.KINDS["function"] = k_function
gen.KINDS["lost"] = k_lost
gen.KINDS["lambda"] = k_lambda


def build(seed, twin, share, plain, keys):
    r = random.Random(seed)
    kinds = ["list", "dict", "tuple", "plainargs", "node", "slots", "listsub", "dictsub", "getset", "dataclass", "ordered"]
    if r.random() < 0.85:
        kinds += ["lost"] * 3 + ["lambda", "function"]
    while True:
        g = gen.Graph(r, share=share, cycles=share > 0, budget=r.choice((4, 10, 25)), kinds=kinds, stdlib=False)
        g.plain, g.any_keys, g.twin, g.lost, g.holder, g.alive = plain, keys, twin, [], {}, []
        x = [g.make(4), g.value(2)]
        if any(gen.in_cycle(v) for v in g.by_args):
            continue
        if g.lost and r.random() < 0.3:
            # one of them again
            x.append(g.lost[0])
        return x, g


MODES = ({}, {}, {}, {"keys": True}, {"unpicklable": False}, {"max_depth": 100})


def graphs(r, mon):
    kw = r.choice(MODES)
    share = 0 if kw.get("unpicklable") is False else 0.3
    seed = r.getrandbits(60)
    plain = kw.get("unpicklable") is False
    x, g = build(seed, False, share, plain, "keys" in kw)
    twin, g2 = build(seed, True, share, plain, "keys" in kw)
    check(len(g.lost) == len(g2.lost), "generator: the twin differs")
    below = gen.reachable(x)
    lost = [o for o in g.lost if g.holder.get(id(o), id(o)) in below or o is x[-1]]
    # the default is not to warn
    said = r.choice(({"warn": True}, {"warn": True}, {"warn": False}, {}))
    warn = said.get("warn", False)
    jsonpickle.handlers.register(Handled, NoHandler)
    try:
        with warnings_seen() as seen:
            j = encode(mon, x, **said, **kw)
        want = encode(mon, twin, **kw)
    finally:
        jsonpickle.handlers.unregister(Handled)
    check(j == want, "something that cannot be encoded changed more than its own place", document=j, expected=want, mode=kw)
    texts = [str(w.message) for w in seen]
    if not warn:
        check(not texts, "warned without being asked to", warnings=texts)
        mon.event("silent")
    elif not lost:
        check(not texts, "warned although nothing is lost", warnings=texts)
        mon.event("nothing_lost")
    else:
        # simple JSON leaves out e.g. the attributes of list subclasses
        for o in lost if kw.get("unpicklable", True) else ():
            check(any(str(o) in t for t in texts), f"no warning for {o}", warnings=texts, document=j)
            mon.event("warned")
        for t in texts:
            check(any(str(o) in t for o in lost), f"unfounded warning {t!r}")
    mon.event("same_text")
    mon.event("documents")
    mon.event("losses", len(lost))
    if len(x) == 3:
        mon.event("shared_losses")
    if kw.get("unpicklable", True):
        compare(mon, twin, decode(mon, j, **({"keys": True} if kw.get("keys") else {})), j, order=not kw.get("keys"))
    mon.sig(str(kw), warn, tuple(type(o).__name__ for o in lost), iso.shape(twin, 30))


SCENARIOS = [Scenario("graphs", graphs, 14000), Scenario("huge", gen.huge(graphs), 16, 200)]
