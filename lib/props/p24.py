"""P24: objects of classes that cannot be found stay as data, reported as on_missing asks."""

import collections
import json
import random

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, warnings_seen
from core import Scenario, check
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random graphs in which some instances are of classes that do not exist for the decoder (module missing, name missing in the "
    "module, nested name missing); a twin graph built from the same choices has their data as dicts in the same places. Decoded "
    "with every on_missing setting; warnings, callbacks and errors are counted against the document. Distinct by setting and shape."
)
REQUIRED = ("documents", "missing_objects", "warned", "called_back", "errors", "callback_errors", "ignored", "nodes_compared", "shared_missing", "handled_by_name", "data_kept")
ASSUMPTIONS = ["objects of missing classes hold scalars only (see known finding)"]

NAMES = ("vpgone.Gone", "vpgone.sub.Gone", "vpfix.NotThere", "vpfix.Plain.NotThere", "builtins.NotThere", "NotThere", "vpgone.Outer.Inner")


class Gone:
    """Stands for a class that is deleted before decoding."""


def gone_class(name):
    module, _, qual = name.rpartition(".")
    if name in ("vpfix.Plain.NotThere", "vpgone.Outer.Inner"):
        module, qual = name.split(".", 1)
    return type(qual.rpartition(".")[2], (Gone,), {"__module__": module, "__qualname__": qual})


CLASSES = {n: gone_class(n) for n in NAMES if "." in n}


def k_gone(g, depth):
    r = g.r
    name = r.choice(sorted(CLASSES))
    attrs = {gen.safe_name(r): g.atom(r) for _ in range(r.randrange(0, 4))}
    if g.twin:
        o = {"py/object": name, **attrs}
    else:
        o = object.__new__(CLASSES[name])
        o.__dict__.update(attrs)
    g.gone.append(o)
    return g.keep(o, mutable=False)


KINDS = ("list", "dict", "tuple", "plain", "slots", "dataclass", "listsub", "dictsub", "ordered", "default", "node", "getset", "private", "reduced")


def build(seed, twin):
    r = random.Random(seed)
    while True:
        g = gen.Graph(r, share=0.3, budget=r.choice((5, 12, 30)), kinds=[k for k in KINDS if k in gen.KINDS] + ["gone"] * 4, stdlib=False)
        g.twin, g.gone = twin, []
        value = g.make(4)
        if any(gen.in_cycle(x) for x in g.by_args):
            continue
        return value, g


gen.KINDS["gone"] = k_gone


class Boom(Exception):
    pass


class Receiver:
    def __init__(self):
        self.names = []

    def method(self, name):
        self.names.append(name)


def missing_in(doc):
    out, stack = collections.Counter(), [doc]
    while stack:
        x = stack.pop()
        if type(x) is dict:
            if x.get("py/object") in CLASSES:
                out[x["py/object"]] += 1
            stack.extend(x.values())
        elif type(x) is list:
            stack.extend(x)
    return out


def graphs(r, mon):
    seed = r.getrandbits(60)
    x, g = build(seed, False)
    want, g2 = build(seed, True)
    check(len(g.gone) == len(g2.gone), "generator: the twin differs")
    j = encode(mon, x)
    doc = json.loads(j)
    names = missing_in(doc)
    mode = r.choice(("default", "ignore", "warn", "error", "function", "method", "raising", "other", "object"))
    log = Receiver()
    if mode == "default":
        kw = {}
    elif mode in ("ignore", "warn", "error"):
        kw = {"on_missing": r.choice((mode, mode.upper(), mode.title()))}
    elif mode == "function":
        kw = {"on_missing": lambda name: log.names.append(name)}
    elif mode == "method":
        kw = {"on_missing": log.method}
    elif mode == "raising":

        def raising(name):
            log.names.append(name)
            raise Boom(name)

        kw = {"on_missing": raising}
    elif mode == "other":
        kw = {"on_missing": r.choice(("", "whatever"))}
    else:
        kw = {"on_missing": r.choice((None, 3, ["warn"], object()))}
    direct = mode not in ("object",) and r.random() < 0.3
    err = None
    with warnings_seen() as seen:
        try:
            if direct:
                if type(kw.get("on_missing")) is str:
                    kw["on_missing"] = kw["on_missing"].lower()
                got = Unpickler(**kw).restore(json.loads(j))
            else:
                got = decode(mon, j, **kw)
        except (Boom, jsonpickle.errors.ClassNotFoundError) as e:
            err = e
    mon.event("documents")
    mon.event("missing_objects", sum(names.values()))
    texts = [str(w.message) for w in seen]
    if mode == "error":
        check((err is not None) == bool(names), f"on_missing='error' raised {err!r}", document=j)
        if err is not None:
            check(isinstance(err, jsonpickle.errors.ClassNotFoundError) and any(n in str(err) for n in names), f"error does not name the class: {err}", document=j)
            mon.event("errors")
            compare(mon, want, decode(mon, j), j)  # and the next call works
            return mon.sig("error", iso.shape(want, 30))
        check(not texts, "unexpected warnings", warnings=texts)
    elif mode == "raising":
        check((err is not None) == bool(names) and len(log.names) == bool(names), f"callback that raises: {err!r}", called=log.names, document=j)
        if err is not None:
            check(err.args[0] == log.names[0] and err.args[0] in names, "callback got the wrong name", document=j)
            mon.event("callback_errors")
            compare(mon, want, decode(mon, j), j)
            return mon.sig("raising", iso.shape(want, 30))
    else:
        check(err is None, f"raised {err!r}", document=j)
        if mode == "warn":
            check(len(texts) == sum(names.values()) and all(sum(f"{n}!" in t and f" {n}!" in t for t in texts) == c for n, c in names.items()), "warnings do not match the missing classes", document=j, warnings=texts)
            mon.event("warned", len(texts))
        elif mode == "object":
            check(len(texts) == 1, "a useless on_missing was not reported", warnings=texts)
        else:
            check(not texts, "unexpected warnings", warnings=texts, document=j)
        if mode in ("function", "method"):
            check(collections.Counter(log.names) == names, "callbacks do not match the missing classes", document=j, called=log.names)
            mon.event("called_back", len(log.names))
        elif mode in ("default", "ignore", "other"):
            mon.event("ignored", sum(names.values()))
    compare(mon, want, got, j)
    if sum(names.values()) < len(g.gone):
        mon.event("shared_missing")
    mon.sig(mode, direct, iso.shape(want, 30))


class ByName(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        raise AssertionError("flatten was called")

    def restore(self, data):
        return ("handled", data["py/object"], data.get("v"))


def by_name(r, mon):
    """A handler registered by name stands in for the missing class."""
    name = r.choice(sorted(CLASSES))
    v = gen.ratom(r)
    doc = [{"py/object": name, "v": v}, {"py/id": 1}, [1], {"py/id": 2}]
    called = []
    jsonpickle.handlers.registry.register(CLASSES[name], ByName)
    try:
        with warnings_seen() as seen:
            got = decode(mon, json.dumps(doc), on_missing=r.choice(("error", "warn", called.append)))
    finally:
        jsonpickle.handlers.registry.unregister(CLASSES[name])
    want = ("handled", name, json.loads(json.dumps(v)))
    check(type(got[0]) is tuple and not seen and not called, f"handler registered by name was not used: {got!r}")
    compare(mon, want, got[0])
    check(got[1] is got[0] and got[3] is got[2] and got[2] == [1], f"references are off: {got!r}")
    got = decode(mon, json.dumps(doc), on_missing=lambda n: called.append(n))
    check(called == [name] and got[0] == json.loads(json.dumps(doc[0])) or v != v, "after unregistering the class is missing again", called=called)
    mon.event("handled_by_name")
    mon.sig("by_name", name, repr(v))


def data(r, mon):
    """The data stays exactly what it is, whatever tags it contains."""
    n = r.randrange(1, 4)
    doc = [[0]]
    for _ in range(n):
        d = {"py/object": r.choice(NAMES)}
        for k in r.sample(("a", "_b", "py/property", "py/state", "py/newargs", "py/seq", "default_factory", "__dict__", "py/initargs", "", "json://1", "py/other"), r.randrange(0, 4)):
            d[k] = {"z": 1, "y": None} if k == "py/property" else gen.ratom(random.Random(r.random()))
            if d[k] != d[k]:
                d[k] = 0
            if k in ("a", "_b", "default_factory", "") and r.random() < 0.4:
                d[k] = r.choice(({"py/type": "builtins.list"}, {"py/function": "builtins.len"}, {"py/tuple": [1]}, {"py/b64": "YQ=="}, {"py/set": [2]}))
        if r.random() < 0.3:
            d = dict(sorted(d.items(), reverse=True))
        doc.append(d)
    doc += [{"py/id": 1}, [5], {"py/id": len(doc) + 1}]
    kw = {"keys": True} if r.random() < 0.3 else {}
    with warnings_seen():
        got = decode(mon, json.dumps(doc), on_missing=r.choice(("ignore", "warn")), **kw)
    want = json.loads(json.dumps(doc[1 : n + 1]))
    check(got[1 : n + 1] == want and list(map(list, got[1 : n + 1])) == list(map(list, want)), "the data of an object of a missing class changed", document=doc, got=got)
    check(got[n + 1] is got[0] and got[n + 3] is got[n + 2], "references around objects of missing classes are off", document=doc, got=got)
    mon.event("data_kept", n)
    mon.sig("data", json.dumps(doc))


def finding_children():
    a = [1]
    x = object.__new__(CLASSES["vpgone.Gone"])
    x.child = [2]
    got = jsonpickle.decode(jsonpickle.encode([x, a, a]))
    check(got[1] == [1] and got[2] is got[1], f"references after an object of a missing class are off: {got!r}")


FINDINGS = {"missing-children": finding_children}
SCENARIOS = [Scenario("graphs", graphs, 14000), Scenario("huge", gen.huge(graphs), 16, 200), Scenario("by_name", by_name, 1500), Scenario("data", data, 4000)]
