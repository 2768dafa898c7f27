"""P14: the JSON backends are interchangeable."""

import json as stdjson

import gen
import iso
import jsonpickle
from api import compare, decode, encode
from core import Scenario, Violation, check, short
from jsonpickle import backend as B

RULE = (
    "Random object graphs and builtin values; every document written with each of json, simplejson and ujson (as backend= and as "
    "the preferred backend, with random formatting) is decoded with each of them and compared with the original. Own backend "
    "objects record which text passes through them while a counting global backend must stay untouched. Distinct by graph shape and options."
)
REQUIRED = ("sorted_documents", "slots_refused", "pairs_decoded", "custom_backend_calls", "preferred_switches", "key_documents_seen", "yaml_documents")
ASSUMPTIONS = ["the backends themselves are correct", "keys are text without lone surrogates where ujson is involved as only backend"]

NAMES = ("json", "simplejson", "ujson")
BACKENDS = {}


def backends():
    if not BACKENDS:
        for n in NAMES:
            b = B.JSONBackend()
            b.set_preferred_backend(n)
            BACKENDS[n] = b
    return BACKENDS


def value(r):
    if r.random() < 0.4:
        return gen.builtin(r, depth=4)
    return gen.Graph(r, share=0.25, budget=r.choice((5, 20))).make(4)


FORMATS = ({}, {}, {"indent": 2}, {"indent": 0}, {"separators": (",", ":")}, {"separators": (", ", ": ")}, {"use_base85": True}, {"indent": 4, "separators": (",", ": ")})


def pairs(r, mon):
    v = value(r)
    kw = dict(r.choice(FORMATS))
    dec = {}
    if r.random() < 0.3:
        kw["keys"] = dec["keys"] = True
    bs = backends()
    for n in NAMES:
        j = encode(mon, v, backend=bs[n], **kw)
        for m in NAMES:
            d = decode(mon, j, backend=bs[m], **dec)
            compare(mon, v, d, j, what=f"written with {n}, read with {m}:")
            mon.event("pairs_decoded")
    mon.sig("pairs", tuple(sorted(kw)), iso.shape(v, 80))


def preferred(r, mon):
    """The same with the process-wide preferred backend switched between calls."""
    v = value(r)
    order = [r.choice(NAMES) for _ in range(4)]
    try:
        jsonpickle.set_preferred_backend(order[0])
        j = encode(mon, v)
        for n in order[1:]:
            jsonpickle.set_preferred_backend(n)
            mon.event("preferred_switches")
            d = decode(mon, j)
            compare(mon, v, d, j, what=f"preferred backends {order}:")
            j = encode(mon, v)
    finally:
        for n in reversed(("simplejson", "json", "ujson")):
            jsonpickle.set_preferred_backend(n)
    mon.sig("pref", tuple(order), iso.shape(v, 40))


MARK = "\ufeff"


class Recorder:
    """A minimal backend: everything passes through here."""

    def __init__(self):
        self.written, self.read = [], []

    def encode(self, obj, indent=None, separators=None):
        s = stdjson.dumps(obj, indent=indent, separators=separators)
        self.written.append(s)
        return s + MARK

    def decode(self, string):
        check(string[-1:] == MARK, "text reached the backend that it did not write", text=short(string))
        self.read.append(string)
        return stdjson.loads(string[:-1])

    dumps, loads = encode, decode


class Forbidden:
    """Loaded as the preferred global backend: must not be used."""

    calls = 0

    @classmethod
    def dumps(cls, *a, **k):
        cls.calls += 1
        raise ValueError("global backend used")

    loads = dumps


def custom(r, mon):
    """backend= does all the JSON work of the call, including keys."""
    import sys

    v = value(r)
    kw = {"keys": True} if r.random() < 0.6 else {}
    if kw and r.random() < 0.5:
        v = {"plain": v, (1, "a"): v, (2, (3,)): [v]}
    rec = Recorder()
    sys.modules["vpforbidden"] = Forbidden
    jsonpickle.load_backend("vpforbidden")
    jsonpickle.set_preferred_backend("vpforbidden")
    n = Forbidden.calls
    try:
        j = encode(mon, v, backend=rec, **kw)
        written = len(rec.written)
        d = decode(mon, j, backend=rec, **kw)
    finally:
        jsonpickle.remove_backend("vpforbidden")
        for name in reversed(("simplejson", "json", "ujson")):
            jsonpickle.set_preferred_backend(name)
    check(Forbidden.calls == n, "the global backend was used although another was given", value=v)
    check(written >= 1 and rec.read, "the given backend was not used", value=v)
    check(j == rec.written[-1] + MARK, "the result is not what the backend returned", got=j)
    compare(mon, v, d, j, what="own backend:")
    mon.event("custom_backend_calls", len(rec.written) + len(rec.read))
    mon.event("key_documents_seen", written - 1)
    mon.sig("custom", written, iso.shape(v, 60))


def options(r, mon):
    """Encoder options change the spelling only."""
    v = value(r)
    b = B.JSONBackend()
    name = r.choice(("json", "simplejson"))
    b.set_preferred_backend(name)
    opt = r.choice(({"ensure_ascii": False}, {"indent": 3}, {"separators": (" ,", " :")}, {"ensure_ascii": False, "indent": 1}, {"sort_keys": False}))
    b.set_encoder_options(name, **opt)
    j = encode(mon, v, backend=b)
    for m in ("json", "simplejson"):
        d = decode(mon, j, backend=backends()[m])
        compare(mon, v, d, j, what=f"{name} with {opt}, read with {m}:")
        mon.event("pairs_decoded")
    mon.sig("opt", name, tuple(opt), iso.shape(v, 60))


SORTED = ["list", "dict", "tuple", "plain", "slots", "dataclass", "listsub", "getset", "namedtuple", "private", "reduce", "deque", "set"]


def in_order(pairs):
    names = [k for k, _ in pairs]
    check(names == sorted(names), "the members are not sorted", names=names)
    return dict(pairs)


def sorted_keys(r, mon):
    """sort_keys=True: the same document with its members sorted, and the same data."""
    g = gen.Graph(r, kinds=[k for k in SORTED if k in gen.KINDS], share=0, cycles=False, budget=r.choice((5, 20)), stdlib=False)
    v = g.value(4)
    name = r.choice(NAMES)
    b = B.JSONBackend()
    b.set_preferred_backend(name)
    plain = encode(mon, v, backend=b)
    if '"py/id"' in plain:
        return
    b.set_encoder_options(name, sort_keys=True)
    warn = r.random() < 0.5
    refused = warn and hasattr(v, "__slots__")
    try:
        j = encode(mon, v, backend=b, warn=warn)
    except TypeError as e:
        check(refused and "sort" in str(e), f"sort_keys=True raised {e}", value=v)
        mon.event("slots_refused")
        return
    check(not refused, "an object with __slots__ was accepted with sort_keys and warn", value=v)
    # ujson and simplejson hand over to another backend for lone surrogates, NaN and Infinity
    if name == "json" or name == "simplejson" and "NaN" not in plain and "Infinity" not in plain:
        stdjson.loads(j, object_pairs_hook=in_order)
    a, b = (stdjson.dumps(stdjson.loads(t), sort_keys=True) for t in (plain, j))
    check(a == b, "sort_keys=True changed more than the order", document=plain, got=j)
    compare(mon, v, decode(mon, j, backend=backends()[r.choice(NAMES)]), j, order=False)
    mon.event("sorted_documents")
    mon.sig("sorted", name, iso.shape(v, 60))


def _sorted_references():
    b = B.JSONBackend()
    b.set_preferred_backend("json")
    b.set_encoder_options("json", sort_keys=True)
    first, second = [1], [2]
    d = jsonpickle.decode(jsonpickle.encode({"b": first, "a": second, "c": first}, backend=b))
    check(d == {"b": [1], "a": [2], "c": [1]}, "with sort_keys=True a reference leads to another object", got=short(d))


def yaml_atom(r):
    return r.choice((None, True, False, r.randrange(-1000, 1000), 2**70, "", "a", "x y", "1", "true", "null", "a: b", "- x", "'q'", '"', "~", "2001-01-01", "multi\nline", "#", "{}", 1.5, -0.25))


def yaml(r, mon):
    """The yaml extension: documents are read back by the backend that wrote them."""
    import jsonpickle.ext.yaml as Y

    b = B.JSONBackend()
    check(Y.register(b) is True, "yaml backend could not be loaded")
    b.set_preferred_backend("yaml")
    g = gen.Graph(r, kinds=("list", "dict", "plain", "dataclass", "node", "slots", "listsub", "tuple", "getset"), share=0.3, budget=15, stdlib=False, atom=yaml_atom, keyfn=lambda r: r.choice(("a", "b", "k1", "x y")))
    v = g.make(4)
    j = encode(mon, v, backend=b)
    d = decode(mon, j, backend=b)
    compare(mon, v, d, j, what="yaml:")
    mon.event("yaml_documents")
    mon.sig("yaml", iso.shape(v, 60))


SCENARIOS = [
    Scenario("pairs", pairs, 6000),
    Scenario("huge", gen.huge(pairs), 16, 200),
    Scenario("preferred", preferred, 4000),
    Scenario("custom", custom, 6000),
    Scenario("options", options, 4000),
    Scenario("sorted_keys", sorted_keys, 4000),
    Scenario("yaml", yaml, 1000),
]
FINDINGS = {"sorted-references": _sorted_references}
