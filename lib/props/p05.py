"""P05: with keys=True every hashable dict key round-trips."""

import collections
import json

import gen
import iso
import vpfix as F
from api import compare, decode, encode, rand_format, roundtrip
from core import Scenario, check

RULE = (
    "Seeded dictionaries whose keys are scalars, tuples, frozensets, enums, dates, instances, reserved tag names and strings "
    "that look like encoded keys, mixed freely with plain keys, nested, subclassed and sharing objects between keys and "
    "values; encoded and decoded with keys=True and walked with the graph oracle. Distinct by key types and graph shape."
)
REQUIRED = ("keys_checked", "reserved_keys", "objects_shared_with_keys", "nodes_compared")
ASSUMPTIONS = ["keys that are instances of str subclasses count as strings", "keys are hashable by value before and after decoding", "order of keys is compared among keys of the same kind (plain or encoded)"]


def key(r, depth=2):
    k = r.randrange(16)
    if k < 3:
        return gen.rkey(r)
    if k == 3:
        return r.choice(gen.TAGS)
    if k == 4:
        return r.choice(("json://", 'json://"x"', "json://1", "json://{}", "json://json://1", "json:/", "json//x", "JSON://1", 'json://"json://1"', "json://null", 'json://{"py/id": 1}'))
    if k < 9:
        return gen.hashable_atom(r)
    if k == 9:
        return gen.hashable(r, depth)
    if k == 10:
        return r.choice((F.Color.RED, F.Color.BLUE, F.IntColor.ONE, F.Perm.R, int, F.Plain, len, F.module_function, None, True))
    if k == 11:
        return F.ValueObj(r.randrange(10**6), r.choice((None, 1, [1], "x")))
    if k == 12:
        return F.FrozenDC(gen.hashable_atom(r), gen.hashable_atom(r))
    if k == 13:
        return r.choice((F.NT(gen.hashable_atom(r), 1), F.IntSub(gen.rint(r)), F.BytesSub(gen.rbytes(r)), F.TupleSubSlots((1, gen.rint(r))), F.FrozenSetSub([gen.rint(r)])))
    if k == 14:
        while True:
            v = gen.stdlib_value(r)
            try:
                hash(v)
            except TypeError:
                continue
            if v == v and not isinstance(v, complex):
                return v
    return (gen.hashable_atom(r), r.choice((F.Color.RED, F.ValueObj(r.randrange(99)), F.FrozenDC(1, 2), (1, (2,)))))


def rdict(r, n=None, value=None):
    out = {}
    for _ in range(r.randrange(0, 8) if n is None else n):
        k = key(r)
        if k in out or any(k == o for o in out):
            continue
        out[k] = value(r) if value else gen.builtin(r, 2, 3)
    return out


def split_order(d):
    plain = [k for k in d if type(k) is str]
    return plain, [k for k in d if type(k) is not str]


def _check_order(a, b):
    for x, y in zip(split_order(a), split_order(b)):
        check(len(x) == len(y) and all(iso.differs(p, q) is None for p, q in zip(x, y)), "order of keys changed", want=x, got=y)


def flat(r, mon):
    v = rdict(r, r.choice((1, 1, 2, 4, 10, 30)))
    j, d = roundtrip(mon, v, {"keys": True, **rand_format(r)}, {"keys": True}, order=False)
    _check_order(v, d)
    mon.event("keys_checked", len(v))
    mon.event("reserved_keys", sum(k in gen.TAGS for k in v if isinstance(k, str)))
    mon.sig("flat", tuple(type(k).__name__ if type(k) is not str else "s" if k not in gen.TAGS else k for k in v), iso.shape(list(v)))
    mon.sample(j)


def each_key(r, mon):
    """One key of interest between plain neighbours, in several containers."""
    k = key(r)
    tail = [1]
    plain = {"a": tail, k: [2, tail], "z": tail}
    if len(plain) != 3:
        return
    forms = [plain, [plain, tail], {"n": {k: {k: tail}}, "t": tail}, (plain, tail)]
    if not isinstance(k, str) or k not in ("__dict__", "default_factory"):
        sub = F.DictSub()
        sub["a"] = tail
        sub[k] = [3]
        # instances of dict subclasses write reserved names as their own tags
        if not (isinstance(k, str) and k in gen.TAGS):
            forms.append([sub, tail])
        od = collections.OrderedDict([("a", tail), (k, [3]), ("b", tail)])
        forms.append([od, tail])
        if not (isinstance(k, str) and k in gen.TAGS):
            dd = collections.defaultdict(list)
            dd[k].append(1)
            dd["a"] = tail
            forms.append([dd, tail])
    o = F.Plain()
    o.d = plain
    o.t = tail
    forms.append(o)
    forms.append(F.DC({k: 1}, {k: 2}, [{k: 3}, tail]))
    for f in forms:
        roundtrip(mon, f, {"keys": True}, {"keys": True}, order=False)
        mon.event("keys_checked")
    if isinstance(k, str) and k in gen.TAGS:
        mon.event("reserved_keys")
    mon.sig("each", type(k).__name__, iso.shape(k), repr(k)[:30] if isinstance(k, str) else "")


def shared(r, mon):
    """Objects used both as keys and values, in several dicts."""
    objs = [F.ValueObj(i, [i]) for i in range(r.randrange(1, 5))] + [F.FrozenDC(("f", i), None) for i in range(r.randrange(0, 3))]
    dicts = []
    for _ in range(r.randrange(1, 5)):
        d = {}
        for _ in range(r.randrange(1, 6)):
            k = r.choice(objs) if r.random() < 0.6 else (r.choice(objs), 1) if r.random() < 0.4 else key(r)
            if any(k == o for o in d):
                continue
            d[k] = r.choice(objs) if r.random() < 0.5 else r.choice(dicts) if dicts and r.random() < 0.3 else [r.choice(objs)]
        dicts.append(d)
    v = [*dicts, *objs, dicts[0]] if r.random() < 0.5 else [objs[0], dicts]
    roundtrip(mon, v, {"keys": True}, {"keys": True}, order=False)
    mon.event("objects_shared_with_keys", len(objs))
    mon.event("keys_checked", sum(map(len, dicts)))
    mon.sig("shared", iso.shape(v))


def graph(r, mon):
    """Non-string keys inside arbitrary graphs."""

    def keyfn(r):
        return gen.rkey(r) if r.random() < 0.5 else r.choice((gen.hashable_atom(r), r.choice(gen.TAGS), F.Color.RED, gen.hashable(r)))

    kinds = ("list", "dict", "dict2", "tuple", "plain", "dataclass", "slots", "node", "objset", "listsub", "valueobj", "deque", "reduce", "getset", "userdict")
    g = gen.Graph(r, kinds=kinds, share=0.25, cycles=True, budget=25, keyfn=keyfn)
    v = g.make(4)
    roundtrip(mon, v, {"keys": True}, {"keys": True}, order=False)
    mon.event("keys_checked")
    mon.sig("graph", iso.shape(v))


class Owner:
    """Holds its dict as a constructor argument, so the dict refers to an object that is still being built."""

    def __new__(cls, m):
        self = object.__new__(cls)
        self.m = m
        return self

    def __getnewargs__(self):
        return (self.m,)

    def __getstate__(self):
        return None


def unfinished(r, mon):
    """Values under object keys that refer to an object under construction."""
    m = rdict(r, r.choice((1, 2, 4)), lambda r: gen.ratom(r))
    o = Owner(m)
    ks = r.sample(list(m), r.randrange(1, len(m) + 1))
    how = {}
    for k in ks:
        how[k] = r.choice(("direct", "list", "dict"))
        m[k] = {"direct": o, "list": [o], "dict": {"v": o}}[how[k]]
    doc = r.choice((o, [o, o], {"o": o, "m": m}))
    j = encode(mon, doc, keys=True)
    d = decode(mon, j, keys=True)
    got = d[0] if isinstance(d, list) else d["o"] if isinstance(d, dict) else d
    check(type(got) is Owner and len(got.m) == len(m), "wrong object", got=got, document=j)
    for k in ks:
        mates = [v for q, v in got.m.items() if type(q) is type(k) and iso.differs(k, q) is None]
        check(mates, "key lost", key=k, document=j)
        deep = [v if how[k] == "direct" else v[0] if isinstance(v, list) else v["v"] if type(v) is dict else v for v in mates]
        check(any(x is got for x in deep), "the value under a key does not lead to its object", key=k, got=deep[0], document=j)
        mon.event("keys_checked")
    mon.sig("unf", tuple(sorted(type(k).__name__ + how[k] for k in ks)), type(doc).__name__)


def nested_dicts(r, mon):
    """Deep nesting of escaped keys."""
    v = leaf = [1]
    for i in range(r.randrange(1, 12)):
        v = {key(r): v, "leaf": leaf} if r.random() < 0.7 else {(i, "x"): v, 2: leaf}
    roundtrip(mon, [v, leaf], {"keys": True}, {"keys": True}, order=False)
    mon.event("keys_checked")
    mon.sig("nested", iso.shape(v))


def options(r, mon):
    """keys=True together with other options."""
    v = rdict(r, 5)
    tail = [1]
    top = [v, {1: tail, "t": tail}]
    kw = r.choice(({"make_refs": False}, {"use_base85": True}, {"indent": 2}, {"max_depth": 50}, {"numeric_keys": False}, {"warn": True}))
    j = encode(mon, top, keys=True, **kw)
    compare(mon, top, decode(mon, j, keys=True), j, order=False, ident="make_refs" not in kw)
    mon.event("keys_checked", len(v))
    mon.sig("opts", tuple(kw), tuple(type(k).__name__ for k in v))


def plain_json_text(r, mon):
    """In the document every key is a string, and plain strings stay readable."""
    v = rdict(r, 6)
    doc = json.loads(encode(mon, v, keys=True))
    for k in v:
        if type(k) is str and k not in gen.TAGS and not k.startswith("json://"):
            check(k in doc, "plain key was rewritten", key=k, doc=list(doc))
    check(len(doc) == len(v), "number of keys changed", want=list(v), got=list(doc))
    mon.event("keys_checked", len(v))
    mon.sig("text", tuple(type(k).__name__ for k in v))


SCENARIOS = [
    Scenario("flat", flat, 10000),
    Scenario("each_key", each_key, 6000),
    Scenario("shared", shared, 5000),
    Scenario("graph", graph, 10000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("unfinished", unfinished, 3000),
    Scenario("nested_dicts", nested_dicts, 3000),
    Scenario("options", options, 2000),
    Scenario("plain_json_text", plain_json_text, 2000),
]
