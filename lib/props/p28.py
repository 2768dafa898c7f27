"""P28: options that do not concern the data leave documents and results as they are."""

import datetime
import json
import re
import uuid

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, warnings_seen
from core import Scenario, check
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random graphs encoded with and without options that have nothing to do in them (warn, fail_safe, max_depth and max_iter beyond the "
    "data, use_decimal without decimals, keys and numeric_keys without such keys, backend= the global one, handler_context without "
    "handlers), and decoded with and without options (classes, on_missing, safe, handler_context, keys, backend, context). Texts and "
    "graphs must be equal and nothing may be called or warned about. With include_properties the decoded graph must be the original and "
    "the properties listed must have their values. Distinct by options and shape."
)
REQUIRED = ("property_objects", "readonly_left_out", "readonly_kept", "documents", "nodes_compared", "same_text", "encode_options", "decode_options", "with_properties", "property_values", "references_written", "combined_options")


class NeverCalled:
    def __init__(self):
        self.calls = []

    def fn(self, *a, **k):
        self.calls.append((a, k))
        raise AssertionError("called without need")


def nesting(j):
    """How many levels a document has."""
    depth, level = 0, [json.loads(j)]
    while level:
        depth += 1
        level = [y for x in level if isinstance(x, (list, dict)) for y in (x.values() if isinstance(x, dict) else x)]
    return depth


def encode_options(r, never, plain_keys, j=None):
    kw = {}
    if r.random() < 0.4:
        kw["warn"] = True
    if r.random() < 0.4:
        kw["fail_safe"] = never.fn
    if r.random() < 0.4:
        kw["max_depth"] = nesting(j) + r.choice((0, 1)) if j is not None and r.random() < 0.5 else r.choice((1000, 10**9))
    if r.random() < 0.4:
        kw["max_iter"] = r.choice((0, 1, 2, 1000, 10**9))  # there are no iterators
    if r.random() < 0.3:
        kw["use_decimal"] = True
    if plain_keys and r.random() < 0.3:
        kw["numeric_keys"] = True
    if plain_keys and r.random() < 0.4:
        kw["keys"] = True
    if r.random() < 0.3:
        kw["backend"] = jsonpickle.backend.json
    if r.random() < 0.3:
        kw["handler_context"] = object()
    if r.random() < 0.2:
        kw["indent"] = None
        kw["separators"] = None
    return kw


def decode_options(r, never):
    kw = {}
    if r.random() < 0.4:
        kw["on_missing"] = r.choice(("warn", "error", "ignore", never.fn, "WARN"))
    if r.random() < 0.3:
        kw["classes"] = r.choice((NeverCalled, [NeverCalled, F.Plain], {"x.y": NeverCalled}, [], (), {}))
    if r.random() < 0.3:
        kw["safe"] = r.choice((True, False))
    if r.random() < 0.3:
        kw["handler_context"] = object()
    if r.random() < 0.3:
        kw["backend"] = jsonpickle.backend.json
    if r.random() < 0.2:
        kw["handle_readonly"] = True
    return kw


TEXT_KEYS = ["list", "dict", "tuple", "plain", "slots", "dataclass", "listsub", "set", "node", "getset", "namedtuple", "private", "reduce", "deque", "exception"]


def inert(r, mon):
    plain = r.random() < 0.4
    more = {"kinds": TEXT_KEYS, "keyfn": gen.safe_name} if plain else {"kinds": sorted(set(gen.KINDS) - {"unpicklable"})}
    g = gen.Graph(r, share=0.3, budget=r.choice((6, 15, 40)), stdlib=False, **more)
    x = g.make(4)
    never = NeverCalled()
    j = encode(mon, x)
    kw = encode_options(r, never, plain, j if plain else None)
    with warnings_seen() as seen:
        j2 = encode(mon, x, **kw)
    check(j2 == j, f"options {sorted(kw)} changed the document", document=j, got=j2)
    check(not never.calls and not [w for w in seen if "jsonpickle" in str(w.message)], f"options {sorted(kw)} had effects", warnings=[str(w.message) for w in seen])
    mon.event("same_text")
    mon.event("encode_options", len(kw))
    dkw = decode_options(r, never)
    if plain and r.random() < 0.3:
        dkw["keys"] = True
    with warnings_seen() as seen:
        got = decode(mon, j, **dkw)
    check(not never.calls and not [w for w in seen if "jsonpickle" in str(w.message) or "npickler" in str(w.message)], f"options {sorted(dkw)} had effects", warnings=[str(w.message) for w in seen], document=j)
    compare(mon, x, got, j)
    mon.event("decode_options", len(dkw))
    mon.event("documents")
    mon.sig(tuple(sorted(kw)), tuple(sorted(dkw)), iso.shape(x, 25))


BASE = {"unpicklable": False, "make_refs": False, "keys": True, "max_depth": (0, 1, 2, 4), "max_iter": (0, 1, 3), "use_base85": True, "indent": (1, None), "numeric_keys": True}


def k_unpicklable(g, d):
    return g.r.choice(([lambda: 0, g.value(d)], (lambda: 0, 1), {"f": lambda: 0}))


gen.KINDS["unpicklable"] = k_unpicklable
MIXED = ["list", "dict", "tuple", "plain", "slots", "dataclass", "listsub", "set", "getset", "namedtuple", "private", "reduce", "deque", "exception", "unpicklable"]


def combined(r, mon):
    """The same next to options that do something."""
    base = {k: r.choice(v) if type(v) is tuple else v for k, v in BASE.items() if r.random() < 0.25}
    g = gen.Graph(r, share=0.3, cycles=False, budget=r.choice((4, 10, 25)), stdlib=False, kinds=MIXED)
    x = [g.value(3) for _ in range(r.randrange(1, 4))]
    never = NeverCalled()
    more = {k: v for k, v in encode_options(r, never, False).items() if k in ("warn", "fail_safe", "use_decimal", "backend", "handler_context") and k not in base}
    with warnings_seen() as seen:
        j = encode(mon, x, **base)
        check(not seen, "warned without being asked to", warnings=[str(w.message) for w in seen])
        j2 = encode(mon, x, **base, **more)
    check(j2 == j, f"options {sorted(more)} changed a document made with {sorted(base)}", document=j, got=j2)
    check(not never.calls, f"options {sorted(more)} had effects")
    mon.event("same_text")
    mon.event("combined_options", len(more))
    mon.sig("combined", tuple(sorted(base)), tuple(sorted(more)), iso.shape(x, 25))


class Base:
    """Properties of all sorts; _want gives the ones with simple values."""

    constant = 5
    listed = [1, {"a": None}]
    _plain = None

    @property
    def double(self):
        return 2 * len(vars(self))

    @property
    def text(self):
        return "é" + type(self).__name__

    @property
    def itself(self):
        return self

    @property
    def made(self):
        o = F.Plain()
        o.why = [1]
        return o

    @property
    def gathered(self):
        """Containers with other things than JSON data."""
        return [self, vars(self).get("child"), {"s": {1, b"x"}}, F.Plain()]

    @property
    def unique(self):
        return {1, "a"}

    @property
    def raw(self):
        return b"\xff"

    @property
    def named(self):
        return {"k": (1, [vars(self).get("a")]), "o": self}

    @property
    def _hidden_value(self):
        return None

    def method(self):
        raise AssertionError("a method was called")

    @staticmethod
    def static():
        raise AssertionError("a method was called")

    @property
    def member(self):
        """An object that is also an attribute."""
        child = vars(self).get("child")
        return None if type(child) in (list, dict, tuple, set, bytes) else child

    @property
    def plain(self):
        """Plain data that is also an attribute: given by value."""
        return self._plain

    def _want(self):
        return {"plain": self._plain, "constant": 5, "listed": [1, {"a": None}], "double": self.double, "text": self.text, "_hidden_value": None}


class Derived(Base):
    constant = "other"

    @property
    def double(self):
        return [len(vars(self))] * 2

    def _want(self):
        return {**super()._want(), "constant": "other", "double": self.double}


class Slotted:
    __slots__ = ("a", "child", "_n")

    @property
    def has_child(self):
        return hasattr(self, "child")

    def _want(self):
        return {"has_child": self.has_child}


class SubSlotted(Slotted):
    __slots__ = ("z",)

    @property
    def more(self):
        return {"k": [True]}

    def _want(self):
        return {**super()._want(), "more": {"k": [True]}}


class Stateful(Base):
    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, s):
        self.__dict__.update(s)


class Listed(list):
    @property
    def first(self):
        return len(self)

    def _want(self):
        return {"first": len(self)}


class Mapped(dict):
    @property
    def size(self):
        return len(self)

    def _want(self):
        return {"size": len(self)}


CLASSES = (Base, Derived, Slotted, SubSlotted, Stateful, Listed, Mapped)


def k_props(g, d):
    r = g.r
    c = r.choice(CLASSES)
    o = g.keep(c(), mutable=c is not Mapped)
    if isinstance(o, list):
        o.extend(g.value(d) for _ in range(r.randrange(0, 3)))
    elif isinstance(o, dict):
        o.update({f"k{i}": g.value(d) for i in range(r.randrange(0, 3))})
    else:
        for n in ("a", "child"):
            if r.random() < 0.7:
                setattr(o, n, g.value(d))
    return o


gen.KINDS["props"] = k_props


def objects_in(doc):
    out, stack = [], [doc]
    while stack:
        v = stack.pop()
        if type(v) is dict:
            if "py/object" in v:
                out.append(v)
            stack.extend(v.values())
        elif type(v) is list:
            stack.extend(v)
    return out


def value_atom(r):
    """Now and then a value with a handler of its own."""
    if r.random() < 0.3:
        return r.choice((lambda: datetime.date(2020, 1, r.randrange(1, 28)), lambda: datetime.datetime(2020, 1, 2, r.randrange(24)), lambda: uuid.UUID(int=r.getrandbits(128)), lambda: datetime.time(r.randrange(24)), lambda: re.compile("a+"), lambda: F.Color.RED, lambda: F.IntPerm(r.randrange(4))))()
    return gen.ratom(r)


class Locked:
    """Members the class does not let anyone set."""

    _base = ()

    def __init__(self, members):
        self.__dict__.update(members)

    @property
    def area(self):
        return 7

    @property
    def label(self):
        return "computed"

    @property
    def open(self):
        return self.__dict__.get("open")

    @open.setter
    def open(self, v):
        self.__dict__["open"] = v


class Frozen:
    """Nothing can be set."""

    def __init__(self, members):
        self.__dict__.update(members)

    def __setattr__(self, k, v):
        raise AttributeError(k)


LOCKED = {Locked: ("area", "label"), Frozen: None, F.Plain: ()}
NAMES = ("area", "label", "open", "width", "name")


def readonly(r, mon):
    """handle_readonly leaves out the attributes that the root does not let be set, and nothing else."""
    c = r.choice(tuple(LOCKED))
    g = gen.Graph(r, share=0.2, cycles=False, budget=r.choice((4, 10)), stdlib=False, kinds=["list", "tuple", "set", "dataclass", "slots", "dict"], keyfn=lambda r: r.choice(("k1", "k2", "k3")))
    members = {n: g.value(3) for n in r.sample(NAMES, r.randrange(0, 5))}
    o = F.Plain() if c is F.Plain else c(members)
    if c is F.Plain:
        o.__dict__.update(members)
    before = dict(o.__dict__)
    j = encode(mon, o, handle_readonly=True)
    check(o.__dict__ == before and list(o.__dict__) == list(before) and all(o.__dict__[k] is v for k, v in before.items()), "the object was changed", got=o.__dict__)
    hidden = NAMES if c is Frozen else LOCKED[c]
    kept = {k: v for k, v in members.items() if k not in hidden}
    left = json.loads(j)
    left.pop("py/object")
    check(set(left) == set(kept), f"handle_readonly kept {sorted(left)} instead of {sorted(kept)} of {c.__name__}", document=j)
    d = decode(mon, j, handle_readonly=True)
    check(type(d) is c and set(d.__dict__) == set(kept), "decoded with other attributes", document=j, got=d.__dict__)
    twin = F.Plain()
    twin.__dict__.update(kept)
    got = F.Plain()
    got.__dict__.update(d.__dict__)
    compare(mon, twin, got, j)
    mon.event("readonly_left_out", len(members) - len(kept))
    mon.event("readonly_kept", len(kept))
    # where nothing is read-only it changes nothing
    if c is F.Plain:
        check(j == encode(mon, o), "handle_readonly changed a document without read-only attributes", document=j)
    mon.sig("readonly", c.__name__, tuple(members), iso.shape(twin, 20))


def properties(r, mon):
    g = gen.Graph(r, share=0.35, budget=r.choice((5, 12, 25)), kinds=["props"] * 4 + ["list", "dict", "plainargs", "valueobj", "node", "tuple"], stdlib=False, atom=value_atom)
    x = g.make(4)
    kw = {"keys": True} if r.random() < 0.2 else {}
    j = encode(mon, x, include_properties=True, **kw)
    compare(mon, x, decode(mon, j, **kw), j)
    mon.event("with_properties")
    json.loads(encode(mon, x, include_properties=True, unpicklable=False))
    mon.event("documents")
    # one object at a time: the values are there
    o = r.choice(CLASSES)()
    n = r.randrange(0, 3)
    if isinstance(o, list):
        o.extend(range(n))
    elif isinstance(o, dict):
        o.update({str(i): i for i in range(n)})
    else:
        for name in r.sample(("a", "child"), n):
            setattr(o, name, gen.ratom(r))
        if isinstance(o, Base) and r.random() < 0.5:
            o._plain = [1, {"k": [n]}] if r.random() < 0.5 else {"k": [n]}
    simple = r.random() < 0.5
    f = Pickler(include_properties=True, unpicklable=not simple).flatten(o)
    if not (simple and isinstance(o, (list, Stateful))):
        have = f.get("py/property", {})
        for k, v in o._want().items():
            check(k in have, f"property {k} of {type(o).__name__} is missing", flattened=f)
            compare(mon, v, have[k])
            mon.event("property_values")
        if isinstance(o, Base):
            own = [None if simple else {"py/id": 0}, {"py/property": {}} if simple else {"py/property": {}, "py/object": "vpfix.Plain"}]
            s = have["unique"] if simple else have["unique"]["py/set"]
            check(sorted(map(str, s)) == ["1", "a"], "a property that is a set", got=s)
            check(have["raw"] == {"py/b64": "/w=="}, "a property that is bytes", got=have["raw"])
            check(have["gathered"][0] == own[0] and have["gathered"][3] == own[1], "a property that is a list of objects", got=have["gathered"])
            check(have["named"]["o"] == own[0], "a property that is a dict of objects", got=have["named"])
            mon.event("property_objects")
    mon.sig("props", iso.shape(x, 25), type(o).__name__, simple)


def _readonly_nested():
    o = Locked({"width": {"area": 3}})
    d = jsonpickle.decode(jsonpickle.encode(o, handle_readonly=True))
    check(d.width == {"area": 3}, "handle_readonly dropped an item of a nested dict", got=d.width)


FINDINGS = {"readonly-nested": _readonly_nested}
SCENARIOS = [Scenario("inert", inert, 12000), Scenario("huge", gen.huge(inert), 16, 200), Scenario("combined", combined, 8000), Scenario("properties", properties, 8000), Scenario("readonly", readonly, 5000)]
