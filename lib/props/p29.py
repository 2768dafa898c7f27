"""P29: the document format stays what it is, and stored documents stay readable."""

import base64
import collections
import datetime
import decimal
import fractions
import io
import json
import types
import uuid

import gen
import iso
import jsonpickle
import vpfix as F
import wire
from api import compare, decode, encode
from core import Scenario, check

RULE = (
    "Random graphs written by an independent implementation of the format (tags, numbering, key escapes, reduce forms, date and UUID "
    "forms): jsonpickle must write the same JSON data, and read the independent document back to the same graph. Also older forms of "
    "the same documents: __builtin__ and exceptions names, named tuples without arguments, base85 and base64 bytes mixed, dicts that "
    "are not numbered (v1_decode), plus a list of fixed documents with their values. Distinct by shape and form."
)
REQUIRED = ("documents", "same_json", "read_back", "nodes_compared", "with_references", "with_keys", "old_names", "old_namedtuples", "v1_documents", "fixed_documents", "reduce_forms", "base85", "class_names")


def rstd(g, d):
    r = g.r
    k = r.randrange(9)
    if k == 0:
        return datetime.datetime(2020, 1, r.randrange(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6), fold=r.randrange(2))
    if k == 1:
        return datetime.date(r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 28))
    if k == 2:
        return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60))
    if k == 3:
        return g.keep(datetime.timedelta(r.randrange(-100, 100), r.randrange(10**5), r.randrange(10**6)), mutable=False)
    if k == 4:
        return g.keep(decimal.Decimal(r.randrange(10**9)) / 1000, mutable=False)
    if k == 5:
        return fractions.Fraction(r.randrange(-99, 99), r.randrange(1, 99))
    if k == 6:
        return g.keep(uuid.UUID(int=r.getrandbits(128)), mutable=False)
    if k == 7:
        return datetime.datetime(2021, 2, 3, r.randrange(24), tzinfo=datetime.timezone(datetime.timedelta(minutes=r.randrange(-700, 700))))
    return frozenset(gen.rint(r) for _ in range(r.randrange(0, 3)))


class Slotted:
    __slots__ = ("a", "b", "child")


class SlottedSub(Slotted):
    __slots__ = ("z",)


class SlottedPrivate(Slotted):
    __slots__ = ("__p", "_q")

    def private(self, v):
        self.__p = v


class _SlottedPrivateSub(SlottedPrivate):
    __slots__ = ("__p", "__r")

    def private(self, v):
        super().private(v)
        self.__p, self.__r = [v], v


class DefaultSub(collections.defaultdict):
    pass


class Lst(list):
    pass


class St(set):
    pass


class Dct(dict):
    pass


class State:
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"v": self.v, "extra": None}

    def __setstate__(self, s):
        self.v = s["v"]


class StateAny(State):
    def __getstate__(self):
        return [self.v, 1]

    def __setstate__(self, s):
        self.v = s[0]


def robj(g, d):
    r = g.r
    k = r.randrange(14)
    if k == 0:
        o = g.keep(r.choice((Slotted, SlottedSub, SlottedPrivate, _SlottedPrivateSub))())
        if isinstance(o, SlottedPrivate) and r.random() < 0.7:
            o.private(gen.ratom(r))
        for n in ("a", "b", "child"):
            if r.random() < 0.6:
                setattr(o, n, g.value(d))
        return o
    if k == 1:
        o = g.keep(Lst())
        for _ in range(r.randrange(0, 3)):
            o.append(g.value(d))
        return g.attrs(o, d, 3)
    if k == 2:
        o = g.keep(St(gen.rint(r) for _ in range(r.randrange(0, 3))), mutable=False)
        return g.attrs(o, d, 2)
    if k == 3:
        o = g.keep(Dct(), mutable=False)
        for i in range(r.randrange(1, 3)):
            o[f"k{i}"] = g.value(d)
        return g.attrs(o, d, 2)
    if k == 4:
        return g.keep(F.Point(g.value(d), g.value(d)), mutable=False, target=False)
    if k == 5:
        return r.choice((F.Color.RED, F.IntColor.TWO, F.StrColor.B))
    if k == 6:
        o = g.keep(r.choice((State, StateAny))(None), mutable=False)
        o.v = g.value(d)
        return o
    if k == 7:
        o = g.keep(collections.OrderedDict(), mutable=False)
        for i in range(r.randrange(0, 3)):
            o[f"k{i}"] = g.value(d)
        return o
    if k == 13:
        o = g.keep(r.choice((collections.defaultdict, DefaultSub))(r.choice((int, list, F.Plain, None))), mutable=False)
        for i in range(r.randrange(0, 3)):
            o[f"k{i}" if o.default_factory is None or r.random() < 0.6 else "default_factory"] = g.value(d)
        if type(o) is DefaultSub:
            g.attrs(o, d, 2)
        return o
    if k == 8:
        o = g.keep(collections.deque(), mutable=False)
        for i in range(r.randrange(0, 3)):
            o.append(g.value(d))
        return o
    if k == 9:
        return rstd(g, d)
    if k == 10:
        return r.choice((int, F.Plain, F.module_function, len, ValueError, F.Outer.Inner, dict, datetime.date))
    if k == 11:
        return g.keep(r.choice((ValueError, KeyError, OSError))(g.value(d)), mutable=False, target=False)
    o = g.keep(F.DC(None, "x"))
    o.a = g.value(d)
    return o


gen.KINDS["wire"] = robj
KINDS = ["wire"] * 5 + ["list", "dict", "plainargs", "tuple", "set", "node"]


def canon(doc):
    return json.dumps(doc, sort_keys=True)


def keyfn(r):
    k = gen.rkey(r)
    return "k" + k if k in wire.RESERVED else k


def anykey(r):
    return r.choice((gen.rkey(r), r.randrange(99), (1, "x", r.randrange(9)), None, True, 1.5, F.Color.RED, b"\x01"))


def graphs(r, mon):
    keys = r.random() < 0.3
    b85 = r.random() < 0.2
    g = gen.Graph(r, share=0.3, budget=r.choice((5, 12, 30)), kinds=KINDS, stdlib=False, keyfn=anykey if keys else keyfn, fns=False)
    x = g.make(4)
    kw = {"keys": True} if keys else {}
    want = wire.write(x, b85=b85, **kw)
    j = encode(mon, x, use_base85=b85, **kw)
    check(canon(json.loads(j)) == canon(want), "the document is not in the established format", document=j, expected=json.dumps(want))
    mon.event("same_json")
    compare(mon, x, decode(mon, json.dumps(want), **kw), json.dumps(want), order=not keys)
    mon.event("read_back")
    mon.event("documents")
    if '"py/id"' in j:
        mon.event("with_references")
    if keys and "json://" in j:
        mon.event("with_keys")
    if '"py/reduce"' in j:
        mon.event("reduce_forms")
    if '"py/b85"' in j:
        mon.event("base85")
    mon.sig("graph", keys, b85, iso.shape(x, 30))


def older(doc, r, mon, used, tuples):
    """The same document as earlier versions wrote it."""
    if type(doc) is list:
        return [older(v, r, mon, used, tuples) for v in doc]
    if type(doc) is not dict:
        return doc
    out = {}
    for k, v in doc.items():
        if k in ("py/type", "py/object", "py/function") and type(v) is str and v.startswith("builtins."):
            v = r.choice(("__builtin__.", "__builtin__.", "exceptions.")) + v[9:]
            used.add("old_names")
        out[k] = older(v, r, mon, used, tuples)
    if tuples and "py/newargs" in out and out.get("py/object") == "vpfix.Point":
        # named tuples had their items only
        if all(type(v) in (int, str, float, bool, type(None)) for v in out["py/seq"]):
            del out["py/newargs"]
            used.add("old_namedtuples")
    return out


def old_forms(r, mon):
    v1 = r.random() < 0.4
    g = gen.Graph(r, share=0.3, budget=r.choice((5, 12, 30)), kinds=KINDS, stdlib=False, keyfn=keyfn, fns=False)
    if v1:
        # dicts had no identity: they are neither shared nor part of cycles
        g.kinds = ["wire"] * 3 + ["list", "plainargs", "tuple", "node", "v1dict"]
    x = g.make(4)
    used = set()
    doc = wire.write(x, number_dicts=not v1, b85=r.random() < 0.5)
    doc = older(doc, r, mon, used, '"py/id"' not in json.dumps(doc))
    j = json.dumps(doc)
    if v1 and ('"py/state"' in j or '"__dict__"' in j):
        return
    compare(mon, x, decode(mon, j, v1_decode=v1), j)
    for u in used:
        mon.event(u)
    if v1:
        mon.event("v1_documents")
    mon.event("documents")
    mon.sig("old", v1, tuple(sorted(used)), iso.shape(x, 30))


def k_v1dict(g, d):
    return {f"k{i}": g.value(d) for i in range(g.r.randrange(0, 3))}


gen.KINDS["v1dict"] = k_v1dict


NAMED = {t: f"types.{t.__name__}" for t in (types.DynamicClassAttribute, types.GenericAlias, types.SimpleNamespace)}
NAMED.update({getattr(types, n): f"types.{n}" for n in "AsyncGeneratorType CellType ClassMethodDescriptorType CodeType CoroutineType EllipsisType FrameType GeneratorType GetSetDescriptorType MappingProxyType MemberDescriptorType "
              "MethodDescriptorType MethodType MethodWrapperType ModuleType NoneType NotImplementedType TracebackType UnionType WrapperDescriptorType BuiltinMethodType LambdaType".split()})  # fmt: skip
NAMED.update({t: f"{t.__module__}.{t.__qualname__}" for t in (int, dict, type, object, Exception, collections.OrderedDict, datetime.date, F.Outer.Inner, decimal.Decimal, uuid.UUID, io.BytesIO, range, memoryview, slice, property)})


def names(r, mon):
    """The names under which classes are written."""
    t = r.choice(sorted(NAMED, key=NAMED.get))
    j = encode(mon, [t, {"a": t}])
    check(json.loads(j) == [{"py/type": NAMED[t]}, {"a": {"py/type": NAMED[t]}}], f"{t} is written as {j}")
    got = decode(mon, j)
    check(got[0] is t and got[1]["a"] is t, f"{j} became {got!r}")
    mon.event("class_names")
    mon.sig("name", NAMED[t])


def local_names(r, mon):
    """Instances of classes that cannot be imported are written under their qualified names, too."""

    def outer():
        class Local:
            class Inner:
                pass

        return Local

    cls = outer()
    cls = r.choice((cls, cls.Inner))
    if r.random() < 0.7:
        cls = type("T", (), {})
        cls.__qualname__ = ".".join(r.choice(("A", "f", "<locals>", "é", "_x", "C1")) for _ in range(r.randrange(1, 5)))
        cls.__module__ = ".".join(r.choice(("vpnone", "pkg", "_m", "main")) for _ in range(r.randrange(1, 4)))
    name = f"{cls.__module__}.{cls.__qualname__}"
    o = cls()
    o.a = gen.rint(r)
    j = encode(mon, [o, cls])
    check(json.loads(j) == [{"py/object": name, "a": o.a}, {"py/type": name}], f"{name} is written as {j}")
    mon.event("class_names")
    mon.sig("local", name)


def plain(**kw):
    o = F.Plain()
    o.__dict__.update(kw)
    return o


def fixed(r, mon):
    """Documents as they are stored, with their values."""
    table = [
        ('{"py/b64": "AAH/"}', b"\x00\x01\xff"),
        ('{"py/b85": "009C61"}', base64.b85decode("009C61")),
        ('{"py/bytea": {"py/b64": "YWI="}}', bytearray(b"ab")),
        ('{"py/tuple": [1, {"py/tuple": []}]}', (1, ())),
        ('{"py/set": [1, "a"]}', {1, "a"}),
        ('{"py/object": "vpfix.Plain", "a": 1, "b": {"py/id": 0}}', None),
        ('[{"a": 1}, {"py/id": 1}]', None),
        ('{"py/type": "__builtin__.int"}', int),
        ('{"py/type": "exceptions.KeyError"}', KeyError),
        ('{"py/function": "vpfix.module_function"}', F.module_function),
        ('{"py/object": "datetime.datetime", "__reduce__": [{"py/type": "datetime.datetime"}, ["B+QBAgMEBQAABg=="]]}', datetime.datetime(2020, 1, 2, 3, 4, 5, 6)),
        ('{"py/object": "datetime.date", "__reduce__": [{"py/type": "datetime.date"}, ["B+QBAQ=="]]}', datetime.date(2020, 1, 1)),
        ('{"py/object": "uuid.UUID", "hex": "12345678123456781234567812345678"}', uuid.UUID("12345678123456781234567812345678")),
        ('{"py/reduce": [{"py/type": "decimal.Decimal"}, {"py/tuple": ["1.50"]}]}', decimal.Decimal("1.50")),
        ('{"py/reduce": [{"py/type": "collections.OrderedDict"}, {"py/tuple": []}, null, null, {"py/tuple": [{"py/tuple": ["b", 1]}, {"py/tuple": ["a", 2]}]}]}', collections.OrderedDict([("b", 1), ("a", 2)])),
        ('{"py/reduce": [{"py/type": "vpfix.Color"}, {"py/tuple": [1]}]}', F.Color(1)),
        ('{"py/object": "vpfix.Point", "py/seq": [1, 2, 3]}', F.Point(1, 2, 3)),
        ('{"py/object": "vpfix.Point", "py/newargs": [1, 2]}', F.Point(1, 2)),
        ('{"py/object": "vpfix.Point", "py/newargs": {"py/tuple": [1, 2, 3]}, "py/seq": [1, 2, 3]}', F.Point(1, 2, 3)),
        ('{"py/object": "collections.defaultdict", "a": [1], "default_factory": {"py/type": "__builtin__.list"}}', collections.defaultdict(list, a=[1])),
        ('{"py/object": "collections.defaultdict", "a": [1], "default_factory": {"py/type": "builtins.list"}}', collections.defaultdict(list, a=[1])),
        ('{"py/mod": "math/math"}', __import__("math")),
        ('{"py/repr": "datetime/datetime.datetime"}', datetime.datetime),
        ('{"py/object": "decimal.Decimal", "py/newargs": ["2.5"]}', decimal.Decimal("2.5")),
    ]
    i = r.randrange(len(table))
    j, want = table[i]
    if i == 5:
        want = plain(a=1)
        want.b = want
    elif i == 6:
        d = {"a": 1}
        want = [d, d]
    got = decode(mon, j)
    if isinstance(want, type) or callable(want) or type(want) is type(json):
        check(got is want, f"{j} became {got!r}")
    else:
        compare(mon, want, got, j)
    # and inside something else
    pad = [gen.ratom(r) for _ in range(r.randrange(0, 3))]
    if '"py/id"' not in j:
        got = decode(mon, json.dumps({"x": pad, "y": [json.loads(j)]}))["y"][0]
        if isinstance(want, type) or callable(want) or type(want) is type(json):
            check(got is want, f"{j} became {got!r}")
        else:
            compare(mon, want, got, j)
    mon.event("fixed_documents")
    mon.sig("fixed", i, len(pad))


SCENARIOS = [Scenario("graphs", graphs, 16000), Scenario("huge", gen.huge(graphs), 16, 200), Scenario("old_forms", old_forms, 8000), Scenario("fixed", fixed, 1500), Scenario("names", names, 400), Scenario("local_names", local_names, 2000)]
