"""P12: results do not depend on what was encoded or decoded before."""

import random

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, quiet
from core import Scenario, check
from jsonpickle.errors import ClassNotFoundError
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Histories of 3..12 encode and decode calls on one Pickler and one Unpickler, mixing values with calls that fail at a random "
    "point (hooks that raise while encoding or restoring, broken JSON, missing classes); after every step a value is encoded and "
    "decoded on the used contexts and on new ones and the results must be identical. Twin graphs must give the same text, and "
    "decoded graphs must encode to the document they came from. Distinct by history and graph shape."
)
REQUIRED = ("steps_compared", "failed_encodes", "failed_decodes", "twins", "fixpoints", "nested_failures", "lookalikes", "failed_open")
ASSUMPTIONS = ["hooks are deterministic", "members of sets are compared in the order Python iterates them"]


class FailEncode:
    """Raises from a hook at encoding."""

    def __init__(self, how):
        self.how = how

    def __getstate__(self):
        if self.how == "state":
            raise RuntimeError("state")
        return {"how": self.how}

    def __hash__(self):
        return 1

    def __eq__(self, o):
        return self is o


class FailReduce:
    def __reduce__(self):
        raise RuntimeError("reduce")


class FailRestore:
    """Encodes fine; raises while being restored."""

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"v": self.v}

    def __setstate__(self, st):
        raise RuntimeError("restore")


class FailNew:
    def __new__(cls, *a):
        if a and a[0] == "boom":
            raise RuntimeError("new")
        return object.__new__(cls)

    def __getnewargs__(self):
        return ("boom",)


HELD = []


class FailOpen:
    """Raises while being built, with a reference to itself still open in its argument."""

    def __new__(cls, *a):
        if a:
            HELD.append(a[0])
            raise RuntimeError("new")
        return object.__new__(cls)

    def __getnewargs__(self):
        return (self.box,)


def held():
    """What the objects that failed calls left behind contain."""
    return [[(type(x), id(x)) for x in (b.values() if isinstance(b, dict) else b)] for b in HELD]


def open_document(r):
    o = FailOpen()
    o.box = r.choice((lambda: [o, 1], lambda: {"a": o}, lambda: [[2], o]))()
    return jsonpickle.encode(r.choice((lambda: o, lambda: [[1], o], lambda: {"k": o}))())


class FailIter:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return self

    def __next__(self):
        self.n -= 1
        if self.n < 0:
            raise RuntimeError("iteration")
        return [self.n]


def bad_value(r):
    """Something that cannot be encoded, deep inside other things."""
    b = r.choice((lambda: FailEncode("state"), FailReduce, lambda: FailIter(r.randrange(3))))()
    shared = [1]
    for _ in range(r.randrange(0, 5)):
        b = r.choice((lambda: [shared, b, shared], lambda: {"a": shared, "b": b}, lambda: F.DC(b, shared), lambda: (1, b), lambda: F.Reduce2(b, 1), lambda: F.ListSub([b])))()
    return b


def bad_key():
    return {"x": [1], FailEncode("state"): 1}


def bad_document(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice(("", "{", "[1, 2", '{"a": }', "nul", '{"py/object": "x"', "[1]]"))
    if k == 1:
        b = FailRestore([1])
    elif k == 2:
        b = FailNew()
    elif k == 3:
        return '[{"py/object": "vpfix.DC", "a": [1]}, {"py/reduce": [{"py/type": "vpfix.DC"}, {"py/tuple": [1, 2, 3, 4, 5, 6]}]}]'
    elif k == 4:
        return '{"a": [1], "b": {"py/object": "builtins.complex", "py/newargs": ["x", "y"]}, "c": {"py/object": "decimal.Decimal", "py/reduce": [{"py/type": "decimal.Decimal"}, {"py/tuple": ["not a number"]}]}}'
    else:
        b = FailRestore(FailNew())
    for _ in range(r.randrange(0, 4)):
        b = r.choice((lambda: [[2], b], lambda: {"a": [2], "b": b}, lambda: F.DC([2], b), lambda: (b,), lambda: F.ListSub([b])))()
    return jsonpickle.encode(b)


ENC = ({}, {"keys": True}, {"make_refs": False}, {"unpicklable": False}, {"use_base85": True}, {"max_depth": 3}, {"keys": True, "make_refs": False})


def reuse(r, mon):
    kw = r.choice(ENC)
    dec = {"keys": True} if "keys" in kw else {}
    p, u = Pickler(**kw), Unpickler(**dec)
    history = []
    del HELD[:]
    for _ in range(r.randrange(3, 12)):
        step = r.choice(("ok", "bad_enc", "bad_dec", "ok_dec", "bad_key", "bad_open"))
        history.append(step)
        with quiet():
            if step == "bad_enc":
                try:
                    jsonpickle.encode(bad_value(r), context=p)
                except RuntimeError:
                    mon.event("failed_encodes")
            elif step == "bad_key":
                try:
                    jsonpickle.encode([[1], bad_key()], context=p)
                except RuntimeError:
                    mon.event("nested_failures")
            elif step == "bad_dec":
                doc = bad_document(r)
                try:
                    jsonpickle.decode(doc, context=u, classes=r.choice((None, [F.DC], {"nosuch.Class": F.Plain})), on_missing=r.choice(("ignore", "error")))
                except (Exception, ClassNotFoundError):
                    mon.event("failed_decodes")
            elif step == "bad_open":
                try:
                    jsonpickle.decode(open_document(r), context=u)
                except RuntimeError:
                    mon.event("failed_open")
            elif step == "ok_dec":
                jsonpickle.decode(jsonpickle.encode(gen.Graph(r, budget=10).make(3), **dec), context=u)
        left = held()
        v = gen.Graph(r, share=0.3, budget=r.choice((3, 10))).make(3)
        encode(mon, v, **kw)  # fills the caches that paths and networks keep
        a, b = encode(mon, v, context=p), encode(mon, v, **kw)
        check(a == b, f"a used Pickler encodes differently after {history}", fresh=b, used=a)
        if "unpicklable" in kw or "max_depth" in kw:
            continue  # one-way documents
        x, y = decode(mon, b, context=u), decode(mon, b, **dec)
        compare(mon, y, x, b, what=f"graph decoded by a used Unpickler after {history}:")
        check(held() == left, f"decoding changed objects of an earlier, failed call: {history}")
        # leftovers of earlier calls must not be visible either
        x = jsonpickle.decode('{"py/object": "nosuch.Class", "a": 1}', context=u)
        check(type(x) is dict, "classes of an earlier call are still registered", got=x)
        mon.event("steps_compared")
    mon.sig("reuse", tuple(history), tuple(kw))


ANY = (
    ("unpicklable", (False,)), ("make_refs", (False,)), ("keys", (True,)), ("max_depth", (0, 1, 2, 5)), ("max_iter", (0, 3)),
    ("warn", (True,)), ("numeric_keys", (True,)), ("use_decimal", (True,)), ("use_base85", (True,)), ("indent", (0, 2)),
    ("separators", ((",", ":"),)), ("include_properties", (True,)), ("fail_safe", (lambda e: "FAILED",)), ("handler_context", ("x",)),
)  # fmt: skip


def any_options(r):
    return {k: r.choice(v) for k, v in ANY if r.random() < 0.15}


def module_level(r, mon):
    """The same through the module-level functions, failures in between."""
    v = gen.Graph(r, share=0.3, budget=15).make(4)
    for kw in ENC:
        encode(mon, v, **kw)  # fills the caches that paths and networks keep
    j = encode(mon, v)
    other = r.choice(ENC[1:] + ({"indent": 1}, {"separators": (",", ":")}, {"warn": True}))
    with quiet():
        j2 = encode(mon, v, **other)
    d = decode(mon, j)
    history = []
    for _ in range(r.randrange(1, 6)):
        step = r.choice(("bad_enc", "bad_dec", "bad_key", "opts", "any", "dec"))
        history.append(step)
        with quiet():
            try:
                if step == "bad_enc":
                    jsonpickle.encode(bad_value(r))
                elif step == "bad_key":
                    jsonpickle.encode(bad_key(), keys=True)
                elif step == "bad_dec":
                    jsonpickle.decode(bad_document(r), on_missing="error")
                elif step == "any":
                    x = gen.Graph(r, share=0.2, budget=6, stdlib=False).make(3)
                    jsonpickle.encode(x, **any_options(r))
                elif step == "dec":
                    jsonpickle.decode(j, keys=r.random() < 0.5, classes=r.choice((None, {"vpfix.DC": F.Plain})), v1_decode=r.random() < 0.3, on_missing=r.choice(("warn", print)), handler_context="x")
                else:
                    jsonpickle.encode(v, **r.choice(ENC))
            except (Exception, ClassNotFoundError):
                mon.event("failed_encodes" if step != "bad_dec" else "failed_decodes")
        check(encode(mon, v) == j, f"the same object encodes differently after {history}", before=j)
        with quiet():
            check(encode(mon, v, **other) == j2, f"the same object encodes differently with {sorted(other)} after {history}", before=j2)
    compare(mon, d, decode(mon, j), j, what=f"graph decoded after {history}:")
    mon.event("steps_compared", len(history))
    mon.sig("mod", tuple(history), iso.shape(v, 60))


def twins(r, mon):
    """Equal graphs give equal documents."""
    seed, share, budget = r.random(), r.choice((0, 0.3)), r.choice((5, 20, 40))
    g = [gen.Graph(random.Random(seed), share=share, budget=budget).make(4) for _ in range(2)]
    kw = r.choice(ENC)
    if kw.get("make_refs") is False or kw.get("max_depth") or kw.get("unpicklable") is False:
        kw = {}  # repr() of objects shows addresses
    a, b, c = encode(mon, g[0], **kw), encode(mon, g[1], **kw), encode(mon, g[0], **kw)
    check(a == b, "two equal graphs encode differently", first=a, second=b)
    check(a == c, "encoding twice gives different documents", first=a, second=c)
    mon.event("twins")
    mon.sig("twin", iso.shape(g[0], 80))


FRESH = iter(range(10**9))


def _variant(r):
    """The body of a class and the attributes its objects get."""
    names = r.sample(("a", "b", "c", "dd"), 3)
    k = r.randrange(9)
    body = {}
    if k == 0:
        body["__slots__"] = tuple(names)
    elif k == 1:
        body["_jsonpickle_exclude"] = (names[0],)
    elif k == 2:
        body["__getstate__"] = lambda self: {"state": [1]}
        body["__setstate__"] = lambda self, st: self.__dict__.update(st)
    elif k == 3:
        body["__reduce__"] = lambda self: (F.Plain, (), {"r": names[1]})
    elif k == 4:
        body["__getnewargs__"] = lambda self: (names[0],)
        body["__new__"] = lambda cls, *a: object.__new__(cls)
    elif k == 5:
        body["__reduce_ex__"] = lambda self, p: (F.Plain, (), {"x": names[2]})
    elif k == 6:
        body["prop"] = property(lambda self: names[0])
    elif k == 7:
        body["__getnewargs_ex__"] = lambda self: ((), {names[0]: 1})
        body["__new__"] = lambda cls, *a, **kw: object.__new__(cls)
    bases = r.choice(((), (), (list,), (dict,))) if k not in (0, 3, 4, 5, 7) else ()
    return k, bases, body, names


def _make(variant, name):
    k, bases, body, names = variant
    cls = type(name, bases, dict(body, __module__="vpdyn", __qualname__=name))
    o = cls()
    for i, n in enumerate(names):
        setattr(o, n, [i])
    return cls, o


def lookalikes(r, mon):
    """What was learnt about one class must not be applied to another one of the same name, or to itself after a change."""
    name, fresh = "Look", f"Look{next(FRESH):09d}"
    kw = r.choice(({}, {}, {"keys": True}, {"unpicklable": False}, {"include_properties": True}, {"max_depth": 5}, {"warn": True}))
    va, vb = _variant(r), _variant(r)
    how = r.choice(("same name", "changed class", "handler"))
    with quiet():
        if how == "same name":
            ca, a = _make(va, name)
            cb, b = _make(vb, name)
            encode(mon, [a, {"k": a}], **kw)
            got = encode(mon, [b, {"k": b}], **kw)
            want = encode(mon, (lambda o: [o, {"k": o}])(_make(vb, fresh)[1]), **kw)
        elif how == "changed class":
            plain = (8, (), {}, vb[3])
            hooks = {k: v for k, v in vb[2].items() if k not in ("__slots__", "__new__")}
            cb, b = _make(plain, name)
            encode(mon, [b], **kw)
            for k, v in hooks.items():
                setattr(cb, k, v)
            cf, f = _make((8, (), hooks, vb[3]), fresh)
            got, want = encode(mon, [b, {"k": b}], **kw), encode(mon, [f, {"k": f}], **kw)
        else:
            cb, b = _make(vb, name)
            cf, f = _make(vb, fresh)
            ch, h = _make(vb, fresh + "h")
            jsonpickle.register(ch, Tagged)
            encode(mon, [b], **kw)
            before = encode(mon, [f], **kw)
            check(encode(mon, [b], **kw).replace(name, fresh) == before, "two equal classes encode differently")
            jsonpickle.register(cb, Tagged)
            try:
                got, want = encode(mon, [b, {"k": b}], **kw), encode(mon, [h, {"k": h}], **kw).replace(fresh + "h", fresh)
            finally:
                jsonpickle.unregister(cb)
                jsonpickle.unregister(ch)
            check(encode(mon, [b], **kw).replace(name, fresh) == before, "a handler is still in use after it was unregistered")
    check(got == want.replace(fresh, name), f"{how}: encoded with knowledge of an earlier class", want=want, got=got)
    if how == "same name" and "unpicklable" not in kw:
        ca.__qualname__ = cb.__qualname__ = name
        dec = {"keys": True} if "keys" in kw else {}
        doc = f'[{{"py/object": "vpdyn.{name}", "a": [1]}}, {{"py/type": "vpdyn.{name}"}}]'
        if "__slots__" not in va[2] and "__slots__" not in vb[2]:
            for c in (ca, cb, ca):
                d = decode(mon, doc, classes=c, **dec)
                check(type(d[0]) is c and d[1] is c, f"decoded as an earlier class of the same name: {d[0]!r}")
    mon.event("lookalikes")
    mon.sig("look", how, va[0], vb[0], tuple(kw), vb[1])


class Tagged(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        data["tagged"] = self.context.flatten([1], reset=False)
        return data

    def restore(self, data):
        return self.context.restore(data["tagged"], reset=False)


# kinds whose decoded form keeps every order and identity that encoding can see
STABLE = ("list", "dict", "plain", "plainargs", "odd", "valueobj", "dataclass", "listsub", "dictsub", "ordered", "node", "getset", "slots", "private", "scalarsub", "deque")


def fixpoint(r, mon):
    """A decoded graph encodes to the document it came from."""
    g = gen.Graph(r, kinds=STABLE, share=r.choice((0, 0.3)), budget=r.choice((5, 20, 40)), stdlib=False)
    v = g.make(4)
    kw = {"keys": True} if r.random() < 0.3 else {}
    j = encode(mon, v, **kw)
    d = decode(mon, j, **kw)
    k = encode(mon, d, **kw)
    check(k == j, "the decoded graph encodes differently", first=j, second=k)
    mon.event("fixpoints")
    mon.sig("fix", iso.shape(v, 80))


SCENARIOS = [
    Scenario("reuse", reuse, 5000),
    Scenario("module_level", module_level, 3000),
    Scenario("twins", twins, 8000),
    Scenario("huge", gen.huge(twins), 16, 200),
    Scenario("lookalikes", lookalikes, 6000),
    Scenario("fixpoint", fixpoint, 8000),
    Scenario("huge_fixpoint", gen.huge(fixpoint), 16, 200),
]
