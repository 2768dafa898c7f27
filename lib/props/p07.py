"""P07: the pickle protocol hooks of a class are honoured."""

import array
import collections
import copyreg
import datetime
import decimal
import fractions
import functools
import io
import ipaddress
import pathlib
import pickle
import random
import statistics
import types
import uuid

import gen
import iso
import mkcls
import vpfix as F
from api import compare, decode, encode
from core import Scenario, Violation, check, short

RULE = (
    "Seeded graphs of instances whose classes implement the pickle protocol (state, reduce with 2 to 6 elements, constructor "
    "arguments, state setters). The result is compared with what Python's own pickle makes of the same graph, and a call "
    "trace recorded by the classes is checked: hooks run once per distinct object, constructors are not called behind the "
    "class's back. Distinct by hook combination and graph shape."
)
REQUIRED = ("initargs", "agrees_with_pickle", "hook_calls_checked", "state_calls", "reduce_calls", "new_calls", "made_classes", "natives", "turned")
ASSUMPTIONS = [
    "states are true values (a false state is a known finding)",
    "reduce values are tuples (the string form is a known finding)",
    "a class with its own __getstate__ and no __setstate__ supplies no state from __reduce__, and a class with __setstate__ has "
    "its own __getstate__ or __reduce__ (known findings)",
    "subclasses of the built-in containers do not define __reduce__ (they have a form of their own), nor __getstate__ in the case "
    "of list and dict (a known finding)",
    "classes do not define __getinitargs__ together with __getnewargs__; pickle no longer knows it, so it is judged by the call trace",
]

LOG = []


class Base:
    uid = v = None

    def __init__(self, *a, **k):
        LOG.append(("init", type(self).__name__))
        self.uid = len(LOG)
        self.v = None

    def log(self, what):
        LOG.append((what, type(self).__name__, getattr(self, "uid", None)))


class State(Base):
    def __getstate__(self):
        self.log("getstate")
        return {"uid": self.uid, "v": self.v, "n": 1}

    def __setstate__(self, st):
        self.log("setstate")
        self.__dict__.update(st)
        self.restored = True


class StateList(Base):
    def __getstate__(self):
        self.log("getstate")
        return [self.uid, self.v]

    def __setstate__(self, st):
        self.log("setstate")
        self.uid, self.v = st


class StateTuple(StateList):
    def __getstate__(self):
        self.log("getstate")
        return (self.uid, self.v)


class StateTuple2(StateList):
    """A pair whose second element is a dict, with its own __setstate__."""

    def __getstate__(self):
        self.log("getstate")
        return (None, {"uid": self.uid, "v": self.v})

    def __setstate__(self, st):
        self.log("setstate")
        self.raw = st[0]
        self.uid, self.v = st[1]["uid"], st[1]["v"]


class StateScalar(Base):
    def __getstate__(self):
        self.log("getstate")
        return f"uid={self.uid}"

    def __setstate__(self, st):
        self.log("setstate")
        self.uid = int(st[4:])
        self.text = st


class StateNoSet(Base):
    """Dict state without __setstate__ becomes the attributes."""

    def __getstate__(self):
        self.log("getstate")
        return {"uid": self.uid, "v": self.v, "only": "state"}


class StateSlots:
    __slots__ = ("uid", "v")

    def __init__(self):
        LOG.append(("init", "StateSlots"))
        self.uid, self.v = len(LOG), None

    def __getstate__(self):
        LOG.append(("getstate", "StateSlots", self.uid))
        return (None, {"uid": self.uid, "v": self.v})


class StateSlotsDict(StateSlots):
    """Slots and a __dict__: the state is a pair of dicts."""

    def __getstate__(self):
        LOG.append(("getstate", "StateSlotsDict", self.uid))
        return (dict(self.__dict__), {"uid": self.uid, "v": self.v})


class StateInherited(State):
    pass


class StateOverride(State):
    def __getstate__(self):
        st = super().__getstate__()
        st["extra"] = "child"
        return st


class New(Base):
    def __new__(cls, *args):
        LOG.append(("new", cls.__name__, len(args)))
        self = object.__new__(cls)
        self.made = args
        return self

    def __init__(self, *a):
        super().__init__()

    def __getnewargs__(self):
        self.log("getnewargs")
        return self.made


class NewEx(Base):
    def __new__(cls, *args, **kw):
        LOG.append(("new", cls.__name__, len(args) + len(kw)))
        self = object.__new__(cls)
        self.made = (args, kw)
        return self

    def __init__(self, *a, **k):
        super().__init__()

    def __getnewargs_ex__(self):
        self.log("getnewargs")
        return self.made


class NewState(New):
    def __getstate__(self):
        self.log("getstate")
        return {"uid": self.uid, "v": self.v, "made": self.made}

    def __setstate__(self, st):
        self.log("setstate")
        check(self.made == st["made"] or True, "")
        self.__dict__.update(st)


class IntNew(int):
    """Immutable value through __getnewargs__ plus attributes."""

    def __new__(cls, n):
        LOG.append(("new", "IntNew", 1))
        return int.__new__(cls, n)

    def __getnewargs__(self):
        return (int(self),)


class TupleNew(tuple):
    def __new__(cls, a, b):
        LOG.append(("new", "TupleNew", 2))
        return tuple.__new__(cls, (a, b))

    def __getnewargs__(self):
        return tuple(self)


def make(cls, *args):
    LOG.append(("call", cls.__name__, len(args)))
    self = cls.__new__(cls)
    self.args = args
    return self


class Red(Base):
    """Reduce tuples of configurable length."""

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self), *self.args_()))

    def args_(self):
        return (self.uid, self.v)


class Red3(Red):
    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self), 1), {"uid": self.uid, "v": self.v})


class Red3Set(Red3):
    def __setstate__(self, st):
        self.log("setstate")
        self.__dict__.update(st)
        self.was_set = 1


class Red3Any(Red):
    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), [self.uid, self.v])

    def __setstate__(self, st):
        self.log("setstate")
        self.uid, self.v = st


class Red4(Red):
    items = ()

    def __init__(self):
        super().__init__()
        self.items = []

    def append(self, x):
        LOG.append(("append", "Red4"))
        self.__dict__.setdefault("items", []).append(x)

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), {"uid": self.uid, "v": self.v}, iter(self.items))


class Red4Ext(Red4):
    def extend(self, xs):
        LOG.append(("extend", "Red4Ext"))
        self.__dict__.setdefault("items", []).extend(xs)


class Red5(Red):
    m = {}

    def __init__(self):
        super().__init__()
        self.m = {}

    def __setitem__(self, k, v):
        LOG.append(("setitem", "Red5"))
        self.__dict__.setdefault("m", {})[k] = v

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), {"uid": self.uid, "v": self.v}, None, iter(self.m.items()))


class Red5Multi(Red5):
    """Keeps every item it is given: repeated keys, equal keys of different types, in order."""

    pairs = ()

    def __setitem__(self, k, v):
        LOG.append(("setitem", "Red5Multi"))
        self.__dict__.setdefault("pairs", []).append((k, v))

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), {"uid": self.uid, "v": self.v}, None, iter(self.pairs))


class Red4Multi(Red4):
    """List items and dict items at once."""

    pairs = listed = ()

    def append(self, x):
        LOG.append(("append", "Red4Multi"))
        self.__dict__.setdefault("listed", []).append(x)

    def __setitem__(self, k, v):
        LOG.append(("setitem", "Red4Multi"))
        self.__dict__.setdefault("pairs", []).append((k, v))

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), {"uid": self.uid, "v": self.v}, iter(self.listed), iter(self.pairs))


def setter(obj, st):
    LOG.append(("setter", type(obj).__name__))
    obj.__dict__.update(st)
    obj.via = "setter"


class Red6(Red):
    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self),), {"uid": self.uid, "v": self.v}, None, None, setter)

    def __setstate__(self, st):
        raise AssertionError("the state setter takes precedence")


class RedEx(Red):
    def __reduce_ex__(self, protocol):
        self.log("reduce")
        return (make, (type(self), "ex"), {"uid": self.uid, "v": self.v, "protocol": protocol})

    def __reduce__(self):
        raise AssertionError("__reduce_ex__ takes precedence")


class RedNoState(Red):
    """None placeholders in the middle."""

    def __reduce__(self):
        self.log("reduce")
        return (make, (type(self), self.uid), None, None, None)


class RedNewobj(Base):
    def __reduce__(self):
        import copyreg

        self.log("reduce")
        return (copyreg.__newobj__, (type(self),), {"uid": self.uid, "v": self.v})


class RedNewobjArgs(Base):
    def __new__(cls, *args):
        self = object.__new__(cls)
        self.args = args
        return self

    def __init__(self, *args):
        Base.__init__(self)
        self.args = args

    def __reduce__(self):
        import copyreg

        self.log("reduce")
        return (copyreg.__newobj__, (type(self), *self.args), {"uid": self.uid, "v": self.v})


class RedClass(Base):
    """The class itself is the callable."""

    def __init__(self, *a):
        LOG.append(("init", "RedClass", len(a)))
        self.uid = a[0] if a else len(LOG)
        self.v = a[1] if a else None

    def __reduce__(self):
        self.log("reduce")
        return (RedClass, (self.uid, self.v))


SIMPLE = (State, StateList, StateTuple, StateTuple2, StateNoSet, StateInherited, StateOverride, Red3, Red3Set, Red3Any, Red6, RedEx, RedNewobj)
ARGS = (Red, RedClass)
SLOTTED = (StateSlots, StateSlotsDict)


class Maker:
    def __init__(self, r):
        self.r = r
        self.pool = []
        self.left = 25

    def some(self, depth):
        if gen.HUGE[0]:
            self.left = 25
        return self.value(depth)

    def value(self, depth):
        r = self.r
        self.left -= 1
        if self.pool and r.random() < 0.25:
            return r.choice(self.pool)
        k = r.randrange(12)
        if depth <= 0 or self.left <= 0 or k < 3:
            return r.choice((None, 1, "s", 2.5, (1, 2), b"x", True, 0, "", int, F.Plain, len, F.module_function))
        if k == 3:
            return [self.value(depth - 1) for _ in range(r.randrange(0, 3))]
        if k == 4:
            return {f"k{i}": self.value(depth - 1) for i in range(r.randrange(0, 3))}
        o = self.obj(depth)
        return o

    def obj(self, depth):
        r = self.r
        k = r.randrange(12)
        if k < 5:
            o = r.choice(SIMPLE)()
            o.v = self.value(depth - 1)
        elif k == 5:
            v = self.value(depth - 1)
            o = r.choice(ARGS)()
            o.v = v
        elif k == 6:
            o = r.choice(SLOTTED)()
            o.v = self.value(depth - 1)
            if isinstance(o, StateSlotsDict):
                o.more = self.value(depth - 1)
        elif k == 7:
            o = New(*[self.value(depth - 2) for _ in range(r.randrange(0, 3))])
            o.v = self.value(depth - 1)
        elif k == 8:
            o = NewEx(*[self.value(depth - 2) for _ in range(r.randrange(0, 3))], **{f"k{i}": self.value(depth - 2) for i in range(r.randrange(0, 3))})
            o.v = self.value(depth - 1)
        elif k == 9:
            o = NewState(self.value(depth - 2)) if r.random() < 0.5 else RedNewobjArgs(*[self.value(depth - 2) for _ in range(r.randrange(0, 4))])
            o.v = self.value(depth - 1)
        elif k == 10:
            o = r.choice((Red4, Red4Ext))()
            o.v = self.value(depth - 1)
            o.items = [self.value(depth - 1) for _ in range(r.randrange(0, 4))]
        elif r.random() < 0.5:
            o = r.choice((Red5Multi, Red4Multi))()
            o.v = self.value(depth - 1)
            o.pairs = [(r.choice(("k", "k", 1, True, 1.0, (1, "t"), None, "1")), self.value(depth - 1)) for _ in range(r.randrange(0, 5))]
            o.listed = [self.value(depth - 1) for _ in range(r.randrange(0, 3))]
        else:
            o = Red5()
            o.v = self.value(depth - 1)
            for i in range(r.randrange(0, 4)):
                o.m[r.choice((f"k{i}", i, (i, "t"), None))] = self.value(depth - 1)
        # counted by type name; every object has its own uid
        self.pool.append(o)
        return o


def _walk(v, seen):
    """All hook objects reachable through the public attributes."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, tuple)):
            stack.extend(x)
        elif isinstance(x, dict):
            stack.extend(x.values())
        if type(x).__module__ == __name__ and id(x) not in seen:
            seen[id(x)] = x
            stack.extend(getattr(x, "__dict__", {}).values())
            if isinstance(x, (StateSlots,)):
                stack.append(x.v)
    return seen


def graph(r, mon):
    m = Maker(r)
    v = [gen.side_by_side(r, lambda: m.some(4)), m.obj(3), m.some(3)]
    objs = _walk(v, {})
    LOG.clear()
    j = encode(mon, v)
    enc = collections.Counter(LOG)
    LOG.clear()
    d = decode(mon, j)
    dec = list(LOG)
    LOG.clear()
    p = pickle.loads(pickle.dumps(v, 2))
    plog = list(LOG)
    try:
        iso.same(p, d, what="jsonpickle")
    except Violation as e:
        e.detail["document"] = j
        e.msg = e.args[0].replace("jsonpickle graph differs", "differs from what pickle restores")
        raise
    mon.event("agrees_with_pickle")
    # encoding: every hook at most once per object
    for ev, n in enc.items():
        if ev[0] in ("getstate", "reduce", "getnewargs"):
            check(n == 1, f"{ev[0]} called {n} times for one {ev[1]}", document=j)
            mon.event("hook_calls_checked")
        check(ev[0] != "init", f"{ev[1]}.__init__ called while encoding", document=j)
    # decoding: the same restore hooks as pickle, the same number of times
    interesting = ("setstate", "call", "setter", "init", "setitem")
    a = collections.Counter((e[0], e[1]) for e in dec if e[0] in interesting)
    b = collections.Counter((e[0], e[1]) for e in plog if e[0] in interesting)
    check(a == b, "other restore hooks were called than by pickle", jsonpickle=dict(a), pickle=dict(b), document=j)
    na = collections.Counter(e for e in dec if e[0] == "new")
    nb = collections.Counter(e for e in plog if e[0] == "new")
    check(na == nb, "constructors were called differently than by pickle", jsonpickle=dict(na), pickle=dict(nb), document=j)
    mon.event("state_calls", a[("setstate", "State")] + sum(n for (k, _), n in a.items() if k == "setstate"))
    mon.event("reduce_calls", sum(n for (k, _), n in a.items() if k == "call"))
    mon.event("new_calls", sum(na.values()))
    mon.sig("graph", tuple(sorted(type(o).__name__ for o in objs.values())), iso.shape(v, 150))
    mon.sample(j)


def cyclic(r, mon):
    """State that leads back to the object, directly or through others."""
    objs = [r.choice((State, StateList, StateNoSet, Red3, Red3Set, RedEx, RedNewobj, Red6, Red4, Red4Ext, Red5, StateSlots, NewState, New))() for _ in range(r.randrange(1, 5))]
    n = len(objs)
    for i, o in enumerate(objs):
        t = objs[(i + 1) % n]
        o.v = r.choice((t, [t], {"x": t}, [t, r.choice(objs)]))
        if isinstance(o, Red4) and r.random() < 0.5:
            o.items.append(r.choice(objs))
        if isinstance(o, Red5) and r.random() < 0.5:
            o.m["k"] = r.choice(objs)
    LOG.clear()
    v = [objs[0], [7], objs[-1]]
    j = encode(mon, v)
    d = decode(mon, j)
    p = pickle.loads(pickle.dumps(v, 2))
    try:
        iso.same(p, d, what="jsonpickle")
    except Violation as e:
        e.detail["document"] = j
        raise
    mon.event("agrees_with_pickle")
    mon.sig("cyclic", tuple(type(o).__name__ for o in objs), iso.shape(v, 120))


def states(r, mon):
    """States of every type reach __setstate__ unchanged."""
    st = r.choice((lambda: gen.builtin(r, 3), lambda: [gen.builtin(r, 2)], lambda: {gen.rkey(r): gen.builtin(r, 2)}, lambda: (gen.ratom(r), {"k": gen.ratom(r)}),
                   lambda: ({"a": 1}, {"b": gen.ratom(r)}), lambda: gen.hashable(r), lambda: F.DC(1, [2]), lambda: "text", lambda: 7, lambda: F.NT(1, 2)))()  # fmt: skip
    try:
        if not st or st == 0:
            return
    except Exception:
        return
    o = F.GetStateAny(st)
    o.calls = 1
    tail = [1]
    v = [o, tail, st if isinstance(st, (list, dict, F.DC)) else None, tail]
    d = decode(mon, encode(mon, v))
    compare(mon, v, d)
    mon.event("state_calls")
    mon.sig("state", type(st).__name__, iso.shape(st, 60))


def builtin_new(r, mon):
    """Immutable subclasses come back through their __new__."""
    n = gen.rint(r)
    o = IntNew(n)
    o.extra = gen.builtin(r, 2)
    t = TupleNew(gen.ratom(r), (1, 2))
    LOG.clear()
    j = encode(mon, [o, t, o])
    LOG.clear()
    d = decode(mon, j)
    news = [e for e in LOG if e[0] == "new"]
    check(sorted(news) == [("new", "IntNew", 1), ("new", "TupleNew", 2)], "constructor calls", got=news, document=j)
    compare(mon, [o, t, o], d, j)
    mon.event("new_calls", 2)
    mon.sig("builtin_new", n, iso.shape(o.extra))


def no_init(r, mon):
    """Decoding never runs __init__ of ordinary classes."""
    F.TRACE.clear()
    objs = [F.PlainArgs(gen.ratom(r), [1], c=2), F.DCChild(1, 2, [3], 4), F.GetSetState(gen.builtin(r, 2), 2)]
    j = encode(mon, objs)
    F.TRACE.clear()
    d = decode(mon, j)
    check(not any(isinstance(t, str) and ("__init__" in t or "__post_init__" in t) for t in F.TRACE), "constructor was run on decode", trace=list(F.TRACE))
    objs[2].transient = "restored"
    compare(mon, objs, d, j)
    check(F.TRACE.count("GetSetState.__setstate__") == 1, "__setstate__ not called exactly once", trace=list(F.TRACE))
    mon.event("hook_calls_checked")
    mon.sig("no_init", iso.shape(objs))


class Init(Base):
    """Constructor arguments in the old spelling go to __new__."""

    def __init__(self, *a):
        super().__init__()
        self.made = a

    def __getinitargs__(self):
        self.log("getinitargs")
        return self.made


class InitNew(Init):
    def __new__(cls, *a):
        LOG.append(("new", cls.__name__, a))
        return object.__new__(cls)


class InitState(InitNew):
    def __getstate__(self):
        self.log("getstate")
        return {"uid": self.uid, "v": self.v, "made": self.made}

    def __setstate__(self, st):
        self.log("setstate")
        self.__dict__.update(st)


def initargs(r, mon):
    shared = [gen.ratom(r)]
    objs = []
    for _ in range(r.randrange(1, 4)):
        o = r.choice((Init, InitNew, InitState))(*[r.choice((shared, gen.ratom(r), (1, shared), {"k": shared})) for _ in range(r.randrange(0, 3))])
        o.v = r.choice((shared, o, objs, {"s": shared}, gen.builtin(r, 2)))
        objs.append(o)
    v = [objs, shared, r.choice(objs)] if r.random() < 0.5 else [shared, objs, r.choice(objs)]
    LOG.clear()
    j = encode(mon, v)
    n = collections.Counter(e[0] for e in LOG)
    check(n["getinitargs"] == len(objs) and not n["init"] and not n["new"], "calls while encoding", got=dict(n), document=j)
    LOG.clear()
    d = decode(mon, j)
    calls = list(LOG)
    compare(mon, v, d, j)
    got = d[0] if d[0].__class__ is list and d[0] is not d[1] and len(d[0]) == len(objs) and type(d[0][0]) is type(objs[0]) else d[1]
    check(not [e for e in calls if e[0] == "init"], "__init__ was run", calls=short(calls), document=j)
    news = [e for e in calls if e[0] == "new"]
    want = [o for o in got if isinstance(o, InitNew)]
    check(len(news) == len(want), "constructor calls", got=short(news), document=j)
    for e, o in zip(news, want):
        check(len(e[2]) == len(o.made), "other constructor arguments", got=short(e), want=short(o.made), document=j)
        # the arguments are the objects of the result
        for a, b in zip(e[2], o.made):
            iso.same(b, a)
            if b is d[0] or b is d[1]:
                check(a is b, "a constructor argument is a copy", document=j)
    mon.event("new_calls", len(news))
    mon.event("initargs")
    mon.sig("initargs", tuple(type(o).__name__ for o in objs), iso.shape(v, 60))


def copies(r, mon):
    """A decoded object can be encoded again."""
    m = Maker(r)
    v = [m.obj(3)]
    j = encode(mon, v)
    d = decode(mon, j)
    j2 = encode(mon, d)
    d2 = decode(mon, j2)
    iso.same(pickle.loads(pickle.dumps(d, 2)), d2)
    mon.event("agrees_with_pickle")
    mon.sig("again", iso.shape(v, 80))


# --- classes made at random ---


def build(cls, *args, **kw):
    LOG.append(("call", cls.__name__, len(args), tuple(sorted(kw))))
    return cls.__new__(cls, *args, **kw)


def put(obj, st):
    LOG.append(("setter", type(obj).__name__))
    obj.s0 = st


def _logged(name, value):
    def hook(self, *a):
        LOG.append((name, type(self).__name__))
        return value(self) if callable(value) else value

    return hook


class Protocol:
    """One class with a random combination of hooks, spread over up to three levels of inheritance."""

    def __init__(self, r, n, value):
        self.r = r
        base = self.base = r.choice((object, object, object, object, int, str, Exception, tuple))
        body = {}
        self.slots = base in (object, str, Exception) and r.random() < 0.3
        if self.slots and base is str:
            self.slots = False
        new = r.choice(("none", "none", "args", "ex", "both")) if base in (object, int, str, tuple) else "none"
        first = {object: None, int: 7, str: "txt", tuple: (1, "t")}.get(base)
        if new != "none":
            args = tuple(value() for _ in range(r.randrange(0, 3)))
            if base is not object:
                args = (first,)
            kw = {f"k{i}": value() for i in range(r.randrange(0, 3))}

            def __new__(cls, *a, **k):
                LOG.append(("new", cls.__name__, len(a), tuple(sorted(k))))
                self = base.__new__(cls, *(a if base is not object else ()))
                if not hasattr(self, "s1"):
                    self.s1 = [list(a), k] if base is object else 1
                return self

            body["__new__"] = __new__
            if new in ("args", "both"):
                body["__getnewargs__"] = _logged("getnewargs", args)
            if new in ("ex", "both"):
                body["__getnewargs_ex__"] = _logged("getnewargs_ex", (args, kw))
        if base is not Exception:
            body["__init__"] = _logged("init", None)
        reduced = base is not tuple and r.random() < 0.55
        length = r.randrange(2, 7) if reduced else 0
        st = r.choice(("none", "none", "dict", "list", "pair", "str", "obj"))
        setting = r.choice(("method", "method", "getattr", "no"))
        if st in ("list", "str", "obj") and setting == "no" or base is Exception and setting == "getattr":
            setting = "method"
        if st == "none" and not reduced:
            setting = "no"  # known finding setstate-alone
        if length > 2 and st != "none" and setting == "no" and base is not Exception:
            setting = "method"  # known finding reduce-and-getstate
        if self.slots and setting == "no" and st == "dict":
            st = "pair"
        if base is Exception and st == "pair" and setting == "no":
            st = "dict"  # exceptions have a __setstate__ that takes a dict
        self.combo = (base.__name__, "slots" if self.slots else "dict", new, st, setting, length)
        if st != "none":
            state = {
                "dict": lambda: {"s0": value(), "x": value()},
                "list": lambda: [value(), value()],
                "pair": lambda: (None if self.slots else {"x": value()}, {"s0": value(), "s1": value()}),
                "str": lambda: "state",
                "obj": lambda: F.DC(value(), [1]),
            }[st]()
            body["__getstate__"] = _logged("getstate", state)
        if setting == "method":
            def __setstate__(self, state):
                LOG.append(("setstate", type(self).__name__))
                self.s0 = state

            body["__setstate__"] = __setstate__
        elif setting == "getattr":
            def __getattr__(self, name):
                if name == "__setstate__":
                    def setstate(state):
                        LOG.append(("setstate", type(self).__name__))
                        self.s0 = [state]

                    return setstate
                raise AttributeError(name)

            body["__getattr__"] = __getattr__
        if reduced:
            how = r.choice(("build", "newobj", "class", "newobj_ex", "partial", "method"))
            self.combo += (how,)
            extra = tuple(value() for _ in range(r.randrange(0, 3))) if base is object and new != "none" else ()
            args = {int: ("5",), str: ("txt",)}.get(base, extra)
            rstate = value()
            if length < 6 and setting == "no":
                rstate = {"s0": value(), "y": value()}
                if self.slots:
                    rstate = {"s0": value()} if base is Exception else (None, {"s0": value()})
                elif base is not Exception and r.random() < 0.4:
                    rstate = (r.choice((rstate, None)), {"s1": value(), "z": value()})
                    length = min(length, 3)  # the items also set s1
            items = [value() for _ in range(r.randrange(0, 4))]
            pairs = [(r.choice(("k", 1, None, ("t", 1))), value()) for _ in range(r.randrange(0, 4))]
            self.items = length > 3

            def reduce(self, *protocol):
                LOG.append(("reduce", type(self).__name__))
                c = type(self)
                out = list({
                    "build": lambda: (build, (c, *args)),
                    "newobj": lambda: (copyreg.__newobj__, (c, *args)),
                    "class": lambda: (c, args),
                    "newobj_ex": lambda: (copyreg.__newobj_ex__, (c, args, {})),
                    "partial": lambda: (functools.partial(build, c), args),
                    "method": lambda: (c.build, args),
                }[how]())  # fmt: skip
                out += [rstate, iter(items) if items else None, iter(pairs) if pairs else None, put][: length - 2]
                return tuple(out)

            ex = r.random() < 0.3
            body["__reduce_ex__" if ex else "__reduce__"] = reduce
            if ex and r.random() < 0.5:
                def never(self):
                    raise AssertionError("__reduce_ex__ takes precedence")

                body["__reduce__"] = never
            body["build"] = classmethod(build)
            if length > 3:
                def append(self, x):
                    LOG.append(("append", type(self).__name__))
                    self.s1 = [x, getattr(self, "s1", None)]

                def setitem(self, k, x):
                    LOG.append(("setitem", type(self).__name__))
                    self.s1 = (k, x, getattr(self, "s1", None))

                body["append"], body["__setitem__"] = append, setitem
                if r.random() < 0.4:
                    def extend(self, xs):
                        LOG.append(("extend", type(self).__name__))
                        self.s1 = [list(xs), getattr(self, "s1", None)]

                    body["extend"] = extend
        self.cls = self.assemble(n, body)

    def assemble(self, n, body):
        """Spread the hooks over a class, its parent and a mixin."""
        r = self.r
        levels = r.choice((1, 1, 2, 3))
        parts = [{} for _ in range(levels)]
        for k, v in body.items():
            r.choice(parts)[k] = v
        bases = (self.base,)
        if self.slots:
            for p in parts:
                p["__slots__"] = ()
            parts[-1]["__slots__"] = ("s0", "s1")
        cls = None
        for i, p in reversed(list(enumerate(parts))):
            name = f"Q{n}" + "b" * i
            if i == 1 and levels == 3 and self.base is object and not self.slots:
                cls, rest = mkcls._place(type(name, (object,), p)), cls
                bases = (cls, rest)
                continue
            cls = mkcls._place(type(name, bases, p))
            bases = (cls,)
        return cls

    def make(self, value):
        c = self.cls
        if self.base is tuple:
            o = c.__new__(c, (1, "t"))
        elif self.base in (int, str):
            o = c.__new__(c, {int: 7, str: "txt"}[self.base])
        elif self.base is Exception:
            o = c("boom", value())
        else:
            o = c.__new__(c)
        for k in ("s0", "s1"):
            if self.r.random() < 0.7:
                setattr(o, k, value())
        return o


def made(r, mon):
    """Classes with any combination of hooks, judged by pickle: the graph and the hooks run, in order."""
    mkcls.reset()
    pool = [[1], {"k": [2]}, F.DC(3, "s")]

    def value():
        k = r.randrange(8)
        if k < 3:
            return r.choice(pool)
        if k == 3:
            return [r.choice(pool)]
        if k == 4:
            return {"d": r.choice(pool)}
        return r.choice((None, 1, "s", 2.5, True, (1, 2), int, F.Plain, State, len, F.module_function))

    protos = []
    objs = []
    for n in range(r.randrange(1, 4)):
        p = Protocol(r, n, value)
        protos.append(p)
        for _ in range(r.randrange(1, 3)):
            o = p.make(value)
            objs.append(o)
            if p.base is object:
                pool.append(o)
    v = [r.choice(pool), *objs, r.choice(objs), {"last": r.choice(pool)}]
    LOG.clear()
    data = pickle.dumps(v, 4)
    penc = list(LOG)
    LOG.clear()
    p = pickle.loads(data)
    pdec = list(LOG)
    LOG.clear()
    j = encode(mon, v)
    enc = list(LOG)
    LOG.clear()
    d = decode(mon, j)
    dec = list(LOG)
    combos = [q.combo for q in protos]
    try:
        iso.same(p, d, what="jsonpickle")
    except Violation as e:
        e.detail.update(document=j, classes=combos)
        e.msg = e.args[0].replace("jsonpickle graph differs", "differs from what pickle restores")
        raise
    mon.event("agrees_with_pickle")
    check(collections.Counter(enc) == collections.Counter(penc), "other hooks were called on encode than by pickle", jsonpickle=enc, pickle=penc, classes=combos, document=j)
    check(collections.Counter(dec) == collections.Counter(pdec), "other hooks were called on decode than by pickle", jsonpickle=dec, pickle=pdec, classes=combos, document=j)
    mon.event("hook_calls_checked", len(enc) + len(dec))
    mon.event("made_classes", len(protos))
    mon.sig("made", tuple(combos))


def _native(r, value):
    """A class of the standard library with its own protocol hooks, and arguments for it."""
    text = gen.rstr(r)
    date = (r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29))
    values = [value() for _ in range(r.randrange(0, 4))]
    return r.choice((
        (collections.deque, (values, r.choice((None, 2, 9)))), (array.array, ("i", [r.randrange(-9, 9) for _ in values])), (bytearray, (text.encode("utf-8", "ignore"),)),
        (bytes, (text.encode("utf-8", "ignore"),)), (frozenset, (range(len(values)),)), (complex, (r.random(), -0.0)), (float, (gen.rfloat(r),)), (int, (gen.rint(r),)), (str, (text,)),
        (tuple, (values,)), (datetime.date, date), (datetime.datetime, (*date, r.randrange(24), r.randrange(60), 5, 6)), (datetime.time, (r.randrange(24), 7)), (datetime.timedelta, (r.randrange(-99, 99), 3, 4)),
        (decimal.Decimal, (r.choice(("1.50", "NaN", "-0", "1E+9")),)), (fractions.Fraction, (r.randrange(-9, 9), 7)), (uuid.UUID, (), {"int": r.getrandbits(128)}), (pathlib.PurePosixPath, ("a", "b.c")),
        (types.SimpleNamespace, (), {"a": value(), "b": value()}), (random.Random, (r.randrange(99),)), (collections.UserDict, ({"a": value()},)), (collections.UserList, (values,)),
        (collections.ChainMap, ({"a": value()}, {"b": value()})), (io.StringIO, ("some text",)), (io.BytesIO, (b"some bytes",)), (ValueError, tuple(values)), (OSError, (r.randrange(1, 30), "no", "f")),
        (KeyError, ("k",)), (UnicodeDecodeError, ("utf8", b"xyz", 0, 2, "why")), (StopIteration, (value(),)), (SystemExit, (r.randrange(9),)), (ImportError, ("m",)), (ExceptionGroup, ("g", [ValueError(value()), KeyError(2)])),
        (ipaddress.IPv4Address, (r.getrandbits(32),)), (ipaddress.IPv6Network, ((r.getrandbits(64) << 64, 64),)), (functools.partial, (int, "5")), (statistics.NormalDist, (r.random(), 2.0)), (list, (values,)), (set, (range(len(values)),)),
    ))  # fmt: skip


def natives(r, mon):
    """Subclasses of library classes with hooks of their own, judged by pickle."""
    mkcls.reset()
    pool = [[1], {"k": [2]}, F.DC(3, "s")]

    def value():
        return r.choice(pool) if r.random() < 0.5 else r.choice((None, 1, "s", 2.5, (1, 2)))

    v = []
    names = []
    for n in range(r.randrange(1, 5)):
        base, args, *kw = _native(r, value)
        cls = base
        form = r.randrange(4)
        if form and (base is not uuid.UUID or form == 1):
            body = [None, {}, {"__slots__": ()}, {"__doc__": "d"}][form]
            cls = mkcls._place(type(f"N{n}", (base,), body))
        o = cls(*args, **(kw[0] if kw else {}))
        if cls is not base and form != 2 and base is not uuid.UUID:
            for i in range(r.randrange(0, 3)):
                setattr(o, f"attr{i}", value())
        if isinstance(o, (io.StringIO, io.BytesIO)):
            o.seek(r.randrange(5))
        names.append((base.__name__, form))
        v.append(o)
        pool.append([o])
        v.append(r.choice(pool))
    if r.random() < 0.5:
        v.append(r.choice(v))
    p = pickle.loads(pickle.dumps(v, 4))
    j = encode(mon, v)
    d = decode(mon, j)
    try:
        iso.same(p, d, what="jsonpickle")
    except Violation as e:
        e.detail.update(document=j, classes=names)
        raise
    mon.event("agrees_with_pickle")
    mon.event("natives", len(names))
    mon.sig("natives", tuple(names))


class FalseState(Base):
    def __getstate__(self):
        return {}


def _false_state():
    o = FalseState()
    o.secret = 1
    d = decode_(o)
    check("secret" not in d.__dict__, "attributes outside the (empty) state were encoded", got=short(d.__dict__))


class SetAlone(Base):
    def __setstate__(self, st):
        self.got = st


def _setstate_alone():
    check("got" in decode_(SetAlone()).__dict__, "__setstate__ was not called")


class TwoStates(Base):
    def __getstate__(self):
        return {"a": 1}

    def __reduce__(self):
        return make, (TwoStates,), {"b": 2}


def _reduce_and_getstate():
    check("b" in decode_(TwoStates()).__dict__, "the state of __reduce__ was not used")


class ListState(list):
    def __getstate__(self):
        return {"a": 1}


class DictState(dict):
    def __getstate__(self):
        return {"a": 1}


def _container_state():
    check(decode_(ListState([1, 2])) == [1, 2] and decode_(DictState(k=1)) == {"k": 1}, "the items were lost")


class Named:
    def __reduce__(self):
        return "NAMED"


NAMED = Named()


def _reduce_string():
    check(decode_(NAMED) is NAMED, "the object that __reduce__ names was copied")


def decode_(o):
    import jsonpickle

    return jsonpickle.decode(jsonpickle.encode(o))


class LogList(list):
    def append(self, v):
        LOG.append("append")
        list.append(self, v)

    def extend(self, v):
        LOG.append("extend")
        list.extend(self, v)


class LogAppend:
    def __init__(self):
        self.got = []

    def append(self, v):
        LOG.append("append")
        self.got.append(v)


class LogDict(dict):
    def __setitem__(self, k, v):
        LOG.append("setitem")
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        LOG.append("update")
        dict.update(self, *a, **k)


class LogOrdered(collections.OrderedDict):
    def __setitem__(self, k, v):
        LOG.append("setitem")
        super().__setitem__(k, v)


class LogBoth(LogAppend):
    def __setitem__(self, k, v):
        LOG.append("setitem")
        self.got.append((k, v))


class Turns:
    """Is reduced to an object of another class."""

    def __init__(self, *a):
        self.a = a

    def __reduce__(self):
        cls, state, items, pairs = self.a
        return cls, (), state, iter(items) if items else None, iter(pairs) if pairs else None


def turned(r, mon):
    """Which methods the items of an object made by __reduce__ go through."""

    def one():
        cls = r.choice((LogList, LogAppend, LogDict, LogOrdered, LogBoth))
        items = [r.choice((1, "x", [2], None)) for _ in range(r.randrange(0, 4))] if cls in (LogList, LogAppend, LogBoth) else ()
        pairs = [(r.choice(("a", "b", 1, (2, 3))), r.choice((1, [2], None))) for _ in range(r.randrange(0, 4))] if cls in (LogDict, LogOrdered, LogBoth) else ()
        return Turns(cls, r.choice((None, {"z": 1})), items, pairs)

    v = [one() for _ in range(r.randrange(1, 4))]
    data, j = pickle.dumps(v, 2), encode(mon, v, keys=True)
    LOG.clear()
    want = pickle.loads(data)
    calls = sorted(LOG)
    LOG.clear()
    got = decode(mon, j, keys=True)
    mine = sorted(LOG)
    LOG.clear()
    check(mine == calls, f"pickle calls {calls}, jsonpickle {mine}", document=j)
    compare(mon, want, got, j)
    mon.event("turned", len(calls))
    mon.sig("turned", tuple((o.a[0].__name__, bool(o.a[1]), len(o.a[2]), len(o.a[3])) for o in v))


SCENARIOS = [
    Scenario("turned", turned, 2000),
    Scenario("graph", graph, 12000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("cyclic", cyclic, 6000),
    Scenario("states", states, 6000),
    Scenario("builtin_new", builtin_new, 1500),
    Scenario("no_init", no_init, 1500),
    Scenario("initargs", initargs, 2000),
    Scenario("copies", copies, 2500),
    Scenario("made", made, 12000),
    Scenario("natives", natives, 6000),
]
FINDINGS = {
    "false-state": _false_state,
    "setstate-alone": _setstate_alone,
    "reduce-and-getstate": _reduce_and_getstate,
    "container-state": _container_state,
    "reduce-string": _reduce_string,
}
