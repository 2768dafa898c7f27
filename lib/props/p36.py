"""P36: errors raised by user code while decoding reach the caller."""

import asyncio
import collections
import dataclasses
import functools
import random
import typing

import iso
import jsonpickle
from api import decode, encode
from core import Scenario, check

RULE = (
    "Random graphs of objects whose decoding runs user code (state setters of every kind, reduce functions, constructors, handlers, "
    "attribute, item, append and add methods, hashes, on_missing callbacks) in every kind of position. A first decoding counts the calls "
    "of user code, then one of them, chosen at random, raises one of many exceptions, also ones that end the program; exactly this "
    "exception must reach the caller, and the next decoding must work. Distinct by place, exception and shape."
)
REQUIRED = ("injected", "reached", "again", "missing_callbacks", "type_errors", "ends", "tied")
ASSUMPTIONS = [
    "a TypeError from a constructor or reduce function, an item that cannot be assigned and a KeyError from setattr() are taken as a request to build the object in another way",
]


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


ERRORS = (Boom, ValueError, KeyError, RuntimeError, OSError, AssertionError, ZeroDivisionError, RecursionError, LookupError, NotImplementedError,
          UnicodeError, StopAsyncIteration, MemoryError, EOFError, TypeError, TypeError, TypeError, AttributeError, AttributeError, IndexError, ImportError, NameError)  # fmt: skip
STOPS = (KeyboardInterrupt, SystemExit, asyncio.CancelledError, GeneratorExit, Stop)


class Plan:
    """Which call of user code raises what."""

    def __init__(self):
        self.idle()

    def idle(self):
        self.on = False

    def start(self, at=None, error=None):
        self.on, self.n, self.at, self.error = True, 0, at, error
        self.raised, self.where = None, None

    def hit(self, where, but=()):
        if not self.on:
            return
        self.n += 1
        if self.n - 1 == self.at:
            self.where = where
            self.raised = Boom("instead") if isinstance(self.error, but) else self.error
            raise self.raised


DEC = Plan()
ENC = Plan()


class State:
    def __getstate__(self):
        ENC.hit("getstate", TypeError)
        return self.form(self.v)

    def __setstate__(self, s):
        DEC.hit("setstate")
        self.form, self.v = _kept(s)


def as_dict(v):
    return {"form": as_dict, "v": v}


def as_tuple(v):
    return (as_tuple, v)


def as_list(v):
    return [as_list, v]


def _kept(s):
    return (s["form"], s["v"]) if type(s) is dict else tuple(s)


def made(cls, *args):
    DEC.hit("function", TypeError)
    o = cls.__new__(cls)
    o.args = args
    return o


class Reduced:
    def __reduce__(self):
        ENC.hit("reduce", TypeError)
        return made, (type(self), *self.args)


class ReducedState:
    def __reduce_ex__(self, protocol):
        ENC.hit("reduce_ex", TypeError)
        return made, (type(self), 1), {"v": self.v}

    def __setstate__(self, s):
        DEC.hit("reduced setstate")
        self.v = s["v"]


def set_v(o, s):
    DEC.hit("state setter")
    o.v = s[0]


class ReducedSetter:
    def __reduce_ex__(self, protocol):
        ENC.hit("reduce_ex", TypeError)
        return made, (type(self),), (self.v,), None, None, set_v


class ReducedItems:
    """Not a list, but made like one."""

    def __init__(self):
        self.items, self.pairs = [], []

    def __new__(cls):
        self = object.__new__(cls)
        self.items, self.pairs, self.args = [], [], ()
        return self

    def __reduce_ex__(self, protocol):
        ENC.hit("reduce_ex", TypeError)
        return made, (type(self),), None, iter(self.items), iter(self.pairs)

    def extend(self, items):
        DEC.hit("extend", AttributeError)
        self.items.extend(items)

    def __setitem__(self, k, v):
        DEC.hit("reduced setitem")
        self.pairs.append((k, v))


class Made:
    def __new__(cls, *args):
        DEC.hit("new", TypeError)
        self = object.__new__(cls)
        self.v = args
        return self

    def __getnewargs__(self):
        ENC.hit("getnewargs", TypeError)
        return tuple(self.v)


class MadeEx:
    def __new__(cls, *args, **kw):
        DEC.hit("new_ex", TypeError)
        self = object.__new__(cls)
        self.v = (args, kw)
        return self

    def __getnewargs_ex__(self):
        ENC.hit("getnewargs_ex", TypeError)
        return self.v[0], self.v[1]


class Handled:
    def __init__(self, v):
        self.v = v


class Handler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        ENC.hit("handler flatten")
        data["v"] = self.context.flatten(obj.v, reset=False)
        ENC.hit("handler flatten, late")
        return data

    def restore(self, data):
        DEC.hit("handler restore")
        out = Handled(self.context.restore(data["v"], reset=False))
        DEC.hit("handler restore, late")
        return out


class Watched:
    """Attributes are set by a method."""

    def __setattr__(self, k, v):
        DEC.hit("setattr", KeyError)
        object.__setattr__(self, k, v)


class Setter:
    @property
    def v(self):
        return self.__dict__["v"]

    @v.setter
    def v(self, v):
        DEC.hit("property setter", KeyError)
        self.__dict__["v"] = v


class List(list):
    def append(self, v):
        DEC.hit("append")
        super().append(v)


class Set(set):
    def add(self, v):
        DEC.hit("add")
        super().add(v)


class Dict(dict):
    def __setitem__(self, k, v):
        DEC.hit("setitem", TypeError)
        super().__setitem__(k, v)


class Hashed:
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        DEC.hit("hash", TypeError)
        return id(self) >> 4

    def __eq__(self, other):
        return self is other


class Plain:
    def __init__(self, v):
        self.v = v


class Slots:
    __slots__ = ("a", "b", "c")


class SlotsAndDict(Slots):
    pass


@dataclasses.dataclass
class Data:
    a: typing.Any
    b: typing.Any = 0


@dataclasses.dataclass(frozen=True, eq=False)
class Frozen:
    a: typing.Any
    b: typing.Any = 0


class Named(typing.NamedTuple):
    a: typing.Any
    b: typing.Any


class Tuple(tuple):
    pass


class Failed(Exception):
    pass


class Maker:
    chains = True

    def __init__(self, r, keys=False, iters=False):
        self.r, self.keys, self.iters = r, keys, iters
        self.budget = r.choice((3, 8, 20))

    def some(self, depth):
        return [self.value(depth) for _ in range(self.r.randrange(0, 4))]

    def value(self, depth):
        r = self.r
        self.budget -= 1
        if depth <= 0 or self.budget < 0:
            return r.choice((1, "a", None, 2.5))
        k = r.random()
        return self.fault(depth - 1) if k < 0.5 else self.place(depth - 1)

    def hashable(self, depth):
        r = self.r
        k = r.random()
        if k < 0.5:
            return Hashed(self.value(depth - 1))
        o = self.fault(depth - 1)
        while isinstance(o, (list, set, dict)):
            o = self.fault(depth - 1)
        return o if k < 0.8 else (o, r.randrange(9))

    def fault(self, d):
        r = self.r
        c = r.choice((State, Reduced, ReducedState, ReducedSetter, ReducedItems, Made, MadeEx, Handled, Watched, Setter, List, Set, Dict, Hashed))
        if c is State:
            o = c()
            o.form, o.v = r.choice((as_dict, as_tuple, as_list)), self.value(d)
        elif c is Reduced:
            o = c()
            o.args = tuple(self.some(d))
        elif c in (ReducedState, ReducedSetter, Watched, Setter):
            o = c()
            o.v = self.value(d)
            if c in (ReducedState, ReducedSetter):
                o.args = (1,) if c is ReducedState else ()
        elif c is ReducedItems:
            o = c()
            o.items = self.some(d)
            o.pairs = [(f"k{i}", v) for i, v in enumerate(self.some(d))]
        elif c is Made:
            o = Made(*self.some(d))
        elif c is MadeEx:
            o = MadeEx(*self.some(d), **{f"k{i}": v for i, v in enumerate(self.some(d))})
        elif c is Set:
            o = Set([self.hashable(d) for _ in range(r.randrange(0, 3))])
        elif c is Dict:
            o = Dict({f"k{i}": v for i, v in enumerate(self.some(d))})
        elif c is List:
            o = List(self.some(d))
        else:
            o = c(self.value(d))
        return o

    def place(self, d):
        r = self.r
        k = r.randrange(22 if self.keys else 21)
        if k == 0:
            return self.some(d)
        if k in (1, 2):
            return tuple(self.some(d))
        if k == 3:
            return {f"k{i}": v for i, v in enumerate(self.some(d))}
        if k in (4, 5):
            return r.choice((set, frozenset))([self.hashable(d) for _ in range(r.randrange(0, 3))])
        if k == 6:
            return collections.deque(self.some(d))
        if k == 7:
            return collections.OrderedDict((f"k{i}", v) for i, v in enumerate(self.some(d)))
        if k == 8:
            return collections.defaultdict(list, {f"k{i}": v for i, v in enumerate(self.some(d))})
        if k == 9:
            return Plain(self.value(d))
        if k in (10, 11, 12):
            o = r.choice((Slots, SlotsAndDict))()
            for n in "abc":
                if r.random() < 0.7:
                    setattr(o, n, self.value(d))
            return o
        if k == 13:
            return Data(self.value(d), self.value(d))
        if k == 14:
            return Frozen(self.value(d), self.value(d))
        if k == 15:
            return Named(self.value(d), self.value(d))
        if k == 16:
            o = Tuple(self.some(d))
            o.extra = self.value(d)
            return o
        if k == 17:
            return functools.partial(made, *self.some(d))
        if k == 18:
            return Failed(*self.some(d))
        if k == 19 and self.iters:
            return iter(self.some(d))
        if k == 20 and self.chains:
            return collections.ChainMap({"a": self.value(d)}, {})
        if k == 21:
            return {self.hashable(d): self.value(d) for _ in range(r.randrange(0, 3))}
        return [self.value(d)]


def build(seed, keys, iters):
    r = random.Random(seed)
    m = Maker(r, keys, iters)
    v = [m.value(5), m.value(4)]
    return r.choice((v, v[0], tuple(v), {"a": v[0], "b": v[1]}))


def _parts(v, seen):
    if id(v) in seen or isinstance(v, (int, float, str, type(None), type)):
        return
    seen[id(v)] = v
    for x in list(v) if isinstance(v, (list, tuple, set, frozenset, collections.deque)) else list(v.values()) if isinstance(v, dict) else ():
        _parts(x, seen)
    for x in (*getattr(v, "__dict__", {}).values(), *(getattr(v, n, None) for n in ("a", "b", "c") if isinstance(v, Slots))):
        _parts(x, seen)


def tie(r, v):
    """Lets some objects refer to objects that contain them."""
    seen = {}
    _parts(v, seen)
    objs = list(seen.values())
    targets = [o for o in objs if isinstance(o, (State, Reduced, ReducedState, ReducedSetter, ReducedItems, Made, MadeEx, Handled))]
    places = [o for o in objs if isinstance(o, (Watched, Setter, Plain, List, Dict)) or type(o) in (list, dict)]
    for _ in range(r.randrange(1, 4)):
        if targets and places:
            p, t = r.choice(places), r.choice(targets)
            if isinstance(p, list):
                list.append(p, t)
            elif isinstance(p, dict):
                dict.__setitem__(p, "tied", t)
            else:
                p.v = t
    return bool(targets and places)


def failing(r, mon):
    keys = r.random() < 0.3
    v = build(r.getrandbits(60), keys, True)
    tied = r.random() < 0.4 and tie(r, v)
    kw = {"keys": True} if keys else {}
    DEC.idle()
    ENC.idle()
    jsonpickle.handlers.register(Handled, Handler)
    try:
        j = encode(mon, v, **kw)
        DEC.start()
        try:
            whole = decode(mon, j, **kw)
        except Exception:
            if not tied:
                raise
            # some cycles cannot be built
            mon.event("impossible")
            return
        calls = DEC.n
        mon.event("tied", tied)
        DEC.idle()
        if not calls:
            mon.event("no_user_code")
            return
        for _ in range(r.choice((1, 2, 4))):
            error = r.choice(STOPS if r.random() < 0.1 else ERRORS)(r.randrange(99))
            DEC.start(r.randrange(calls), error)
            try:
                got = decode(mon, j, **kw)
                DEC.on = False
                check(DEC.raised is None, f"{DEC.raised!r} raised in {DEC.where} was swallowed", document=j, got=repr(got))
                check(False, "a decoding ran less user code than the one before", document=j)
            except BaseException as e:
                DEC.on = False
                if e is not DEC.raised:
                    if DEC.raised is not None and not type(e).__module__.startswith("core"):
                        check(False, f"{DEC.raised!r} raised in {DEC.where} became {e!r}", document=j)
                    raise
            check(DEC.n == DEC.at + 1, f"user code ran after {DEC.raised!r} raised in {DEC.where}", document=j, calls=DEC.n - DEC.at - 1)
            mon.event("injected")
            mon.event("reached:" + DEC.where)
            mon.event("reached")
            mon.event("type_errors", type(DEC.raised) is TypeError)
            mon.event("ends", not isinstance(DEC.raised, Exception))
            mon.sig("failing", DEC.where, type(DEC.raised).__name__, iso.shape(whole, 40))
        DEC.start()
        decode(mon, j, **kw)
        check(DEC.n == calls, "a failed decoding changed the next one", before=calls, after=DEC.n, document=j)
        mon.event("again")
    finally:
        DEC.idle()
        jsonpickle.handlers.unregister(Handled)


def missing(r, mon):
    """A callback for missing classes that raises."""
    names = [f"vp_nowhere.C{i}" for i in range(r.randrange(1, 5))]
    docs = ['{"py/object": "%s", "a": %d}' % (n, i) for i, n in enumerate(names)]
    shape = r.choice(('[%s]', '{"py/tuple": [%s]}', '[1, {"py/tuple": [[%s], 2]}]', '{"a": {"py/tuple": [%s]}}', '{"py/reduce": [{"py/type": "builtins.list"}, {"py/tuple": [[%s]]}]}',
                      '{"py/reduce": [{"py/type": "builtins.list"}, {"py/tuple": []}, null, {"py/tuple": [%s]}]}', '{"py/iterator": [%s]}'))  # fmt: skip
    j = shape % ", ".join(docs)
    at = r.randrange(len(names))
    error = r.choice(STOPS if r.random() < 0.2 else ERRORS)("callback")
    seen = []

    def callback(name):
        seen.append(name)
        if len(seen) == at + 1:
            raise error

    try:
        got = decode(mon, j, on_missing=callback)
    except BaseException as e:
        if e is not error:
            raise
    else:
        check(False, f"{error!r} raised by the on_missing callback was swallowed", document=j, got=repr(got))
    check(seen == names[: at + 1], "callbacks", seen=seen)
    check("vp_nowhere" in repr(jsonpickle.decode('[{"py/object": "vp_nowhere.C"}]')), "next call")
    mon.event("missing_callbacks")
    mon.sig("missing", shape, at, type(error).__name__)


SCENARIOS = [Scenario("failing", failing, 20000), Scenario("missing", missing, 2000)]
