"""P26: attributes named in _jsonpickle_exclude never reach the document."""

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode
from core import Scenario, check
from jsonpickle.pickler import Pickler

RULE = (
    "Graphs of instances of classes of every storage layout (dict, slots, both, inherited, dataclass, subclasses of list, set, dict, str "
    "and int, with __getstate__ and __getnewargs__) that exclude names at class or instance level, given as list, tuple, set, frozenset, "
    "dict or generated. Excluded values are poisoned: touching them in any way fails. The document must equal that of the same graph with "
    "the excluded attributes deleted, in every encoding mode. Distinct by layout and shape."
)
REQUIRED = ("documents", "excluded_values", "nodes_compared", "instance_level", "class_level", "simple_mode", "same_text", "kept_elsewhere", "excluded_items")


class Poison:
    """Must never be looked at."""

    def __reduce_ex__(self, protocol):
        raise AssertionError("an excluded value was encoded")

    def __getstate__(self):
        raise AssertionError("an excluded value was encoded")

    def __repr__(self):
        raise AssertionError("an excluded value was printed")


POISON = Poison()
NAMES = ("a", "b", "c", "d", "secret", "_hidden", "x1")


class ExDict:
    _jsonpickle_exclude = ["secret", "b"]


class ExTuple:
    _jsonpickle_exclude = ("secret",)


class ExSub(ExDict):
    pass


class ExOver(ExDict):
    _jsonpickle_exclude = {"c", "d"}


class ExSlots:
    __slots__ = ("a", "b", "secret", "c")
    _jsonpickle_exclude = frozenset({"secret", "c"})


class ExSlotsSub(ExSlots):
    __slots__ = ("d", "_hidden")
    _jsonpickle_exclude = ["secret", "_hidden"]


class ExBoth(ExSlots):
    """Slots of the base class and a __dict__."""

    _jsonpickle_exclude = ("secret", "b", "d")


class ExAllSlots:
    __slots__ = ("a", "b")
    _jsonpickle_exclude = ("a", "b")


class ExList(list):
    _jsonpickle_exclude = ("secret", "a")


class ExSet(set):
    _jsonpickle_exclude = ["secret"]


class ExDictSub(dict):
    _jsonpickle_exclude = ("secret", "a")


class ExItems(dict):
    """Items are excluded by their keys, which can be anything."""

    _jsonpickle_exclude = ("secret", "a", 7, (1, 2), None)


class ExStr(str):
    _jsonpickle_exclude = ("secret", "a")


class ExInt(int):
    _jsonpickle_exclude = ("secret", "a")


class ExState:
    _jsonpickle_exclude = ("secret", "a")

    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        self.__dict__.update(state)


class ExStateOnly:
    _jsonpickle_exclude = ("secret",)

    def __getstate__(self):
        return dict(self.__dict__)


class ExNewArgs:
    _jsonpickle_exclude = ("secret", "b")

    def __new__(cls, n=0):
        self = object.__new__(cls)
        self.c = n
        return self

    def __getnewargs__(self):
        return (self.c,)


class ExInstance:
    """Exclusion set on the instance."""


class ExProperty:
    @property
    def _jsonpickle_exclude(self):
        return ["secret", "x1"]


import dataclasses  # noqa: E402
import typing  # noqa: E402


@dataclasses.dataclass
class ExData:
    a: typing.Any = 1
    secret: typing.Any = None
    _jsonpickle_exclude: typing.ClassVar = ("secret", "c")


@dataclasses.dataclass(frozen=True)
class ExFrozen:
    a: typing.Any = 1
    secret: typing.Any = None
    _jsonpickle_exclude: typing.ClassVar = ("secret",)


class Default:
    """The class attribute shows after decoding."""

    secret = "default"
    a = None
    _jsonpickle_exclude = ("secret", "b")

    @property
    def b(self):
        raise AssertionError("an excluded property was looked at")

    b = b.setter(lambda self, v: self.__dict__.update(b=v)).deleter(lambda self: self.__dict__.pop("b"))


DICTS = (ExDict, ExTuple, ExSub, ExOver, ExState, ExStateOnly, ExProperty, Default, ExNewArgs)
SLOTS = (ExSlots, ExSlotsSub, ExBoth, ExAllSlots)


def slots_of(cls):
    return [n for c in cls.__mro__ for n in c.__dict__.get("__slots__", ())]


def make(r, g, depth):
    """An instance; excluded attributes are noted in g.cut."""
    k = r.randrange(9)
    if k <= 2:
        c = r.choice(DICTS)
        o = c.__new__(c)
    elif k == 3:
        o = r.choice(SLOTS)()
    elif k == 4:
        o = r.choice((ExData, ExFrozen))()
    elif k == 5:
        o = ExInstance()
        o.__dict__["_jsonpickle_exclude"] = r.choice((list, tuple, set))(r.sample(NAMES, r.randrange(0, 4)))
        if type(o._jsonpickle_exclude) is set and r.random() < 0.5:
            o._jsonpickle_exclude = ["secret"]
        g.mon.event("instance_level")
    elif k == 6:
        o = ExList()
    elif k == 7:
        o = r.choice((ExSet, ExDictSub, ExItems))()
    else:
        c = r.choice((ExStr, ExInt))
        o = c(gen.rstr(r)) if c is ExStr else c(gen.rint(r))
    if k != 5:
        g.mon.event("class_level")
    ex = set(o._jsonpickle_exclude)
    g.keep(o, mutable=False, target=k < 7)
    if isinstance(o, list):
        o.extend(g.value(depth) for _ in range(r.randrange(0, 3)))
    elif isinstance(o, set):
        o.update(gen.rint(r) for _ in range(r.randrange(0, 3)))
    elif isinstance(o, dict):
        o.update({f"k{i}": g.value(depth) for i in range(r.randrange(1, 3))})
        if isinstance(o, ExItems):
            for k in r.sample((7, (1, 2), None, 8, (1, 3), "secret"), r.randrange(1, 5)):
                if k in ex:
                    o[k] = POISON
                    g.items.append((o, k))
                elif g.keys:
                    o[k] = g.value(depth)
    names = slots_of(type(o)) if k == 3 and not isinstance(o, ExBoth) else list(NAMES)
    if k == 4:
        names = ["a", "secret"]
    for n in names:
        if n in ex:
            if k == 4 or r.random() < 0.7:
                # a value that is also used elsewhere, or poison
                object.__setattr__(o, n, r.choice(g.pool) if r.random() < 0.3 else POISON)
                g.cut.append((o, n))
        elif n == "c" and isinstance(o, ExNewArgs):
            o.c = gen.rint(r)
        elif k == 4 or r.random() < 0.5:
            object.__setattr__(o, n, g.value(depth))
    return o


MODES = ({}, {}, {}, {"unpicklable": False}, {"keys": True}, {"make_refs": False}, {"warn": True}, {"use_base85": True}, {"include_properties": True}, {"include_properties": True, "unpicklable": False})
KINDS = ["exclude"] * 3 + ["list", "dict", "plainargs", "tuple", "node"]


def graphs(r, mon):
    mode = r.choice(MODES)
    simple = mode.get("make_refs") is False or mode.get("unpicklable") is False
    g = gen.Graph(r, share=0 if simple else 0.3, cycles=not simple, budget=r.choice((4, 10, 20)), kinds=KINDS, stdlib=False)
    g.cut, g.items, g.keys, g.mon = [], [], mode.get("keys"), mon
    x = g.make(4)
    first = r.random() < 0.5
    if first:
        j = encode(mon, x, **mode)
    else:
        f = Pickler(**{k: v for k, v in mode.items()}).flatten(x)
    before = {id(o) for o, _ in g.cut}
    for o, n in g.cut:
        check(n in getattr(o, "__dict__", ()) or hasattr(o, n), "encoding removed an excluded attribute from the object")
        object.__delattr__(o, n)
    for o, k in g.items:
        check(k in o, "encoding removed an excluded item from the object")
        del o[k]
        mon.event("excluded_items")
    if first:
        want = encode(mon, x, **mode)
        check(j == want, "excluded attributes changed the document", document=j, without=want, mode=mode)
    else:
        want = Pickler(**mode).flatten(x)
        w = iso.same(want, f, identity=False) if "identity" in iso.same.__code__.co_varnames else iso.same(want, f)
        mon.event("nodes_compared", w.visited)
        j = encode(mon, x, **mode)
    mon.event("same_text")
    mon.event("documents")
    mon.event("excluded_values", len(g.cut))
    if simple:
        mon.event("simple_mode")
    if mode.get("unpicklable", True) and mode.get("make_refs", True):
        # nothing but the excluded attributes is missing
        compare(mon, x, decode(mon, j, **({"keys": True} if mode.get("keys") else {})), j)
        if before:
            mon.event("kept_elsewhere")
    mon.sig(str(mode), tuple(sorted((type(o).__name__, n) for o, n in g.cut)), iso.shape(x, 30))


gen.KINDS["exclude"] = lambda g, d: make(g.r, g, d)
SCENARIOS = [Scenario("graphs", graphs, 14000), Scenario("huge", gen.huge(graphs), 16, 200)]
