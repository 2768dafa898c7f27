"""Importable classes that the workloads serialize.

Nothing in here knows about jsonpickle.  Classes that count calls do so through
TRACE, a list the monitors reset and read.
"""

from __future__ import annotations

import collections
import dataclasses
import enum
import functools
import typing

TRACE: list = []


class Plain:
    """Attributes only, any values."""


class PlainArgs:
    """Cannot be created without arguments."""

    def __init__(self, a, b, *, c):
        TRACE.append("PlainArgs.__init__")
        self.a, self.b, self.c = a, b, c


class TwoFaced:
    """str() and format() say something else than repr()."""

    def __repr__(self):
        return "TwoFaced by repr"

    def __str__(self):
        return "TwoFaced by str"

    def __format__(self, spec):
        return "TwoFaced by format"


class PlainChild(Plain):
    kind = "class attribute"


class ValueObj:
    """Hashable by value; usable as dict key and set member."""

    def __init__(self, uid, extra=None):
        self.uid = uid
        self.extra = extra

    def __eq__(self, other):
        return type(other) is type(self) and other.uid == self.uid

    def __hash__(self):
        return hash(("ValueObj", getattr(self, "uid", None)))


class AlwaysEqual:
    """Equal to everything; sharing must be decided by identity."""

    def __init__(self, v=None):
        self.v = v

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class NeverEqual:
    def __init__(self, v=None):
        self.v = v

    def __eq__(self, other):
        return False

    __hash__ = None


class RaisesOnCompare:
    def __init__(self, v=None):
        self.v = v

    def __eq__(self, other):
        raise RuntimeError("must not be compared")

    def __call__(self):
        raise RuntimeError("must not be called")

    __hash__ = None


class Falsy:
    def __init__(self, v=None):
        self.v = v

    def __bool__(self):
        return False


class Sized0:
    """len() == 0, so false in boolean context."""

    def __init__(self, v=None):
        self.v = v

    def __len__(self):
        return 0


class CallableObj:
    def __init__(self, v=None):
        self.v = v

    def __call__(self):
        return 0


class WithProperty:
    def __init__(self, v=None):
        self._v = v

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, value):
        self._v = value


class WithPrivate:
    def __init__(self, v):
        self.__v = v
        self._p = v

    def get(self):
        return self.__v


class WithPrivateChild(WithPrivate):
    def __init__(self, v, w):
        super().__init__(v)
        self.__v = w

    def get2(self):
        return self.__v


class Slots:
    __slots__ = ("a", "b")


class DictSlots(dict):
    __slots__ = ("s",)


class SlotsChild(Slots):
    __slots__ = ("c",)


class SlotsStr:
    __slots__ = "only"


class SlotsRedeclared(Slots):
    __slots__ = ("a", "d")


class SlotsPrivate:
    __slots__ = ("__x", "y")

    def __init__(self, x, y):
        self.__x, self.y = x, y

    def getx(self):
        return self.__x


class SlotsPrivateChild(SlotsPrivate):
    __slots__ = ("__x", "z")

    def __init__(self, x, y, x2, z):
        super().__init__(x, y)
        self.__x, self.z = x2, z

    def getx2(self):
        return self.__x


class _Underscored:
    __slots__ = ("__x",)

    def __init__(self, x):
        self.__x = x

    def getx(self):
        return self.__x


class SlotsAndDict(Slots):
    """Slots in the base class, __dict__ in this one."""


class SlotsWithDict:
    __slots__ = ("a", "__dict__")


class SlotsWeak:
    __slots__ = ("a", "__weakref__")


@dataclasses.dataclass
class DC:
    a: object
    b: object = None
    c: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True)
class FrozenDC:
    a: object
    b: object = None


@dataclasses.dataclass(slots=True)
class SlotsDC:
    a: object
    b: object = None


@dataclasses.dataclass(frozen=True, slots=True)
class FrozenSlotsDC:
    a: object
    b: object = None


@dataclasses.dataclass
class DCChild(DC):
    d: object = None

    def __post_init__(self):
        TRACE.append("DCChild.__post_init__")


class NT(typing.NamedTuple):
    x: object
    y: object = None


Point = collections.namedtuple("Point", "x y z", defaults=(0,))


class NTSub(NT):
    """Namedtuple subclass with a __dict__."""


class TupleSub(tuple):
    pass


class TupleSubSlots(tuple):
    __slots__ = ()


class ListSub(list):
    pass


class SetSub(set):
    pass


class FrozenSetSub(frozenset):
    pass


class DictSub(dict):
    pass


class OrderedSub(collections.OrderedDict):
    pass


class DefaultSub(collections.defaultdict):
    pass


class CounterSub(collections.Counter):
    pass


class DequeSub(collections.deque):
    pass


class UDict(collections.UserDict):
    pass


class UList(collections.UserList):
    pass


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class BytesSub(bytes):
    pass


class ByteArraySub(bytearray):
    pass


class Color(enum.Enum):
    RED = 1
    GREEN = "g"
    BLUE = (1, 2)
    ALIAS = 1


class IntColor(enum.IntEnum):
    ONE = 1
    TWO = 2


class Perm(enum.Flag):
    R = 1
    W = 2
    X = 4


class IntPerm(enum.IntFlag):
    R = 1
    W = 2


class StrColor(enum.StrEnum):
    A = "a"
    B = "b"


class CustomError(Exception):
    def __init__(self, code, payload=None):
        super().__init__(code, payload)
        self.code = code
        self.payload = payload


class Outer:
    class Inner:
        class Deepest:
            pass

        @staticmethod
        def static():
            return "static"


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class Generic(typing.Generic[typing.TypeVar("T")]):
    pass


class Node:
    """Doubly linked / tree node."""

    def __init__(self, name=""):
        self.name = name
        self.parent = None
        self.children = []


def module_function(*args):
    return ("module_function", args)


def other_function(x=1):
    return x


class Methods:
    def __init__(self, v=None):
        self.v = v

    def method(self):
        return ("method", self.v)

    @classmethod
    def klass(cls):
        return cls


# --- pickle protocol -------------------------------------------------------


class GetSetState:
    def __init__(self, a=None, b=None):
        TRACE.append("GetSetState.__init__")
        self.a, self.b, self.transient = a, b, "transient"

    def __getstate__(self):
        TRACE.append("GetSetState.__getstate__")
        return {"a": self.a, "b": self.b}

    def __setstate__(self, state):
        TRACE.append("GetSetState.__setstate__")
        self.a, self.b, self.transient = state["a"], state["b"], "restored"


class GetStateAny:
    """State of any type; restored through __setstate__."""

    def __init__(self, st):
        self.st = st
        self.calls = 0

    def __getstate__(self):
        return self.st

    def __setstate__(self, state):
        self.st = state
        self.calls = getattr(self, "calls", 0) + 1


class GetStateOnly:
    """No __setstate__: dict state becomes the attributes."""

    def __init__(self, a, b):
        self.a, self.b, self.hidden = a, b, "hidden"

    def __getstate__(self):
        d = dict(self.__dict__)
        del d["hidden"]
        return d


class SlotsGetState:
    """The (dict, slots) pair that object.__getstate__ documents."""

    __slots__ = ("a", "b")

    def __getstate__(self):
        return (None, {"a": self.a, "b": self.b})


class StateDictChild(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.extra = None

    def __getstate__(self):
        return {"items": list(self.items()), "extra": self.extra}

    def __setstate__(self, st):
        self.update(st["items"])
        self.extra = st["extra"]


class NewArgs:
    def __new__(cls, a, b):
        TRACE.append(("NewArgs.__new__", a is not None))
        self = object.__new__(cls)
        self.made = (a, b)
        return self

    def __getnewargs__(self):
        return self.made


class NewArgsEx:
    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        self.args = args
        self.kw = kw
        return self

    def __getnewargs_ex__(self):
        return self.args, self.kw


class NewArgsState(NewArgs):
    def __getstate__(self):
        return {"made": self.made, "more": getattr(self, "more", None)}


class InitArgs:
    def __init__(self, a, b):
        self.ia, self.ib = a, b

    def __getinitargs__(self):
        return (self.ia, self.ib)


def build(cls, *args):
    TRACE.append(("build", cls.__name__, len(args)))
    self = cls.__new__(cls)
    self.built = args
    return self


class ReduceBase:
    """Instances carry the reduce tuple's ingredients as attributes."""

    def observed(self):
        return dict(self.__dict__)


class Reduce2(ReduceBase):
    def __init__(self, *args):
        self.built = args

    def __reduce__(self):
        return (build, (Reduce2, *self.built))


class Reduce3(ReduceBase):
    def __reduce__(self):
        d = dict(self.__dict__)
        b = d.pop("built", ())
        return (build, (Reduce3, *b), d)


class Reduce3Set(ReduceBase):
    def __reduce__(self):
        d = dict(self.__dict__)
        b = d.pop("built", ())
        return (build, (Reduce3Set, *b), d)

    def __setstate__(self, state):
        TRACE.append("Reduce3Set.__setstate__")
        self.__dict__.update(state)


class Reduce4(ReduceBase):
    """listitems through append()/extend()."""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def extend(self, xs):
        self.items.extend(xs)

    def __reduce__(self):
        return (Reduce4, (), None, iter(self.items))


class Reduce4Append(ReduceBase):
    """listitems with append() only."""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __reduce__(self):
        return (Reduce4Append, (), None, iter(self.items))


class Reduce5(ReduceBase):
    def __init__(self):
        self.mapping = {}
        self.order = []

    def __setitem__(self, k, v):
        self.mapping[k] = v
        self.order.append(k)

    def __reduce__(self):
        return (Reduce5, (), None, None, iter([(k, self.mapping[k]) for k in self.order]))


def set_state(obj, state):
    TRACE.append("set_state")
    obj.__dict__.update(state)
    obj.via = "state_setter"


class Reduce6(ReduceBase):
    def __setstate__(self, state):
        raise AssertionError("state_setter takes precedence")

    def __reduce__(self):
        d = dict(self.__dict__)
        d.pop("via", None)
        return (build, (Reduce6,), d, None, None, set_state)


class ReduceEx(ReduceBase):
    def __reduce_ex__(self, protocol):
        TRACE.append(("ReduceEx.__reduce_ex__", protocol))
        return (build, (ReduceEx, *self.__dict__.get("built", ())), {"v": self.__dict__.get("v")})

    def __reduce__(self):
        raise AssertionError("__reduce_ex__ takes precedence")


class ReduceAll(ReduceBase):
    """State, list items and dict items together."""

    def __init__(self, tag):
        self.tag = tag
        self.li = []
        self.di = {}

    def append(self, x):
        self.li.append(x)

    def extend(self, xs):
        self.li.extend(xs)

    def __setitem__(self, k, v):
        self.di[k] = v

    def __reduce__(self):
        return (ReduceAll, (self.tag,), {"attr": self.attr}, iter(self.li), iter(self.di.items()))


class ReduceSlots:
    __slots__ = ("a", "b")

    def __reduce__(self):
        return (ReduceSlots, (), (None, {"a": self.a, "b": self.b}))


# --- options ---------------------------------------------------------------


class Excluding:
    _jsonpickle_exclude = ("secret", "cache")


class ExcludingChild(Excluding):
    pass


class ExcludingSlots:
    __slots__ = ("a", "secret", "b")
    _jsonpickle_exclude = {"secret"}


class ExcludingDict(dict):
    _jsonpickle_exclude = ["secret"]


class ExcludingState:
    _jsonpickle_exclude = ("secret",)

    def __getstate__(self):
        return dict(self.__dict__)


class Exploding:
    """Raises while being serialized."""

    def __init__(self, exc=ValueError, where="getstate"):
        self.__dict__["exc"] = exc

    def __getstate__(self):
        raise self.exc("boom")


class ExplodingRepr:
    def __repr__(self):
        raise ValueError("no repr")


class ComputedProps:
    base = 10

    def __init__(self, v):
        self.v = v

    @property
    def double(self):
        return self.v * 2

    @property
    def as_list(self):
        return [self.v]

    @functools.cached_property
    def cached(self):
        return self.v


class Fresh:
    """Produces new temporary containers on every serialization."""

    def __init__(self, seed, n):
        self.seed, self.n = seed, n

    def __getstate__(self):
        return {"seed": self.seed, "n": self.n, "tmp": [[self.seed, i] for i in range(self.n)]}

    def __setstate__(self, st):
        self.__dict__.update(st)


class HandledA:
    def __init__(self, v=None):
        self.v = v


class HandledB(HandledA):
    pass


class HandledC(HandledB):
    pass


class HandledOther:
    def __init__(self, v=None):
        self.v = v
