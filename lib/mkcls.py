"""Random class hierarchies, importable from the module vpdyn."""

import abc
import collections
import dataclasses
import enum
import sys
import types
import typing

import gen

MODULE = type(sys)("vpdyn")
sys.modules["vpdyn"] = MODULE
_count = [0]
NAMES = ("a", "b", "_hidden", "x1", "name", "value", "items_", "count_", "ünï", "args_", "camelCase", "data", "obj", "type_", "self_", "None_")


class Meta(type):
    """A metaclass that counts nothing and changes nothing."""


def reset():
    """Forget the classes of the previous case."""
    for k in [k for k, v in vars(MODULE).items() if isinstance(v, type)]:
        delattr(MODULE, k)
    _count[0] = 0


def _place(cls, holder=None):
    cls.__module__ = "vpdyn"
    if holder is None:
        cls.__qualname__ = cls.__name__
        setattr(MODULE, cls.__name__, cls)
    else:
        cls.__qualname__ = f"{holder.__qualname__}.{cls.__name__}"
        setattr(holder, cls.__name__, cls)
    return cls


def _name(r):
    _count[0] += 1
    return r.choice(("C", "_P", "__Q", "lower", "Cé", "C_")) + str(_count[0])


def _trimmings(r, body):
    """Members that encoding has no business calling."""
    if r.random() < 0.3:
        body["prop"] = property(lambda self: "computed")
    if r.random() < 0.3:
        body["CLASSVAR"] = ["shared by all instances"]
    if r.random() < 0.2:
        body["method"] = lambda self: 1
    if r.random() < 0.15:
        body["__eq__"] = lambda self, other: True
        body["__hash__"] = None
    if r.random() < 0.15:
        body["__bool__"] = lambda self: False
    if r.random() < 0.15:
        body["__doc__"] = "documented"
    if r.random() < 0.1:
        body["__call__"] = lambda self: None
    if r.random() < 0.1:
        body["__repr__"] = lambda self: "repr"
    if r.random() < 0.1:
        body["__init__"] = lambda self, must, have, *, these: None
    if r.random() < 0.1:
        body["__setattr__"] = lambda self, k, v: object.__setattr__(self, k, v)
    if r.random() < 0.08:
        body["__lt__"] = lambda self, o: NotImplemented
    return body


BUILTIN = (list, dict, set, int, float, str, bytes, tuple, frozenset)


def make(r):
    """A class, plus the slot names and kind of builtin content."""
    base = r.choice((object,) * 8 + BUILTIN)
    cls, slots = base, []
    fixed = base in (int, tuple, bytes, str, float, frozenset)
    for level in range(r.choice((1, 1, 2, 3))):
        name = _name(r)
        body = _trimmings(r, {"__module__": "vpdyn", "__qualname__": name})
        if base is not object:
            for k in ("__eq__", "__hash__", "__bool__", "__lt__", "__repr__", "__init__", "__call__"):
                body.pop(k, None)
        if r.random() < 0.4:
            if fixed or base is dict:
                # slots of dict subclasses are a known finding
                body["__slots__"] = ()
            else:
                own = [n for n in r.sample(NAMES, r.randrange(0, 4)) if n not in slots and not hasattr(cls, n) and n not in body]
                if r.random() < 0.2 and base is object:
                    own.append(f"__priv{level}")
                slots += [f"_{name.lstrip('_')}{n}" if n.startswith("__") else n for n in own]
                body["__slots__"] = r.choice((tuple, list))(own) if len(own) != 1 or r.random() < 0.5 or own[0].startswith("__") else own[0]
        meta = r.choice((type, type, type, abc.ABCMeta, Meta)) if level == 0 else type(cls)
        bases = (cls,) if cls is not object or r.random() < 0.5 else ()
        if cls is object and r.random() < 0.1 and meta in (type, abc.ABCMeta):
            bases = (typing.Generic[typing.TypeVar("T")],)
        elif cls is object and r.random() < 0.1:
            bases = (type(r.choice(("MixA", "MixB")), (), {"mixed": lambda self: 1}),)
        holder = cls if level and r.random() < 0.2 and cls is not base else None
        new = types.new_class(name, bases, {"metaclass": meta}, lambda ns, body=body: ns.update(body))
        cls = _place(new, holder)
    if base is object and r.random() < 0.35:
        kw = {k: True for k in ("frozen", "order", "unsafe_hash", "kw_only") if r.random() < 0.35}
        if r.random() < 0.3 and ("frozen" not in kw or not slots and not hasattr(object.__new__(cls), "__dict__")):
            # frozen and slotted dataclasses supply a state of their own that covers nothing inherited
            kw["slots"] = True
        fields = [n for n in r.sample(NAMES, r.randrange(1, 4)) if n not in slots and not hasattr(cls, n)]
        name = _name(r)
        body = {"__module__": "vpdyn", "__qualname__": name, "__annotations__": {f: typing.Any for f in fields}}
        try:
            cls = _place(dataclasses.dataclass(**kw)(type(cls)(name, (cls,), body)))
            if kw.get("slots"):
                slots += fields
        except TypeError:  # combinations dataclasses refuse
            pass
    return cls, slots, base


def _put(o, k, v):
    object.__setattr__(o, k, v)


def fill(r, cls, slots, base, value):
    """An instance made without running any constructor of its own."""
    if base is object:
        o = object.__new__(cls)
    elif base is list:
        o = cls.__new__(cls)
        list.extend(o, [value() for _ in range(r.randrange(0, 4))])
    elif base is dict:
        o = cls.__new__(cls)
        dict.update(o, {k: value() for k in (gen.rkey(r) for _ in range(r.randrange(0, 4))) if k not in ("__dict__", "default_factory")})
    elif base is set:
        o = cls.__new__(cls)
        set.update(o, [gen.rint(r) for _ in range(r.randrange(0, 4))])
    elif base is int:
        o = cls.__new__(cls, gen.rint(r))
    elif base is float:
        o = cls.__new__(cls, gen.rfloat(r))
    elif base is str:
        o = cls.__new__(cls, gen.rstr(r))
    elif base is bytes:
        o = cls.__new__(cls, gen.rbytes(r))
    elif base is tuple:
        o = cls.__new__(cls, [value() for _ in range(r.randrange(0, 3))])
    else:
        o = cls.__new__(cls, [gen.rint(r) for _ in range(r.randrange(0, 3))])
    for s in slots:
        if s in getattr(cls, "__dataclass_fields__", ()) or r.random() < 0.8:
            _put(o, s, value())
    if hasattr(o, "__dict__"):
        names = [n for n in getattr(cls, "__dataclass_fields__", ()) if n not in slots]
        names += [n for n in r.sample(NAMES, r.randrange(0, 4)) if n not in slots and n not in names and not hasattr(cls, n)]
        for n in names:
            o.__dict__[n] = value()
    return o


def enum_class(r):
    name = _name(r)
    base = r.choice((enum.Enum, enum.IntEnum, enum.Flag, enum.IntFlag, enum.StrEnum, enum.Enum))
    n = r.randrange(1, 5)
    if base is enum.StrEnum:
        members = {f"M{i}": f"v{i}" for i in range(n)}
    elif base is enum.Enum:
        members = {f"M{i}": r.choice((i, f"s{i}", (i, "t"), float(i) + 0.5, None if i == 0 else i)) for i in range(n)}
    else:
        members = {f"M{i}": 2**i for i in range(n)}
    return _place(base(name, members, module="vpdyn"))


def namedtuple_class(r):
    fields = [n for n in r.sample(NAMES, r.randrange(1, 4)) if not n.startswith("_")] or ["a"]
    name = _name(r).lstrip("_")
    if r.random() < 0.5:
        return _place(collections.namedtuple(name, fields, module="vpdyn"))
    return _place(typing.NamedTuple(name, [(f, typing.Any) for f in fields]))
