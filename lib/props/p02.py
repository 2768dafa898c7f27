"""P02: instances come back with their class and complete state."""

import collections
import dataclasses
import sys
import types

import gen
import iso
import mkcls
import vpfix as F
from api import compare, decode, encode, flat_roundtrip, rand_format, roundtrip
from core import Scenario, check

RULE = (
    "Seeded graphs of instances of ~60 class shapes (attributes, slots in every inheritance layout, dataclasses, namedtuples, "
    "container/scalar subclasses with attributes, enums, exceptions, classes/functions) in all positions; the decoded graph "
    "is walked against the original, reading __dict__ and every slot descriptor directly. Distinct by graph shape."
)
REQUIRED = ("modules", "nodes_compared", "instances", "attribute_sweeps", "singletons", "made_classes")
ASSUMPTIONS = [
    "classes are importable under their qualified name and construct without required __new__ arguments unless they say so "
    "through the pickle protocol",
    "attribute names do not hide container methods or namedtuple fields, and are not reserved tags or '__private' spellings "
    "placed in __dict__ by hand",
    "attribute values are not bound methods or lambdas (those are dropped by design)",
]


def graph(r, mon):
    g = gen.Graph(r, share=0.0, cycles=False, budget=r.choice((3, 6, 12, 30, 60)))
    v = g.make(r.choice((2, 3, 4, 5)))
    kw = rand_format(r)
    dec = {}
    if r.random() < 0.3:
        kw["keys"] = dec["keys"] = True
    j, d = roundtrip(mon, v, kw, dec)
    mon.event("instances", len(g.pool))
    mon.sig(iso.shape(v))
    mon.sample(j)


def each_kind(r, mon):
    """One kind of object at a time, in every kind of position."""
    k = r.choice(sorted(gen.KINDS))
    g = gen.Graph(r, share=0.0, cycles=False, budget=r.choice((3, 8)))
    v = gen.KINDS[k](g, 2)
    mon.event("instances", max(1, len(g.pool)))
    holder = F.Plain()
    holder.attr = v
    slots = F.Slots()
    slots.a = slots.b = None
    slots.a = v
    forms = [v, [v], (1, v), {"k": v}, holder, slots, F.DC(v), F.NT(v, 1), F.ListSub([v]), F.DictSub(k=v), collections.OrderedDict(k=v),
             collections.deque([v]), F.Reduce2(v), F.GetStateAny([v])]  # fmt: skip
    f = r.choice(forms)
    if isinstance(f, F.GetStateAny):
        f.calls = 1
    roundtrip(mon, f)
    flat_roundtrip(mon, f)
    mon.sig(k, type(f).__name__, iso.shape(v))


def attributes(r, mon):
    """Many attributes, odd names, edge-case values."""
    cls = r.choice((F.Plain, F.PlainChild, F.WithMeta, F.Generic, F.SlotsAndDict, F.ListSub, F.DictSub, F.SetSub, F.TupleSub, F.IntSub, F.StrSub, F.FloatSub, F.CustomError))
    o = cls(7) if cls is F.CustomError else cls()
    n = r.choice((0, 1, 2, 10, 60, 300))
    for i in range(n):
        name = gen.safe_name(r) if r.random() < 0.5 else f"attr_{i}"
        o.__dict__[name] = gen.builtin(r, 2, 3)
    j, d = roundtrip(mon, o)
    check(list(d.__dict__) == list(o.__dict__), "order of attributes changed", want=list(o.__dict__), got=list(d.__dict__))
    mon.event("attribute_sweeps")
    mon.sig("attrs", cls.__name__, n, tuple(o.__dict__)[:20])


def edge_values(r, mon):
    """Values that are falsy, None or look like protocol data, as attributes."""
    vals = [None, False, 0, 0.0, -0.0, "", [], {}, (), set(), b"", "py/id", {"a": None}, [None], (None,), float("nan"), F.Falsy(), F.Sized0(),
            bytearray(), frozenset(), {"default_factory": 1}, {"__dict__": {}}, [[]], {"k": {}}]  # fmt: skip
    makers = {
        "plain": lambda v: _set(F.Plain(), v),
        "slots": lambda v: _set(F.Slots(), v),
        "slotschild": lambda v: _set(F.SlotsChild(), v),
        "dc": lambda v: F.DC(v, v),
        "frozen": lambda v: F.FrozenDC(v, None),
        "slotsdc": lambda v: F.SlotsDC(v, None),
        "nt": lambda v: F.NT(v),
        "listsub": lambda v: F.ListSub([v]),
        "tuplesub": lambda v: F.TupleSub([v, v]),
        "dictsub": lambda v: F.DictSub(k=v),
        "odict": lambda v: collections.OrderedDict(k=v),
        "ddict": lambda v: collections.defaultdict(int, k=v),
        "deque": lambda v: collections.deque([v]),
        "exc": lambda v: ValueError(v),
        "privslot": lambda v: F.SlotsPrivate(v, v),
        "privchild": lambda v: F.SlotsPrivateChild(v, v, [v], v),
        "attrs_of_list": lambda v: _attr(F.ListSub([1]), v),
        "attrs_of_dict": lambda v: _attr(F.DictSub(k=1), v),
        "attrs_of_tuple": lambda v: _attr(F.TupleSub([1]), v),
        "attrs_of_set": lambda v: _attr(F.SetSub([1]), v),
    }
    k = r.choice(sorted(makers))
    v = r.choice(vals)
    o = makers[k](v)
    roundtrip(mon, o)
    roundtrip(mon, [o, {"x": o.__class__}])
    mon.event("instances", 2)
    mon.sig("edge", k, repr(type(v)), repr(v)[:30] if not isinstance(v, (F.Falsy, F.Sized0)) else "")


def _set(o, v):
    o.a = v
    if not isinstance(o, F.Plain):
        o.b = 1
    return o


def _attr(o, v):
    o.zz = v
    return o


def singletons(r, mon):
    """Enum members, classes, functions and modules are the same objects."""
    import os.path

    pool = [*F.Color, *F.IntColor, *F.StrColor, *F.Perm, F.Perm.R | F.Perm.W, F.Perm(0), *F.IntPerm, F.IntPerm.R | F.IntPerm.W, F.Plain, F.Outer, F.Outer.Inner,
            F.Outer.Inner.Deepest, F.Meta, int, str, dict, list, tuple, set, frozenset, bytes, type, object, type(None), bool, float,
            ValueError, KeyError, F.module_function, F.other_function, F.Outer.Inner.static, len, max, print, os.path.join, os.path, os,
            collections, F, dataclasses.dataclass, collections.OrderedDict, F.NT, F.Color, F.IntColor]  # fmt: skip
    xs = [r.choice(pool) for _ in range(r.randrange(1, 8))]
    tail = [1]
    v = r.choice(([*xs, tail, tail], {f"k{i}": x for i, x in enumerate(xs)} | {"t": tail, "u": tail}, F.DC([*xs], tail, tail), (tuple(xs), tail, tail)))
    j, d = roundtrip(mon, v)
    mon.event("singletons", len(xs))
    mon.sig("singles", tuple(sorted(repr(x) for x in xs)))


def methods_work(r, mon):
    """Private state is reachable through the class's own methods."""
    x, y = gen.builtin(r, 2), gen.builtin(r, 2)
    z = [1]
    cases = [
        (F.WithPrivate(x), lambda o: o.get()),
        (F.WithPrivateChild(x, y), lambda o: (o.get(), o.get2())),
        (F.SlotsPrivate(x, y), lambda o: (o.getx(), o.y)),
        (F.SlotsPrivateChild(x, y, z, 1), lambda o: (o.getx(), o.getx2())),
        (F._Underscored(x), lambda o: o.getx()),
        (F.WithProperty(x), lambda o: o.v),
        (F.Color.RED, lambda o: o.value),
    ]
    o, f = r.choice(cases)
    d = decode(mon, encode(mon, o))
    compare(mon, f(o), f(d))
    mon.event("instances")
    mon.sig("methods", type(o).__name__, iso.shape([x, y]))


def many(r, mon):
    """Large populations of small objects."""
    n = r.choice((50, 300, 1500))
    cls = r.choice((F.DC, F.FrozenDC, F.SlotsDC, F.NT, F.ValueObj))
    v = [cls(i, str(i)) for i in range(n)]
    roundtrip(mon, r.choice((v, {str(i): x for i, x in enumerate(v)}, tuple(v), F.ListSub(v))))
    mon.event("instances", n)
    mon.sig("many", cls.__name__, n)


def made_classes(r, mon):
    """Classes put together at random: layouts nobody wrote a fixture for."""
    mkcls.reset()
    kinds = [mkcls.make(r) for _ in range(r.randrange(1, 4))]
    pool = []

    def value():
        if pool and r.random() < 0.3:
            return r.choice(pool)
        return gen.ratom(r) if r.random() < 0.8 else r.choice(([], {}, (1,), [gen.ratom(r)], {gen.rkey(r): 1}))

    for c in kinds * 2:
        pool.append(mkcls.fill(r, *c, value))
    if r.random() < 0.3:
        e = mkcls.enum_class(r)
        pool.append(r.choice(list(e)))
    if r.random() < 0.3:
        nt = mkcls.namedtuple_class(r)
        pool.append(nt(*[value() for _ in nt._fields]))
    v = r.choice((pool[-1], pool[0], [pool[0], pool[-1]], {"a": pool[-1], "b": pool[0]}, (pool[-1], 1), pool))
    kw = {"keys": True} if r.random() < 0.3 else {}
    j, d = roundtrip(mon, v, kw, kw)
    mon.event("made_classes", len(kinds))
    mon.sig("made", sorted(repr(_layout(c[0])) for c in kinds))
    if r.random() < 0.3:
        flat_roundtrip(mon, v)


def _layout(cls):
    return tuple((len(c.__dict__.get("__slots__", ())) if "__slots__" in c.__dict__ else "d", "__dataclass_params__" in c.__dict__) for c in cls.__mro__[:-1]) + (cls.__mro__[-2].__name__,)


PARTS = ("vpq_a", "shape", "Shape", "x1", "é", "_p")


def modules(r, mon):
    """Classes are found by their qualified names, whatever has the same name elsewhere."""
    made, classes = {}, []
    try:
        for _ in range(r.randrange(2, 6)):
            name = ".".join(["vpq_root", *(r.choice(PARTS) for _ in range(r.randrange(0, 3)))])
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                _module(".".join(parts[:i]), made)
            _classes(r, made[name], classes, r.randrange(1, 4))
        for name, m in made.items():
            for other in made:
                head, _, tail = other.rpartition(".")
                if head == name and not hasattr(m, tail) and r.random() < 0.7:
                    # a package usually knows its submodules, or something else of that name
                    setattr(m, tail, r.choice((made[other], None, 5, len, r.choice(classes))))
        picked = [c for c in classes if _lookup(c) is c]
        if not picked:
            return
        objs = [r.choice(picked)() for _ in range(r.randrange(1, 5))]
        for i, o in enumerate(objs):
            o.i = i
        v = [*objs, *(r.choice(picked) for _ in range(2)), objs[0]]
        j, d = roundtrip(mon, v)
        mon.event("modules", len(made))
        mon.sig("modules", tuple(f"{type(o).__module__}.{type(o).__qualname__}" for o in objs))
    finally:
        for name in made:
            del sys.modules[name]


def _module(name, made):
    if name not in made:
        made[name] = sys.modules[name] = types.ModuleType(name)


def _classes(r, owner, classes, n, prefix=""):
    for _ in range(n):
        name = r.choice(PARTS + ("A", "B"))
        if name in vars(owner):
            continue
        module = owner.__name__ if isinstance(owner, types.ModuleType) else owner.__module__
        c = type(name, (), {"__module__": module, "__qualname__": prefix + name})
        setattr(owner, name, c)
        classes.append(c)
        if r.random() < 0.4:
            _classes(r, c, classes, r.randrange(1, 3), f"{prefix}{name}.")


def _lookup(cls):
    """The class that is meant by the longest module part of the dotted name, as Python would import it."""
    names = f"{cls.__module__}.{cls.__qualname__}".split(".")
    for i in range(len(names) - 1, 0, -1):
        o = sys.modules.get(".".join(names[:i]))
        if o is None:
            continue
        try:
            for n in names[i:]:
                o = getattr(o, n)
            return o
        except AttributeError:
            pass
    return None


def _dict_slots():
    o = F.DictSlots(a=1)
    o.s = 2
    roundtrip(_null(), o)


def _key_dict_subclass():
    o = F.DictSub()
    o["default_factory"] = {"a": 1}
    roundtrip(_null(), o)


def _dunder_dict_key():
    o = F.DictSub()
    o["__dict__"] = {"a": 1}
    roundtrip(_null(), o)


def _null():
    from core import Mon

    return Mon()


SCENARIOS = [
    Scenario("graph", graph, 20000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("each_kind", each_kind, 20000),
    Scenario("attributes", attributes, 2000),
    Scenario("edge_values", edge_values, 4000),
    Scenario("singletons", singletons, 3000),
    Scenario("methods_work", methods_work, 2000),
    Scenario("many", many, 100),
    Scenario("made_classes", made_classes, 15000),
    Scenario("modules", modules, 1500),
]
FINDINGS = {"dict-subclass-slots": _dict_slots, "item-named-default_factory": _key_dict_subclass, "item-named-dunder-dict": _dunder_dict_key}
