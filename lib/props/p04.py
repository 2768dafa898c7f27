"""P04: temporaries created during encoding are never taken for one another."""

import array
import collections
import gc
import json

import gen
import vpfix as F
from api import compare, decode, encode, quiet
from core import Scenario, check
from jsonpickle import handlers

RULE = (
    "Objects whose hooks build fresh containers on every call (state, reduce arguments, iterators, properties, custom "
    "handlers) under default, make_refs=False and unpicklable=False encoding, with garbage collection and address reuse "
    "provoked in between. Each temporary carries a unique number, so any mix-up shows in the document. Distinct by hook, "
    "mode and size."
)
REQUIRED = ("temporaries_checked", "mode_refs", "mode_norefs", "mode_plain")
MODES = {"refs": {}, "norefs": {"make_refs": False}, "plain": {"unpicklable": False}}
_counter = [0]


def uid():
    _counter[0] += 1
    return _counter[0]


def _churn():
    """Give the allocator a reason to hand out just-freed addresses."""
    for _ in range(3):
        [[i] for i in range(20)]
        [{"a": i} for i in range(20)]
        [(i, i) for i in range(20)]


class StateMaker:
    shape = "list"

    def __init__(self, n):
        self.uid, self.n = uid(), n

    def parts(self):
        u = self.uid
        for i in range(self.n):
            if i % 7 == 0:
                _churn()
            yield {"list": [u, i], "dict": {"u": u, "i": i}, "tuple": (u, [i]), "obj": _mk(u, i), "set": {u * 1000 + i}, "bytes": b"%d-%d" % (u, i),
                   "odict": collections.OrderedDict(u=u, i=i), "nested": [[u], {"i": [i]}], "slots": _mk_slots(u, i),
                   "value": Temp(u, i), "mix": (_mk_slots(u, i), [u], Temp(u, i))}[self.shape]  # fmt: skip


class Temp:
    """Value-like temporary without a __dict__."""

    __slots__ = ("u", "i")

    def __init__(self, u, i):
        self.u, self.i = u, i

    def __reduce__(self):
        return (Temp, (self.u, self.i))


def _mk_slots(u, i):
    o = F.Slots()
    o.a, o.b = u, i
    return o


def _mk(u, i):
    o = F.Plain()
    o.u, o.i = u, i
    return o


class ByState(StateMaker):
    def __getstate__(self):
        return {"uid": self.uid, "n": self.n, "shape": self.shape, "tmp": {f"k{i}": p for i, p in enumerate(self.parts())}}

    def __setstate__(self, st):
        self.__dict__.update(st)

    def got(self):
        return list(self.tmp.values())


class ByReduce(StateMaker):
    def __reduce__(self):
        return (rebuild, (self.uid, self.n, self.shape, *self.parts()))

    def got(self):
        return list(self.tmp)


def rebuild(u, n, shape, *tmp):
    o = ByReduce.__new__(ByReduce)
    o.uid, o.n, o.shape, o.tmp = u, n, shape, tmp
    return o


class ByReduceState(StateMaker):
    def __reduce__(self):
        return (_blank, (), {"uid": self.uid, "n": self.n, "shape": self.shape, "tmp": list(self.parts())})

    def got(self):
        return self.tmp


def _blank():
    return ByReduceState.__new__(ByReduceState)


class ByItems(list):
    """Reduce list items, produced lazily."""


class ByHandler(StateMaker):
    def got(self):
        return self.tmp


class MakerHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["uid"], data["n"], data["shape"] = obj.uid, obj.n, obj.shape
        # each part dies right after it was flattened
        data["tmp"] = [self.context.flatten(p, reset=False) for p in obj.parts()]
        return data

    def restore(self, data):
        o = ByHandler.__new__(ByHandler)
        o.uid, o.n, o.shape = data["uid"], data["n"], data["shape"]
        o.tmp = [self.context.restore(x, reset=False) for x in data["tmp"]]
        return o


class LazyIter:
    """An iterator that yields fresh objects."""

    def __init__(self, maker):
        self.it = maker.parts()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


KLASSES = (ByState, ByReduce, ByReduceState, ByHandler)
SHAPES = ("list", "dict", "tuple", "obj", "set", "bytes", "odict", "nested", "slots", "value", "mix")


def _plain(p):
    """Plain JSON for a temporary."""
    if isinstance(p, (list, tuple, set)):
        return [_plain(x) for x in p]
    if isinstance(p, dict):
        return {k: _plain(v) for k, v in p.items()}
    if isinstance(p, F.Plain):
        return _plain(p.__dict__)
    if type(p) is F.Slots:
        return {"a": p.a, "b": p.b}
    if type(p) is Temp:
        return {"u": p.u, "i": p.i}
    if isinstance(p, bytes):
        import base64

        return {"py/b64": base64.b64encode(p).decode()}
    return p


def _objects(r, n):
    out = []
    for _ in range(n):
        o = r.choice(KLASSES)(r.choice((1, 3, 10, 40)))
        o.shape = r.choice(SHAPES)
        out.append(o)
    return out


def hooks(r, mon):
    mode = r.choice(sorted(MODES))
    objs = _objects(r, r.choice((1, 2, 5, 12)))
    handlers.register(ByHandler, MakerHandler)
    try:
        if r.random() < 0.2:
            gc.collect()
        wrapped = r.choice((lambda x: x, lambda x: {f"k{i}": o for i, o in enumerate(x)}, lambda x: tuple(x), lambda x: [[o] for o in x]))(objs)
        j = encode(mon, wrapped, **MODES[mode])
        mon.event("mode_" + mode)
        if mode == "plain":
            doc = json.loads(j)
            docs = [x[0] for x in doc] if isinstance(wrapped, list) and isinstance(wrapped[0], list) else doc if isinstance(doc, list) else list(doc.values())
            for o, got in zip(objs, docs):
                want = [_plain(p) for p in o.parts()]
                if type(o) is ByState:
                    check(got["uid"] == o.uid and list(got["tmp"].values()) == want, "temporaries mixed up", want=want, got=got["tmp"])
                elif type(o) is ByHandler:
                    check(got["uid"] == o.uid and got["tmp"] == want, "temporaries mixed up", want=want, got=got["tmp"])
                mon.event("temporaries_checked", len(want))
        else:
            d = decode(mon, j)
            ds = [x[0] for x in d] if isinstance(wrapped, list) and isinstance(wrapped[0], list) else list(d.values()) if isinstance(d, dict) else list(d)
            for o, got in zip(objs, ds):
                check(type(got) is type(o) and got.uid == o.uid, "wrong object", want=o.uid, got=got)
                compare(mon, list(o.parts()), list(got.got()), j)
                mon.event("temporaries_checked", o.n)
    finally:
        handlers.unregister(ByHandler)
    mon.sig("hooks", mode, tuple((type(o).__name__, o.shape, o.n) for o in objs)[:6])
    mon.sample(j)


def many(r, mon):
    """Tens of thousands of temporaries in one call."""
    mode = r.choice(sorted(MODES))
    n = r.choice((500, 2000, 6000))
    shape = r.choice(("list", "dict", "nested", "tuple"))
    objs = []
    for _ in range(n):
        o = r.choice((ByState, ByReduceState))(r.choice((1, 3, 6)))
        o.shape = shape
        objs.append(o)
    want = [list(o.parts()) for o in objs]
    j = encode(mon, objs, **MODES[mode])
    mon.event("mode_" + mode)
    if mode == "plain":
        for o, w, got in zip(objs, want, json.loads(j)):
            if type(o) is ByState:
                check(list(got["tmp"].values()) == [_plain(p) for p in w], "temporaries mixed up", want=w, got=got["tmp"])
                mon.event("temporaries_checked", len(w))
    else:
        for o, w, got in zip(objs, want, decode(mon, j)):
            check(type(got) is type(o) and got.uid == o.uid and list(got.got()) == w, "temporaries mixed up", want=w, got=vars(got))
            mon.event("temporaries_checked", len(w))
    mon.sig("many", mode, n, shape)


def iterators(r, mon):
    mode = r.choice(sorted(MODES))
    makers = []
    for _ in range(r.choice((1, 3, 8))):
        m = StateMaker(r.choice((1, 5, 30)))
        m.shape = r.choice(SHAPES)
        makers.append(m)
    make = LazyIter
    j = encode(mon, [make(m) for m in makers], **MODES[mode])
    mon.event("mode_" + mode)
    doc = json.loads(j)
    for m, got in zip(makers, doc):
        want = list(m.parts())
        if mode == "plain":
            items = got if isinstance(got, list) else got.get("py/iterator")
            check(items == [_plain(p) for p in want], "iterator items mixed up", want=[_plain(p) for p in want], got=got)
            mon.event("temporaries_checked", len(want))
    if mode != "plain":
        d = decode(mon, j)
        for m, got in zip(makers, d):
            got = getattr(got, "it", got)
            compare(mon, list(m.parts()), list(got), j)
            mon.event("temporaries_checked", m.n)
    mon.sig("iter", mode, tuple((m.shape, m.n) for m in makers))


class _Computed:
    """Properties that build something new on every access."""

    def __init__(self, n):
        self.uid, self.n = uid(), n

    @property
    def fresh_obj(self):
        return _mk(self.uid, 0)

    @property
    def fresh_obj2(self):
        return _mk(self.uid, 1)

    @property
    def fresh_dc(self):
        return F.DC(self.uid, 2)

    @property
    def fresh_slots(self):
        return _mk_slots(self.uid, 3)

    @property
    def fresh_slots2(self):
        return _mk_slots(self.uid, 4)


def properties(r, mon):
    mode = r.choice(("norefs", "plain"))
    objs = [_Computed(i) for i in range(r.choice((1, 5, 30)))]
    j = encode(mon, objs, include_properties=True, **MODES[mode])
    mon.event("mode_" + mode)
    for o, got in zip(objs, json.loads(j)):
        p = got["py/property"]
        for name, i in (("fresh_obj", 0), ("fresh_obj2", 1)):
            check(p[name]["u"] == o.uid and p[name]["i"] == i, "property values mixed up", want=(o.uid, i), got=p)
        check(p["fresh_dc"]["a"] == o.uid and p["fresh_dc"]["b"] == 2, "property values mixed up", want=(o.uid, 2), got=p)
        check(p["fresh_slots"]["a"] == o.uid and p["fresh_slots2"]["b"] == 4, "property values mixed up", want=o.uid, got=p)
        mon.event("temporaries_checked", 5)
    mon.sig("props", mode, len(objs))


def stdlib(r, mon):
    """Library types whose encoding goes through fresh lists and tuples."""
    mode = r.choice(("refs", "norefs"))
    n = r.choice((2, 10, 60))
    vals = [r.choice((lambda: array.array("q", [uid(), 1]), lambda: collections.Counter({f"c{uid()}": 1}), lambda: collections.deque([uid()]),
                      lambda: gen.rdatetime(r), lambda: gen.rdecimal(r), lambda: collections.OrderedDict([(f"o{uid()}", uid())]), lambda: frozenset([uid()]),
                      lambda: F.NT(uid(), uid()), lambda: range(uid()), lambda: complex(uid(), 1), lambda: ValueError(uid()),
                      lambda: F.Reduce2(uid(), uid()), lambda: collections.UserDict({"k": uid()})))() for _ in range(n)]  # fmt: skip
    with quiet():
        j = encode(mon, vals, **MODES[mode])
        d = decode(mon, j)
    compare(mon, vals, d, j)
    mon.event("mode_" + mode)
    mon.event("temporaries_checked", n)
    mon.sig("std", mode, tuple(type(v).__name__ for v in vals)[:12], n)


def default_factories(r, mon):
    """Every lambda factory is called for an exemplar that is dropped again."""
    mode = r.choice(sorted(MODES))
    ids = [uid() for _ in range(r.choice((2, 6, 25)))]
    ds = [collections.defaultdict(lambda u=u: [u, [u]], {"u": u}) for u in ids]
    j = encode(mon, ds, **MODES[mode])
    mon.event("mode_" + mode)
    if mode != "plain":
        for u, d in zip(ids, decode(mon, j)):
            check(d["u"] == u and d["missing"] == [u, [u]], "factories mixed up", want=u, got=(d["u"], d["missing"]), document=j)
    else:
        for u, d in zip(ids, json.loads(j)):
            check(d["u"] == u, "items mixed up", want=u, got=d)
    mon.event("temporaries_checked", len(ids))
    mon.sig("fac", mode, len(ids))


def keys(r, mon):
    """Keys that are encoded on their own, with temporaries inside."""
    mode = r.choice(("refs", "norefs"))
    n = r.choice((2, 8, 30))
    d0 = {}
    for _ in range(n):
        k = r.choice((lambda: (uid(), (uid(),)), lambda: F.FrozenDC(uid(), (1,)), lambda: frozenset([uid()]), lambda: complex(uid(), 1), lambda: F.NT(uid(), ())))()
        d0[k] = [uid()]
    j = encode(mon, d0, keys=True, **MODES[mode])
    compare(mon, d0, decode(mon, j, keys=True), j)
    mon.event("mode_" + mode)
    mon.event("temporaries_checked", n)
    mon.sig("keys", mode, tuple(type(k).__name__ for k in d0)[:12], n)


SCENARIOS = [
    Scenario("hooks", hooks, 6000),
    Scenario("iterators", iterators, 2000),
    Scenario("many", many, 24, 300),
    Scenario("properties", properties, 600),
    Scenario("stdlib", stdlib, 2000),
    Scenario("default_factories", default_factories, 800),
    Scenario("keys", keys, 1500),
]
