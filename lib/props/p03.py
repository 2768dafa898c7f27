"""P03: sharing and cycles are preserved."""

import collections
import dataclasses
import copy
import datetime
import enum
import io
import json
import sys
import types
import uuid

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, flat_roundtrip, quiet, rand_format, roundtrip
from core import Scenario, check

RULE = (
    "Seeded graphs with shared nodes, back references and self references over all container and instance kinds, with things "
    "in between that take no part in sharing (bytes, types, functions, null-encoded files and lambdas). A bijection monitor "
    "demands that one object stays one object and two objects stay two. Distinct by graph shape including the sharing pattern."
)
REQUIRED = ("copies", "identities_confirmed", "references_written", "self_cycles", "interleaved", "dags", "ctor_cycles", "unwrapped")
ASSUMPTIONS = [
    "identity is promised for lists, dicts and class instances, not for tuples, sets, bytes or bytearrays",
    "a cycle through constructor arguments passes a list, dict or attribute-based instance on its way (nothing can build the others)",
]


def graph(r, mon):
    g = gen.Graph(r, share=r.choice((0.15, 0.3, 0.5)), cycles=True, budget=r.choice((6, 12, 30, 80)))
    v = g.make(r.choice((3, 4, 5)))
    for _ in range(r.randrange(0, 6)):
        g.link()
    kw, dec = rand_format(r), {}
    if r.random() < 0.4:
        kw["keys"] = dec["keys"] = True
    j, d = roundtrip(mon, [v, *g.pool[:3]], kw, dec)
    mon.sig(iso.shape(v))
    mon.sample(j)
    if r.random() < 0.3:
        flat_roundtrip(mon, v)


def self_cycles(r, mon):
    """Each kind of mutable node that contains itself, directly or through others."""
    makers = [
        lambda: [],
        lambda: {},
        F.Plain,
        F.Node,
        F.ListSub,
        F.DictSub,
        collections.OrderedDict,
        F.OrderedSub,
        lambda: collections.defaultdict(list),
        lambda: collections.defaultdict(lambda: 0),
        collections.deque,
        F.DequeSub if False else collections.deque,
        F.Slots,
        F.SlotsAndDict,
        lambda: F.DC(None),
        lambda: F.SlotsDC(None),
        F.Reduce3,
        F.Reduce3Set,
        F.Reduce4,
        F.Reduce5,
        lambda: F.GetStateAny([]),
        collections.UserDict,
        collections.UserList,
        F.PlainChild,
        lambda: _blank(F.FrozenDC),
        lambda: F.ValueObj(1),
    ]
    n = r.choice((1, 1, 2, 3, 4))
    objs = [r.choice(makers)() for _ in range(n)]
    for o in objs:
        if isinstance(o, F.GetStateAny):
            o.calls = 1
    wrap = r.choice((lambda x: x, lambda x: (x,), lambda x: [x], lambda x: {"w": x}, lambda x: (1, (x, x)), lambda x: F.NT(x, 0)))
    for i, o in enumerate(objs):
        t = objs[(i + 1) % n]
        _attach(o, wrap(t) if not isinstance(wrap(t), F.NT) else wrap(t))
        if r.random() < 0.4:
            _attach2(o, r.choice(objs))
    kw = {"keys": True} if r.random() < 0.4 else {}
    tail = [1]
    roundtrip(mon, r.choice((objs[0], [objs, tail, tail], {"a": objs[-1], "b": tail, "c": tail})), kw, kw)
    mon.event("self_cycles")
    mon.sig("cyc", iso.shape(objs), sorted(kw))


def _blank(cls):
    o = cls.__new__(cls)
    object.__setattr__(o, "a", None)
    object.__setattr__(o, "b", None)
    return o


def _attach(o, v):
    if isinstance(o, (list, collections.deque, collections.UserList)):
        o.append(v)
    elif isinstance(o, (dict, collections.UserDict)):
        o["me"] = v
    elif isinstance(o, F.Reduce4):
        o.items.append(v)
    elif isinstance(o, F.Reduce5):
        o["me"] = v
    elif isinstance(o, F.GetStateAny):
        o.st.append(v)
    elif isinstance(o, F.ValueObj):
        o.extra = v
    elif isinstance(o, F.FrozenDC):
        object.__setattr__(o, "a", v)
    elif isinstance(o, (F.Reduce3, F.Reduce3Set)):
        o.built = ()
        o.me = v
    elif isinstance(o, F.Slots) and not isinstance(o, F.SlotsAndDict):
        o.a = v
        o.b = 0
    else:
        o.a = v


def _attach2(o, v):
    if hasattr(o, "__dict__") and not isinstance(o, (F.GetStateAny, F.FrozenDC, F.Reduce4, F.Reduce5, collections.UserDict, collections.UserList)):
        o.__dict__["second"] = v
    elif isinstance(o, list):
        o.insert(0, v)


class _Null:
    pass


def interleaved(r, mon):
    """Things that are not numbered, or vanish, between shared objects."""
    shared = [r.choice((lambda: [1], lambda: {"k": 1}, lambda: F.DC(1), lambda: F.Plain(), lambda: F.NT(1, [2]), lambda: uuid.UUID(int=5), lambda: F.Reduce2(3)))() for _ in range(3)]
    files = [open("/dev/null"), open("/dev/null")]  # noqa: SIM115
    try:
        fillers = [
            lambda: files[0],
            lambda: files[1],
            lambda: (lambda: 0),
            lambda: b"bytes",
            lambda: bytearray(b"xx"),
            lambda: (1, 2),
            lambda: {1, 2},
            lambda: frozenset([1, (2, 3)]),
            lambda: F.Plain,
            lambda: F.module_function,
            lambda: len,
            lambda: F.Color.RED,
            lambda: 1 + 2j,
            lambda: range(3),
            lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc),
            lambda: gen.rarray(r),
            lambda: gen.rregex(r),
            lambda: gen.rdecimal(r),
            lambda: collections.defaultdict(lambda: [], {"a": [1]}),
            lambda: collections.defaultdict(list, {"a": [1]}),
            lambda: collections.Counter("aab"),
            lambda: F.NewArgsEx(1, [2], k=[3]),
            lambda: F.NewArgsEx([1]),
            lambda: F.NewArgs([1], 2),
            lambda: F.InitArgs([1], {}),
            lambda: sys,
            lambda: object(),
            lambda: F.TupleSub([[1]]),
            lambda: ValueError([1]),
            lambda: F.Slots(),
            lambda: F.GetStateAny({"a": [1]}),
            lambda: F.Methods([4]).method,
            lambda: iter([1, 2]),
            lambda: (x for x in ([1], [2])),
            lambda: {},
            lambda: [],
            lambda: F.DictSub(),
            lambda: F.DictSub(a=[1]),
            lambda: F.ListSub([[1]]),
            lambda: F.IntSub(4),
            lambda: F.StrSub("s"),
            lambda: gen.rdate(r),
            lambda: gen.rtime(r),
            lambda: F.SlotsRedeclared(),
            lambda: F.ReduceSlots.__new__(F.ReduceSlots),
        ]
        seq = []
        for _ in range(r.randrange(2, 12)):
            seq.append(r.choice(fillers)() if r.random() < 0.6 else r.choice(shared))
        for o in seq:
            if isinstance(o, F.ReduceSlots):
                o.a, o.b = [1], 2
            elif isinstance(o, F.GetStateAny):
                o.calls = 1  # what __setstate__ leaves behind
        seq += [shared[0], shared[1], shared[0]]
        sampled = [type(x).__name__ for x in seq]
        form = r.randrange(4)
        v = seq if form == 0 else {f"k{i}": x for i, x in enumerate(seq) if not _dropped(x)} if form == 1 else F.DC(seq, seq, []) if form == 2 else (tuple(seq), seq)
        kw = {"keys": True} if r.random() < 0.3 else {}
        with quiet():
            j = encode(mon, v, **kw)
            d = decode(mon, j, **kw)
        _compare_lossy(mon, v, d, j)
        mon.event("interleaved")
        mon.sig("inter", form, tuple(sampled))
    finally:
        for f in files:
            f.close()


def _dropped(x):
    return type(x).__name__ in ("function", "method") and getattr(x, "__name__", "") in ("<lambda>", "method")


def _compare_lossy(mon, v, d, j):
    """Like compare(), for inputs with members that become None by design."""

    class Lossy(iso.Compare):
        def step(self, path, a, b):
            if isinstance(a, io.TextIOBase) or type(a).__name__ == "function" and a.__name__ == "<lambda>":
                if b is not None:
                    self.fail(path, "expected null", a, b)
                return None
            if type(a).__name__ in ("generator", "list_iterator"):
                if not hasattr(b, "__next__") and not isinstance(b, list):
                    self.fail(path, "expected an iterator", a, b)
                return None
            if type(a) is object:
                if type(b) is not object:
                    self.fail(path, "expected a bare object", a, b)
                return None
            return super().step(path, a, b)

    w = Lossy()
    try:
        w.run(v, d)
    except Exception as e:
        if hasattr(e, "detail"):
            e.detail["document"] = j
        raise
    mon.event("nodes_compared", w.visited)
    mon.event("identities_confirmed", w.shared)


class CtorArgs:
    """Built by __new__ from arguments that may refer back to the object."""

    def __new__(cls, *a):
        self = object.__new__(cls)
        self.a = a
        return self

    def __getnewargs__(self):
        return self.a

    def __getstate__(self):
        return None


class CtorEx:
    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self.a, self.k = a, k
        return self

    def __getnewargs_ex__(self):
        return self.a, self.k

    def __getstate__(self):
        return None


class CtorReduce:
    def __init__(self, *a):
        self.a = a

    def __reduce__(self):
        return (CtorReduce, self.a)


@dataclasses.dataclass(frozen=True)
class FrozenHolder:
    k: object


class PrivateHolder:
    def put(self, v):
        self.__k = v

    def get(self):
        return self.__k


HOLDERS = (
    (list, lambda c, n: c.append(n), lambda c: c[0]),
    (dict, lambda c, n: c.__setitem__("k", n), lambda c: c["k"]),
    (F.ListSub, lambda c, n: c.append(n), lambda c: c[0]),
    (F.DictSub, lambda c, n: c.__setitem__("k", n), lambda c: c["k"]),
    (F.Plain, lambda c, n: setattr(c, "k", n), lambda c: c.k),
    (F.Slots, lambda c, n: setattr(c, "a", n), lambda c: c.a),
    (lambda: F.DC(1), lambda c, n: setattr(c, "a", n), lambda c: c.a),
    (lambda: collections.defaultdict(list), lambda c, n: c.__setitem__("k", n), lambda c: c["k"]),
    (lambda: FrozenHolder(None), lambda c, n: object.__setattr__(c, "k", n), lambda c: c.k),
    (lambda: PrivateHolder(), lambda c, n: c.put(n), lambda c: c.get()),
    (list, lambda c, n: c.append([{"x": n}]), lambda c: c[0][0]["x"]),
    (dict, lambda c, n: c.__setitem__((1, "t"), n), lambda c: c[(1, "t")]),
    (dict, lambda c, n: c.__setitem__((1, "t"), [n]), lambda c: c[(1, "t")][0]),
    (dict, lambda c, n: c.__setitem__(7, n), lambda c: c[7]),
    (list, lambda c, n: c.extend(([1], n, "z", [n], n, 2)), lambda c: among(c)),
    (F.ListSub, lambda c, n: c.extend(([1], n, "z", [n], n, 2)), lambda c: among(c)),
    (dict, lambda c, n: c.update(zip("abcdef", ([1], n, "z", [n], n, 2))), lambda c: among(c.values())),
    (F.DictSub, lambda c, n: c.update(zip("abcdef", ([1], n, "z", [n], n, 2))), lambda c: among(c.values())),
    (F.Plain, lambda c, n: vars(c).update(zip("abcdef", ([1], n, "z", [n], n, 2))), lambda c: among(vars(c).values())),
)


def among(items):
    """The object among other items, if they are all in place."""
    a, x, b, y, z, c = items
    return x if a == [1] and b == "z" and type(y) is list and y[0] is x and z is x and c == 2 else items


def ctor_cycles(r, mon):
    """Constructor arguments that lead back to the object being built."""
    holder, put, get = r.choice(HOLDERS)
    c = holder()
    before = [r.choice((lambda: 1, lambda: [1], lambda: (1, [2]), lambda: {"p": 1}))() for _ in range(r.choice((0, 0, 1, 2)))]
    cls = r.choice((CtorArgs, CtorEx, CtorReduce, F.NT))
    pos = len(before)
    if cls is F.NT:
        n, at = F.NT(c, before), lambda n: n[0]
    elif cls is CtorEx and r.random() < 0.5:
        n, at = cls(*before, kw=c), lambda n: n.k["kw"]
    else:
        n, at = cls(*before, c, [3]), lambda n: n.a[pos]
    put(c, n)
    wrapped = r.choice((False, True))
    doc = {"first": [0], "n": n, "again": n, "c": c} if wrapped else n
    j = encode(mon, doc, keys=True)
    d = decode(mon, j, keys=True)
    m = d["n"] if wrapped else d
    check(type(m) is cls, "wrong type", got=type(m))
    check(get(at(m)) is m, "the back reference does not lead to the object", got=type(get(at(m))), document=j)
    check(type(at(m)) is type(c), "wrong holder", got=type(at(m)))
    if wrapped:
        check(d["again"] is m and d["c"] is at(m), "sharing lost", document=j)
    mon.event("ctor_cycles")
    mon.event("identities_confirmed", 2)
    mon.sig("ctor", cls.__name__, HOLDERS.index((holder, put, get)), wrapped, len(before))


def dags(r, mon):
    """Sharing keeps documents linear: a ladder of n levels with 2^n paths."""
    n = r.choice((10, 20, 40, 60))
    make = r.choice((lambda a, b: [a, b], lambda a, b: {"a": a, "b": b}, lambda a, b: F.DC(a, b), lambda a, b: _slots(a, b), lambda a, b: F.ListSub([a, b]), lambda a, b: _r3(a, b)))
    v = make(1, 2)
    for _ in range(n):
        v = make(v, v)
    kw = {"keys": True} if r.random() < 0.3 else {}
    j, d = roundtrip(mon, v, kw, kw)
    check(len(j) < 400 * (n + 2), f"document of {len(j)} characters for {n + 1} shared objects", document=j[:500])
    mon.event("dags")
    mon.sig("dag", n, type(v).__name__)


def _slots(a, b):
    s = F.Slots()
    s.a, s.b = a, b
    return s


def _r3(a, b):
    o = F.Reduce3()
    o.built, o.a, o.b = (), a, b
    return o


def once(r, mon):
    """Every shared instance is written exactly once."""
    n = r.choice((1, 3, 10, 100))
    objs = [F.ValueObj(f"uid-{i}") for i in range(n)]
    refs = [r.choice(objs) for _ in range(r.choice((5, 50, 500)))]
    v = r.choice((refs, {f"k{i}": o for i, o in enumerate(refs)}, [refs[: len(refs) // 2], {"x": refs}], F.DC(refs, tuple(refs), list(refs))))
    j, d = roundtrip(mon, v)
    for o in {id(o): o for o in refs}.values():
        c = j.count(f'"{o.uid}"')
        check(c == 1, f"shared object written {c} times", document=j[:2000])
    mon.event("written_once", len(objs))
    mon.sig("once", n, len(refs), type(v).__name__)


def many_refs(r, mon):
    """Reference numbers with several digits."""
    n = r.choice((11, 101, 1001, 3000, 9000, 20000, 70000))
    objs = [[i] if i % 3 else {"i": i} for i in range(n)]
    for i in range(0, min(n, 600), 5):
        objs[i] = F.Plain()
        objs[i].i = i
    idx = [r.randrange(n) for _ in range(n)]
    v = [objs, [objs[i] for i in idx[:9000]], objs[-1], objs[0], {str(i): objs[i] for i in idx[:50]}]
    roundtrip(mon, v)
    mon.event("big_reference_numbers")
    mon.sig("many", n)


def trees(r, mon):
    """Parent links, sibling links, linked lists."""
    nodes = [F.Node(f"n{i}") for i in range(r.choice((2, 5, 20, 60)))]
    for i, c in enumerate(nodes[1:], 1):
        p = nodes[r.randrange(max(0, i - 8), i)]
        c.parent = p
        p.children.append(c)
        if r.random() < 0.3:
            c.friend = r.choice(nodes)
    roundtrip(mon, nodes[0])
    roundtrip(mon, {"nodes": nodes, "root": nodes[0]})
    chain = [F.Plain() for _ in range(r.choice((2, 10, 40)))]
    for a, b in zip(chain, chain[1:]):
        a.next, b.prev = b, a
    chain[-1].next = chain[0]
    roundtrip(mon, chain[0])
    mon.event("trees")
    mon.sig("tree", iso.shape(nodes[0], 2000), len(chain))


def equal_distinct(r, mon):
    """Equal but distinct objects stay distinct."""
    make = r.choice((lambda: [], lambda: {}, lambda: [1], lambda: F.AlwaysEqual(1), lambda: F.DC(1), lambda: F.ValueObj(1), lambda: F.Plain(), lambda: F.ListSub(), lambda: F.DictSub(),
                     lambda: F.FrozenDC(1), lambda: collections.OrderedDict(), lambda: F.RaisesOnCompare(), lambda: F.NeverEqual()))  # fmt: skip
    n = r.randrange(2, 8)
    objs = [make() for _ in range(n)]
    seq = objs + [r.choice(objs) for _ in range(n)]
    r.shuffle(seq)
    roundtrip(mon, r.choice((seq, tuple(seq), {f"k{i}": o for i, o in enumerate(seq)}, [[x] for x in seq])))
    mon.event("equal_but_distinct", n)
    mon.sig("equal", type(objs[0]).__name__, tuple(objs.index(x) if type(x).__eq__ is list.__eq__ else 0 for x in seq), n)


def copied(r, mon):
    """Copies of all kinds of values next to the originals: as many objects come back as went in."""
    g = gen.Graph(r, share=0.0, cycles=False, budget=r.choice((3, 8)))
    xs = [g.value(2) for _ in range(r.randrange(1, 4))] + [gen.stdlib_value(r) for _ in range(r.randrange(1, 4))]
    seq = []
    for x in xs:
        try:
            seq += [x, copy.deepcopy(x), x, copy.copy(x)]
        except Exception:
            seq += [x, x]  # not every kind of object can be copied
    r.shuffle(seq)
    j, d = roundtrip(mon, seq)
    # values of the library are objects too
    lasting = [i for i, x in enumerate(seq) if not isinstance(x, (str, bytes, int, float, complex, tuple, frozenset, set, type(None), type, enum.Enum, types.FunctionType, types.BuiltinFunctionType))]
    for n, i in enumerate(lasting):
        for k in lasting[:n]:
            check((seq[i] is seq[k]) == (d[i] is d[k]), f"items {k} and {i} are one object on one side only", item=seq[i], document=j)
    mon.event("copies", len(seq))
    mon.sig("copied", tuple(type(x).__name__ for x in seq))


def json_ids(r, mon):
    """In the text, references only ever point at objects that come earlier."""
    g = gen.Graph(r, kinds=("list", "dict", "plain", "dataclass", "slots", "node"), share=0.4, cycles=True, budget=30, stdlib=False, fns=False)
    v = g.make(4)
    j = encode(mon, v)
    count = 0
    stack = [json.loads(j)]
    # document order walk: containers and objects are numbered as they open
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if set(x) == {"py/id"}:
                check(type(x["py/id"]) is int and 0 <= x["py/id"] < count, f"reference {x['py/id']} before its object (only {count} so far)", document=j)
                mon.event("references_checked")
                continue
            if "py/b64" in x or "py/type" in x or "py/function" in x:
                continue
            if not ("py/tuple" in x or "py/set" in x):
                count += 1
            kids = [x["py/tuple"]] if "py/tuple" in x else list(x.values())
            if "py/tuple" in x:
                kids = x["py/tuple"]
            elif "py/set" in x:
                kids = x["py/set"]
            stack.extend(reversed(kids))
        elif isinstance(x, list):
            count += 1
            stack.extend(reversed(x))
    mon.sig("ids", iso.shape(v))


class Wrapped:
    def __init__(self, v):
        self.v = v


class Unwrap(jsonpickle.handlers.BaseHandler):
    """Restores to a part of the graph."""

    def flatten(self, obj, data):
        data["v"] = self.context.flatten(obj.v, reset=False)
        return data

    def restore(self, data):
        return self.context.restore(data["v"], reset=False)


def unwrapped(r, mon):
    """Handlers that return an object that is part of the graph already."""
    pool = [r.choice((list, dict, F.Plain))() for _ in range(r.randrange(2, 6))]
    wrap = {id(o): Wrapped(o) for o in pool if r.random() < 0.6}
    links = [(i, r.randrange(len(pool)), r.random() < 0.6) for i in range(len(pool)) for _ in range(r.randrange(0, 3))]
    roots = [(r.randrange(len(pool)), r.random() < 0.6) for _ in range(r.randrange(2, 6))]

    def get(pool, i, w, twin):
        return pool[i] if twin else wrap.get(id(pool[i]), pool[i]) if w else pool[i]

    def fill(pool, twin):
        for n, (a, b, w) in enumerate(links):
            if not r_cyc and b >= a:
                continue
            o, x = pool[a], get(pool, b, w, twin)
            if type(o) is list:
                o.append(x)
            elif type(o) is dict:
                o[f"k{n}"] = x
            else:
                o.__dict__[f"a{n}"] = x
        return [get(pool, i, w, twin) for i, w in roots]

    r_cyc = r.random() < 0.5
    twin = fill([type(o)() for o in pool], True)
    v = fill(pool, False)
    jsonpickle.handlers.register(Wrapped, Unwrap)
    try:
        j = encode(mon, v)
        d = decode(mon, j)
    finally:
        jsonpickle.handlers.unregister(Wrapped)
    compare(mon, twin, d, j)
    mon.event("unwrapped", '"props.p03.Wrapped"' in j)
    mon.sig("unwrapped", iso.shape(v))


SCENARIOS = [
    Scenario("unwrapped", unwrapped, 6000),
    Scenario("graph", graph, 25000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("self_cycles", self_cycles, 8000),
    Scenario("interleaved", interleaved, 8000),
    Scenario("ctor_cycles", ctor_cycles, 3000),
    Scenario("dags", dags, 300),
    Scenario("once", once, 400),
    Scenario("many_refs", many_refs, 60),
    Scenario("trees", trees, 600),
    Scenario("equal_distinct", equal_distinct, 3000),
    Scenario("copied", copied, 3000),
    Scenario("json_ids", json_ids, 3000),
]
