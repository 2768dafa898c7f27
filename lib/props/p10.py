"""P10: max_depth and max_iter bound what encoding touches, and change nothing else."""

import enum
import json

import gen
import iso
import vpfix as F
from api import decode, encode, quiet
from core import Scenario, Violation, check

RULE = (
    "Seeded graphs encoded with every relevant max_depth; the decoded result must equal an independently truncated copy of the "
    "graph (repr text exactly at the limit, everything above it intact, sharing included), and hooks of objects below the limit "
    "must not run. Iterators with and without end are encoded with max_iter; the number of items drawn is counted by the "
    "iterator itself. Distinct by graph shape and limit."
)
REQUIRED = ("truncations", "kept_whole", "hooks_counted", "iterators_drained", "items_drawn", "infinite_iterators", "iterators_cut", "without_iterators")
ASSUMPTIONS = ["objects encoded through reduce tuples or handlers spend further levels on their parts and are left out"]


class Hooked:
    """Counts every look at its insides."""

    def __init__(self, v):
        self.v = v
        self.looks = 0

    def __getstate__(self):
        self.__dict__["looks"] += 1
        return {"v": self.v}

    def __setstate__(self, st):
        self.st = st


class Trunc:
    """The truncated copy that decoding has to produce."""

    def __init__(self, limit, mon, refs=True):
        self.limit, self.mon, self.refs = limit, mon, refs
        self.memo, self.keep = {}, []
        self.expanded = {}
        self.cut = 0
        self.unsure = False

    def of(self, v, depth=0):
        t = type(v)
        if t in (str, bool, int, float, type(None), bytes, bytearray):
            return v
        if isinstance(v, enum.Enum):
            # a member spends two levels on its class and name; at the limit itself it is kept whole
            self.unsure |= depth == self.limit - 1
            return v
        if depth == self.limit:
            self.cut += 1
            return repr(v)
        if t is tuple:
            return tuple(self.of(x, depth + 1) for x in v)
        if t is set:
            return {self.of(x, depth + 1) for x in v}
        if isinstance(v, iso.BY_IS):
            return v
        if self.refs and id(v) in self.memo:
            return self.memo[id(v)]
        new = t.__new__(t)
        self.memo[id(v)] = new
        self.keep.append(v)
        if isinstance(v, Hooked):
            self.expanded[id(v)] = self.expanded.get(id(v), 0) + 1
            new.st = self.of({"v": v.v}, depth + 1)
            return new
        if isinstance(v, dict):
            for k, x in v.items():
                new[k] = self.of(x, depth + 1)
        if hasattr(v, "__dict__"):
            for k, x in v.__dict__.items():
                new.__dict__[k] = self.of(x, depth + 1)
        for k, x in iso.slot_state(v).items():
            object.__setattr__(new, k.partition(":")[2], self.of(x, depth + 1))
        if isinstance(v, list):
            new.extend([self.of(x, depth + 1) for x in v])
        return new


class Maker:
    def __init__(self, r, share):
        self.r, self.share = r, share
        self.pool, self.hooked, self.left = [], [], r.choice((8, 20, 40))

    def leaf(self):
        r = self.r
        if self.share and r.random() < 0.1:
            return r.choice((int, F.Plain, F.module_function, len, F.Color.RED, F.Color.GREEN, F.IntColor.ONE, F.Perm.R))
        return gen.rbytes(r) if r.random() < 0.15 else bytearray(b"xy") if r.random() < 0.05 else gen.ratom(r)

    def value(self, depth):
        r = self.r
        self.left -= 1
        if self.pool and r.random() < self.share:
            return r.choice(self.pool)
        if depth <= 0 or self.left <= 0 or r.random() < 0.15:
            return self.leaf()
        k = r.randrange(12)
        if k == 0:
            return (self.leaf(), *(self.value(depth - 1) for _ in range(r.randrange(0, 3))))
        if k == 1:
            return {r.choice((gen.rint(r), (gen.rint(r), "a"), b"x")) for _ in range(r.randrange(1, 3))}
        if k == 2:
            o = Hooked(None)
            self.pool.append(o)
            self.hooked.append(o)
            o.v = self.value(depth - 1)
            return o
        if k == 3:
            o = r.choice((F.Slots, F.SlotsChild))()
            self.pool.append(o)
            o.a, o.b = self.value(depth - 1), self.value(depth - 1)
            return o
        if k == 4:
            o = F.DC(None, None, [])
            self.pool.append(o)
            o.a = self.value(depth - 1)
            return o
        o = r.choice((list, list, dict, dict, F.Plain, F.Plain, F.PlainChild, F.ListSub, F.DictSub))()
        self.pool.append(o)
        for i in range(r.randrange(0, 4)):
            x = self.value(depth - 1)
            if isinstance(o, list):
                o.append(x)
            elif isinstance(o, dict):
                o[f"k{i}"] = x
            if not isinstance(o, (list, dict)) or (type(o) in (F.ListSub, F.DictSub) and r.random() < 0.3):
                o.__dict__[f"a{i}"] = self.value(depth - 1)
        return o


def judge(r, mon, v, hooked, limit, refs, **kw):
    for h in hooked:
        h.looks = 0
    j = encode(mon, v, max_depth=limit, **kw)
    looks = {id(h): h.looks for h in hooked}
    t = Trunc(limit, mon, refs)
    want = t.of(v)
    if t.unsure:
        return j
    d = decode(mon, j)
    mon.event("truncations", t.cut)
    mon.event("kept_whole", not t.cut)
    try:
        iso.same(want, d, ident=refs, what="decoded (compared with the truncated)")
    except Violation as e:
        e.detail.update(document=j, max_depth=limit)
        raise
    for h in hooked:
        mon.event("hooks_counted")
        check(looks[id(h)] == t.expanded.get(id(h), 0), f"state was taken {looks[id(h)]} times, expected {t.expanded.get(id(h), 0)}", document=j, max_depth=limit)
    return j


def graph(r, mon):
    m = Maker(r, r.choice((0.1, 0.3)))
    v = m.value(6)
    for limit in {0, 1, r.randrange(2, 8), r.randrange(2, 12), 50}:
        j = judge(r, mon, v, m.hooked, limit, True)
        mon.sig("graph", limit, iso.shape(v))
    mon.sample(j)


def tree(r, mon):
    """Without references every object is on its own."""
    hooked = []

    def make():
        m = Maker(r, 0)
        v = m.value(6)
        hooked.extend(m.hooked)
        return v

    v = gen.side_by_side(r, make)
    for limit in {0, 1, r.randrange(2, 8)}:
        judge(r, mon, v, hooked, limit, False, make_refs=False)
        mon.sig("tree", limit, iso.shape(v))


def plain_model(v, limit, depth=0):
    t = type(v)
    if t in (str, bool, int, float, type(None)):
        return v
    if depth == limit:
        return repr(v)
    if isinstance(v, set):
        return sorted(json.dumps(plain_model(x, limit, depth + 1)) for x in v)
    if isinstance(v, (list, tuple)):
        return [plain_model(x, limit, depth + 1) for x in v]
    if isinstance(v, Hooked):
        return plain_model({"v": v.v}, limit, depth + 1)
    if isinstance(v, dict):
        items = list(v.items())
    else:
        items = list(getattr(v, "__dict__", {}).items()) + [(k.partition(":")[2], x) for k, x in iso.slot_state(v).items()]
    return {k: plain_model(x, limit, depth + 1) for k, x in items}


def plain(r, mon):
    m = Maker(r, 0)
    m.leaf = lambda: gen.ratom(r)
    v = m.value(6)
    if any(isinstance(x, (set, bytes)) for x in walk(v)):
        return  # sets of tuples and bytes have forms of their own
    for limit in {0, 1, r.randrange(2, 8)}:
        j = encode(mon, v, max_depth=limit, unpicklable=False)
        want = plain_model(v, limit)
        got = json.loads(j)
        d = iso.differs(want, got, ident=False)
        check(d is None, f"plain document with max_depth={limit}: {d}", document=j)
        mon.sig("plain", limit, iso.shape(v))


def walk(v):
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, dict):
            stack.extend(x.values())
        elif isinstance(x, (list, tuple, set)):
            stack.extend(x)
        stack.extend(getattr(x, "__dict__", {}).values() if not isinstance(x, type) else ())
        stack.extend(iso.slot_state(x).values())


class Counted:
    """Iterator that counts how far it was drawn."""

    def __init__(self, make, end):
        self.make, self.end, self.drawn = make, end, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.end is not None and self.drawn >= self.end:
            raise StopIteration
        self.drawn += 1
        return self.make(self.drawn)


def counted_gen(c):
    for x in c:
        yield x


def iters(r, mon):
    wants, srcs, outs = [], [], []
    limit = r.choice((None, 0, 1, 2, 3, 7, 20, r.randrange(60)))
    for _ in range(r.randrange(1, 4)):
        end = r.choice((0, 1, 2, 3, 7, 8, 20, 21, r.randrange(60))) if limit is None or r.random() < 0.6 else None
        shared = [1]
        k = r.randrange(4)
        make = (lambda i: i, lambda i: [i], lambda i, s=shared: s, lambda i: {"n": i, "t": (i,)})[k]
        c = Counted(make, end)
        n = limit if end is None else end if limit is None else min(end, limit)
        if end is None:
            mon.event("infinite_iterators")
        srcs.append(c)
        outs.append(c if r.random() < 0.5 else counted_gen(c))
        wants.append([make(i + 1) for i in range(n)])
    v = {"it": [{"x": o} for o in outs], "after": [wants, 1]}
    un = r.random() < 0.8
    j = encode(mon, v, max_iter=limit, unpicklable=un)
    for c, w in zip(srcs, wants):
        mon.event("items_drawn", c.drawn)
        check(c.drawn == len(w), f"{c.drawn} items were drawn with max_iter={limit}, expected {len(w)}", document=j)
    if un:
        d = decode(mon, j)
        got = [list(x["x"]) for x in d["it"]]
    else:
        d = json.loads(j)
        got = [x["x"]["py/iterator"] for x in d["it"]]
        wants = json.loads(encode(mon, wants, unpicklable=False, make_refs=True))
    mon.event("iterators_drained", len(got))
    check(iso.differs(wants, got, ident=False) is None, f"items differ: {iso.differs(wants, got, ident=False)}", document=j)
    mon.sig("iters", limit, [(c.end, c.drawn) for c in srcs], un)


def builtin_iters(r, mon):
    """An endless generator inside a deep structure stays bounded in every mode."""
    n = r.randrange(0, 30)
    src = Counted(lambda i: i, None)
    v = counted_gen(src)
    for _ in range(r.randrange(0, 10)):
        v = r.choice(([v], {"k": v}, (1, v)))
    kw = r.choice(({}, {"make_refs": False}, {"unpicklable": False}, {"keys": True}, {"warn": True}))
    encode(mon, v, max_iter=n, **kw)
    check(src.drawn == n, f"{src.drawn} items drawn instead of {n}", options=kw)
    mon.event("infinite_iterators")
    mon.sig("endless", n, sorted(kw))


def cut_iters(r, mon):
    """Iterators at the maximal depth are not drawn from."""
    src = [Counted(lambda i: i, r.choice((None, 0, 1, 5))) for _ in range(r.randrange(1, 4))]
    inner = [s if r.random() < 0.4 else counted_gen(s) for s in src]
    text = [repr(x) for x in inner]
    v = r.choice((lambda: list(inner), lambda: {f"k{i}": x for i, x in enumerate(inner)}, lambda: tuple(inner), lambda: F.DC(inner[0], inner[-1])))()
    depth = 1
    for _ in range(r.randrange(0, 4)):
        v = r.choice(([v], {"k": v}, (1, v)))
        depth += 1
    kw = r.choice(({}, {"unpicklable": False}, {"keys": True}, {"make_refs": False}, {"warn": True}, {"max_iter": 3}))
    j = encode(mon, v, max_depth=depth, **kw)
    check(not any(s.drawn for s in src), "an iterator at the maximal depth was drawn from", document=j, options=kw)
    check(any(json.dumps(t) in j for t in text), "an iterator at the maximal depth is not its repr()", document=j)
    mon.event("iterators_cut", len(src))
    mon.sig("cut_iters", depth, sorted(kw), len(src), type(v).__name__)


def no_iters(r, mon):
    """max_iter leaves everything but iterators alone."""
    keys = r.random() < 0.3
    g = gen.Graph(r, share=0.2, budget=r.choice((5, 15, 40)))
    v = g.make(4)
    kw = r.choice(({}, {"unpicklable": False}, {"make_refs": False}, {"warn": True}, {"max_depth": 3})) | ({"keys": True} if keys else {})
    n = r.choice((0, 1, 2, 5))
    with quiet():
        want = encode(mon, v, **kw)
        check(encode(mon, v, max_iter=n, **kw) == want, "max_iter changed a document without iterators", document=want, max_iter=n, options=kw)
    mon.event("without_iterators")
    mon.sig("no_iters", iso.shape(v, 20), n, sorted(kw))


def shared_depths():
    x = {"n": [1]}
    for kw in ({"unpicklable": False}, {"make_refs": False}):
        import jsonpickle

        doc = json.loads(jsonpickle.encode([x, [x]], max_depth=2, **kw))
        check(doc == [{"n": repr([1])}, [repr(x)]], "a shared object is not cut at its own depth", document=doc)


FINDINGS = {"shared-at-different-depths": shared_depths}

SCENARIOS = [
    Scenario("graph", graph, 12000),
    Scenario("huge", gen.huge(tree), 16, 200),
    Scenario("tree", tree, 6000),
    Scenario("plain", plain, 6000),
    Scenario("iters", iters, 8000),
    Scenario("cut_iters", cut_iters, 2000),
    Scenario("no_iters", no_iters, 4000),
    Scenario("builtin_iters", builtin_iters, 1500),
]
