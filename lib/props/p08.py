"""P08: unpicklable=False gives plain JSON that mirrors the data."""

import collections
import datetime
import json
import types

import gen
import iso
import vpfix as F
from api import encode, rand_format
from core import Scenario, Violation, check

RULE = (
    "Seeded graphs of builtin values, instances, container subclasses and stdlib values, with sharing and cycles, encoded with "
    "unpicklable=False; the parsed document is compared with an independent model (attributes and items become members, "
    "sequences and sets become arrays, cycles are cut with null, repeated objects are repeated in full), and scanned for "
    "anything that looks like a type tag. Distinct by graph shape."
)
REQUIRED = ("left_out", "functions", "nodes_modelled", "cycles_cut", "repeats_expanded", "documents_encoded", "tag_scans")
ASSUMPTIONS = [
    "bytes, types, iterators and objects with constructor-argument hooks keep a tagged form and are left out of the model",
    "set members are compared as multisets",
]

FUNCTIONS = (types.FunctionType, types.BuiltinFunctionType)


class Judge:
    """Walks the object graph and the parsed document in lock step."""

    def __init__(self, mon):
        self.mon = mon
        self.seen = {}
        self.cyclic = {}

    def on_cycle(self, v):
        if id(v) not in self.cyclic:
            self.cyclic[id(v)] = gen.in_cycle(v)
        return self.cyclic[id(v)]

    def is_cut(self, v, got):
        return got is None

    def diff(self, v, got, path=""):
        """None or a description of the first difference."""
        t = type(v)
        if t in (str, int, float, bool, type(None)):
            if type(got) is not t or (iso.float_key(v) != iso.float_key(got) if t is float else v != got):
                return f"{path}: {str(v)[:100]!r} became {str(got)[:100]!r}"
            return None
        self.mon.event("nodes_modelled")
        again = id(v) in self.seen
        self.seen[id(v)] = v
        if isinstance(v, FUNCTIONS):
            # there is no data in a function
            self.mon.event("functions")
            return None if got is None else f"{path}: {v} became {str(got)[:100]}"
        if isinstance(v, types.ModuleType):
            return None if str(v) == got else f"{path}: {v} became {got!r}"
        if self.is_cut(v, got):
            # only an object that was met before and leads back to itself is cut
            if again and self.on_cycle(v):
                self.mon.event("cycles_cut")
                return None
            return f"{path}: {t.__name__} became {str(got)[:100]}"
        if again:
            self.mon.event("repeats_expanded")
        if isinstance(v, (datetime.datetime, datetime.date, datetime.time)):
            return None if v.isoformat() == got else f"{path}: {v} became {got!r}"
        if isinstance(v, set):
            return self.sets(v, got, path)
        if isinstance(v, (list, tuple)):
            return self.lists(list(v), got, path)
        if isinstance(v, dict):
            return self.members(v, got, path)
        if isinstance(v, Stateful):
            return self.members({"state": v.v}, got, path)
        if isinstance(v, StatefulList):
            return self.lists([1, v.v], got, path)
        want = dict(getattr(v, "__dict__", {}))
        want.update((k.partition(":")[2], x) for k, x in iso.slot_state(v).items())
        return self.members(want, got, path)

    def sets(self, v, got, path):
        if type(got) is not list or len(got) != len(v):
            return f"{path}: set of {len(v)} became {str(got)[:200]}"
        rest = list(got)
        for w in v:
            for i, g in enumerate(rest):
                if self.diff(w, g) is None:
                    del rest[i]
                    break
            else:
                return f"{path}: set member {str(w)[:100]} is missing"
        return None

    def lists(self, v, got, path):
        if type(got) is not list or len(v) != len(got):
            return f"{path}: sequence of length {len(v)} became {str(got)[:200]}"
        for i, (a, b) in enumerate(zip(v, got)):
            d = self.diff(a, b, f"{path}[{i}]")
            if d:
                return d
        return None

    def members(self, v, got, path):
        # methods and functions without a name are no data either
        left_out = [k for k, x in v.items() if isinstance(x, types.MethodType) or (type(x) is types.FunctionType and x.__name__ == "<lambda>")]
        if left_out:
            self.mon.event("left_out", len(left_out))
            v = {k: x for k, x in v.items() if k not in left_out}
        want = ["null" if k is None else k if isinstance(k, str) else repr(k) for k in v]
        if type(got) is not dict or want != list(got):
            return f"{path}: members {want[:12]} became {list(got)[:12] if type(got) is dict else str(got)[:100]}"
        for k, x, g in zip(want, v.values(), got.values()):
            d = self.diff(x, g, f"{path}.{k}")
            if d:
                return d
        return None


def scan(mon, doc, j):
    """No member name of the document is a type tag."""
    stack = [doc]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            bad = [k for k in x if k in gen.TAGS]
            if bad:
                raise Violation(f"plain output contains {bad}", document=j)
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    mon.event("tag_scans")


class Stateful:
    def __init__(self, v):
        self.v = v
        self.hidden = "not encoded"

    def __getstate__(self):
        return {"state": self.v}



class StatefulList:
    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return [1, self.v]



class Maker:
    def __init__(self, r, share):
        self.r, self.share, self.wide = r, share, r.random() < 0.05
        self.pool, self.open, self.left = [], [], r.choice((5, 15, 40))

    def value(self, depth):
        r = self.r
        self.left -= 1
        if self.pool and r.random() < self.share:
            return r.choice(self.pool)
        if depth <= 0 or self.left <= 0 or r.random() < 0.3:
            return gen.ratom(r)
        k = r.randrange(17)
        if k == 16:
            return r.choice((F.module_function, len, json, collections, json.dumps))
        if k < 3:
            return self.fill([], depth)
        if k < 6:
            return self.fill({}, depth)
        if k == 6:
            t = tuple(self.value(depth - 1) for _ in range(r.randrange(0, 4)))
            self.pool.append(t)
            return t
        if k == 7:
            o = r.choice((set, F.SetSub))(gen.rint(r) if r.random() < 0.7 else (1, gen.rint(r), "t") for _ in range(r.randrange(0, 4)))
            if type(o) is F.SetSub and r.random() < 0.4:
                o.note = gen.ratom(r)
            return o
        if k == 8:
            return r.choice((gen.rdatetime, gen.rdate, gen.rtime))(r)
        if k == 9:
            o = r.choice((F.Slots, F.SlotsChild, F.SlotsAndDict))()
            o.a = self.value(depth - 1)
            if r.random() < 0.5:
                o.b = self.value(depth - 1)
            return self.add(o)
        if k == 10:
            o = F.ListSub()
            if r.random() < 0.4:
                o.note = gen.ratom(r)  # attributes of sequences have no place in the plain form
            return self.fill(o, depth)
        if k == 11:
            return self.fill(r.choice((F.DictSub, collections.OrderedDict, F.OrderedSub))(), depth)
        if k == 12:
            return self.add(r.choice((Stateful, StatefulList))(self.value(depth - 1)))
        if k == 13:
            return self.add(F.DC(self.value(depth - 1), self.value(depth - 1)))
        return self.fill(r.choice((F.Plain, F.PlainChild, F.Outer.Inner, F.Falsy, F.Sized0, F.AlwaysEqual, F.RaisesOnCompare, F.WithProperty, F.TwoFaced))(), depth)

    def add(self, o):
        self.pool.append(o)
        self.open.append(o)
        return o

    def fill(self, o, depth):
        r = self.r
        for i in range(r.choice((9, 17, 40, 101)) if self.wide and r.random() < 0.2 else r.randrange(0, 5)):
            v = self.value(depth - 1)
            if r.random() < 0.02 and not isinstance(o, list):
                v = r.choice((lambda: 0, Judge(None).diff, Maker(r, 0).value, F.Methods.klass))
            if isinstance(o, list):
                o.append(v)
            elif isinstance(o, dict):
                o[gen.rkey(r)] = v
            else:
                o.__dict__[f"{r.choice('abcdef')}{i}"] = v
        return self.add(o)

    def link(self):
        if not self.open or not self.pool:
            return
        o, v = self.r.choice(self.open), self.r.choice(self.pool)
        if isinstance(o, list):
            o.append(v)
        elif isinstance(o, dict):
            o[gen.rkey(self.r)] = v
        elif isinstance(o, (Stateful, StatefulList)):
            o.v = v
        elif hasattr(o, "__dict__"):
            o.__dict__["link"] = v


def judge(mon, v, **kw):
    j = encode(mon, v, unpicklable=False, **kw)
    doc = json.loads(j)
    scan(mon, doc, j)
    d = Judge(mon).diff(v, doc)
    check(d is None, f"plain form is wrong at {d}", document=j)
    return j


def graph(r, mon):
    share = r.choice((0, 0.2, 0.4))

    def make():
        m = Maker(r, share)
        v = m.value(5)
        for _ in range(r.randrange(0, 4)):
            m.link()
        return v

    v = gen.side_by_side(r, make)
    j = judge(mon, v if r.random() < 0.7 else [v, v], **{k: x for k, x in rand_format(r).items() if k != "use_base85"})
    mon.sig("graph", iso.shape(v))
    mon.sample(j)


def acyclic(r, mon):
    """Everything is repeated in full; nothing is cut."""
    m = Maker(r, 0.5)
    v = [m.value(4) for _ in range(3)]
    n = mon.events["cycles_cut"]
    judge(mon, v, make_refs=r.random() < 0.5)
    check(mon.events["cycles_cut"] == n, "the workload is not acyclic")
    mon.sig("acyclic", iso.shape(v))


def cycles(r, mon):
    """Rings of every kind of object, entered from several places."""
    mk = (lambda: [], dict, F.Plain, F.DC.__new__, F.Slots, F.ListSub, F.DictSub)
    objs = []
    for _ in range(r.randrange(1, 6)):
        f = r.choice(mk)
        o = F.DC(None) if f == F.DC.__new__ else f()
        objs.append(o)
    for i, o in enumerate(objs):
        t = objs[(i + 1) % len(objs)]
        if isinstance(o, list):
            o.append(t)
        elif isinstance(o, dict):
            o["t"] = t
        else:
            o.a = r.choice((t, [t], (t,), {"x": t}))
    v = r.choice((objs, objs[0], {"a": objs[0], "b": objs[-1]}, [objs[-1], 1, objs[0]]))
    judge(mon, v)
    mon.sig("cycle", iso.shape(v))


def scalars(r, mon):
    x = gen.ratom(r)
    for v in (x, [x], {"k": x}, (x, x), F.DC(x), F.NT and [x, [x, (x,)]]):
        judge(mon, v)
    mon.sig("scalar", type(x).__name__, x)


def subclasses(r, mon):
    """Scalars with attributes of their own type and stdlib values have a stable plain form."""
    v = r.choice((F.Color.RED, F.IntColor.ONE, datetime.timedelta(r.randrange(100), r.randrange(100)), F.CustomError(1, [2]), range(3), 3 + 4j))
    j1 = encode(mon, [v, v], unpicklable=False)
    a, b = json.loads(j1)
    check(a == b, "the same value has two plain forms", document=j1)
    check(json.loads(encode(mon, v, unpicklable=False)) == a, "plain form depends on the position", document=j1)
    mon.sig("sub", type(v).__name__)


SCENARIOS = [
    Scenario("graph", graph, 20000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("acyclic", acyclic, 6000),
    Scenario("cycles", cycles, 6000),
    Scenario("scalars", scalars, 2000),
    Scenario("subclasses", subclasses, 500),
]
