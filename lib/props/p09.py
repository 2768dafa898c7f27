"""P09: make_refs=False writes no references and breaks cycles with repr()."""

import json

import gen
import iso
import jsonpickle
import vpfix as F
from api import decode, encode, rand_format
from core import Scenario, Violation, check
from props import p08

RULE = (
    "Seeded graphs over all kinds of nodes, with sharing and cycles, encoded with make_refs=False. The document must hold no "
    "reference; decoded, it must equal the original node for node, except that an object inside itself may appear as the text "
    "of its repr(). Shared objects that are not on a cycle are always written in full. Distinct by graph shape."
)
REQUIRED = ("cycles_cut", "expanded_again", "documents_decoded", "no_reference_scans", "nodes_modelled")
ASSUMPTIONS = ["graphs stay small enough for repeated objects to be written out in full"]


class Cut(iso.Compare):
    """Compares with the decoded graph, allowing repr() text at cycles."""

    def __init__(self, mon, **kw):
        super().__init__(ident=False, **kw)
        self.mon = mon
        self.cyclic = {}
        self.cut = {}
        self.full = {}

    def step(self, path, a, b):
        if type(b) is str and type(a) is not str:
            if id(a) not in self.cyclic:
                self.cyclic[id(a)] = gen.in_cycle(a)
            if not self.cyclic[id(a)]:
                self.fail(path, "an object outside any cycle became text", a, b)
            if repr(a) != b:
                self.fail(path, "the text is not the repr of the object", repr(a), b)
            self.mon.event("cycles_cut")
            self.cut[id(a)] = a
            return None
        if id(a) in self.full and not isinstance(a, iso.BY_IS + iso.ATOMS):
            self.mon.event("expanded_again")
        self.full[id(a)] = a
        return super().step(path, a, b)

    def finish(self, j):
        lost = [a for i, a in self.cut.items() if i not in self.full]
        check(not lost, "an object is only ever written as text", objects=lost, document=j)


def scan(mon, j):
    stack = [json.loads(j)]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "py/id" in x or "py/ref" in x:
                raise Violation("the document contains a reference", document=j)
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    mon.event("no_reference_scans")


def judge(mon, v, **kw):
    j = encode(mon, v, make_refs=False, **kw)
    scan(mon, j)
    d = decode(mon, j, keys=kw.get("keys", False))
    c = Cut(mon, order=not kw.get("keys", False))
    try:
        c.run(v, d)
    except Violation as e:
        e.detail["document"] = j
        raise
    mon.event("nodes_compared", c.visited)
    c.finish(j)
    return j


def size(v, limit=3000):
    """Number of nodes when every path is written out (cut at cycles)."""
    n = 0
    stack = [(v, ())]
    while stack and n < limit:
        x, up = stack.pop()
        n += 1
        if id(x) in up or isinstance(x, iso.BY_IS + iso.ATOMS):
            continue
        up = (*up, id(x))
        kids = list(x.items()) if isinstance(x, dict) else list(x) if isinstance(x, (list, tuple, set, frozenset)) else []
        kids += list(getattr(x, "__dict__", {}).values()) + list(iso.slot_state(x).values())
        for k in kids:
            if isinstance(k, tuple) and isinstance(x, dict) and len(k) == 2:
                stack.append((k[1], up))
            else:
                stack.append((k, up))
    return n


KINDS = sorted(set(gen.KINDS) - {"exception"})


def graph(r, mon):
    g = gen.Graph(r, kinds=KINDS, share=r.choice((0.1, 0.25, 0.4)), budget=r.choice((10, 25)))
    v = g.make(4)
    most = 100000 if gen.HUGE[0] else 3000
    if size(v, most) >= most:
        return
    if g.wide and any(gen.in_cycle(x) for x in g.pool):
        return  # the repr() of a cycle could be of any length
    j = judge(mon, v, **rand_format(r))
    mon.sig("graph", iso.shape(v))
    mon.sample(j)


def rings(r, mon):
    """Cycles of every kind of node, entered at several points."""
    mk = ((lambda: []), dict, F.Plain, F.ListSub, F.DictSub, F.Node, F.TwoFaced, F.Slots, lambda: F.DC(None), lambda: F.GetSetState(), lambda: F.Reduce3Set())
    objs = [r.choice(mk)() for _ in range(r.randrange(1, 6))]
    for o in objs:
        if isinstance(o, F.GetSetState):
            o.transient = "restored"
        if isinstance(o, F.Reduce3Set):
            o.built = ()
    for i, o in enumerate(objs):
        for t in {i + 1, r.randrange(len(objs))} if r.random() < 0.3 else {i + 1}:
            t = objs[t % len(objs)]
            t = r.choice((t, t, [t], (t,), {"k": t}))
            if isinstance(o, list):
                o.append(t)
            elif isinstance(o, dict):
                o[f"k{i}"] = t
            else:
                o.a = t
    v = r.choice((objs, objs[0], {"a": objs[0], "b": objs[-1]}, [objs[-1], 1, objs[0]], (objs[0],)))
    if size(v) >= 3000:
        return
    judge(mon, v)
    mon.sig("ring", iso.shape(v))


def dag(r, mon):
    """Shared but acyclic: nothing may be cut, nothing may be shared afterwards."""
    layers = [[gen.ratom(r) for _ in range(2)]]
    for _ in range(r.randrange(1, 6)):
        layer = []
        for _ in range(r.randrange(1, 3)):
            kids = [r.choice(r.choice(layers)) for _ in range(r.randrange(0, 3))]
            k = r.randrange(6)
            if k == 0:
                o = F.Plain()
                o.__dict__.update({f"a{i}": x for i, x in enumerate(kids)})
            elif k == 1:
                o = {f"a{i}": x for i, x in enumerate(kids)}
            elif k == 2:
                o = tuple(kids)
            elif k == 3:
                o = F.ListSub(kids)
            elif k == 4:
                o = F.DC(*(kids + [1, 2])[:2])
            else:
                o = list(kids)
            layer.append(o)
        layers.append(layer)
    v = [layers[-1], layers[-1], layers[0]]
    if size(v) >= 3000:
        return
    before = mon.events["cycles_cut"]
    j = judge(mon, v)
    check(mon.events["cycles_cut"] == before, "something acyclic was cut", document=j)
    d = jsonpickle.decode(j)
    check(d[0] is not d[1], "sharing survived make_refs=False", document=j)
    mon.sig("dag", iso.shape(v))


def keyed(r, mon):
    """The same with keys=True."""
    shared = F.ValueObj(1, gen.ratom(r))
    v = {}
    for _ in range(r.randrange(1, 5)):
        k = r.choice((gen.hashable(r), shared, (shared, 1), F.ValueObj(r.randrange(2, 9)), F.FrozenDC(gen.hashable_atom(r))))
        v[k] = r.choice((shared, [shared], gen.ratom(r), {gen.hashable(r): gen.ratom(r)}))
    judge(mon, v, keys=True)
    mon.sig("keyed", iso.shape(v))


class ReprJudge(p08.Judge):
    def is_cut(self, v, got):
        return isinstance(got, str) and got == repr(v)


def plain(r, mon):
    """Together with unpicklable=False: no tags, cycles cut with repr()."""
    m = p08.Maker(r, r.choice((0, 0.2, 0.4)))
    m.wide = m.wide and not m.share
    v = m.value(5)
    for _ in range(r.randrange(0, 4)):
        m.link()
    if size(v) >= 3000:
        return
    j = encode(mon, v, unpicklable=False, make_refs=False)
    doc = json.loads(j)
    p08.scan(mon, doc, j)
    scan(mon, j)
    d = ReprJudge(mon).diff(v, doc)
    check(d is None, f"plain form is wrong at {d}", document=j)
    mon.sig("plain", iso.shape(v))


SCENARIOS = [
    Scenario("graph", graph, 20000),
    Scenario("huge", gen.huge(graph), 16, 200),
    Scenario("rings", rings, 8000),
    Scenario("dag", dag, 6000),
    Scenario("keyed", keyed, 3000),
    Scenario("plain", plain, 12000),
]
