"""P25: classes= makes classes available under their names, for that call only."""

import json
import random

import gen
import iso
import jsonpickle
import mkcls
import vpfix as F
from api import compare, decode, encode
from core import Scenario, check
from jsonpickle.unpickler import Unpickler

RULE = (
    "Graphs over 1..5 randomly built classes that cannot be imported, decoded with the classes given one by one, as list, tuple, set, "
    "nested sequences, dict by name or dict by class, in any order and mixed with unrelated ones; classes redirected to others; "
    "importable names overridden; only some of the classes given. Later calls without classes= must not know them. Distinct by form and shape."
)
REQUIRED = ("documents", "nodes_compared", "forms", "redirected", "overridden", "partly_given", "forgotten", "types_and_instances")


def local_classes(r):
    """Classes like those of mkcls, out of reach for imports."""
    mkcls.reset()
    out = []
    for _ in range(r.randrange(1, 5)):
        c = mkcls.make(r)
        if "<" in c[0].__qualname__:
            continue
        out.append(c)
    if not out:
        out.append((F.Plain, [], object))
    return out


def graph(r, specs, types=True):
    made = []

    def value(depth=3):
        x = r.random()
        if made and x < 0.2:
            return r.choice(made)
        if depth <= 0 or x < 0.4:
            return r.choice((gen.ratom(r), [], {}, r.choice(specs)[0] if types else None))
        if x < 0.8:
            o = mkcls.fill(r, *r.choice(specs), lambda: value(depth - 1))
            if type(o).__hash__ is None or True:
                made.append(o)
            return o
        if x < 0.9:
            o = [value(depth - 1) for _ in range(r.randrange(0, 4))]
            made.append(o)
            return o
        o = {gen.rkey(r): value(depth - 1) for _ in range(r.randrange(0, 4))}
        o.pop("__dict__", None)
        made.append(o)
        return o

    return [value() for _ in range(r.randrange(1, 4))]


def hide(classes):
    """Take the classes out of their module."""
    mkcls.reset()
    for c in classes:
        for k, v in list(vars(c).items()):
            if isinstance(v, type) and v.__module__ == "vpdyn":
                delattr(c, k)


def given(r, classes):
    """The classes in one of the accepted forms."""
    cs = list(classes)
    r.shuffle(cs)
    extra = r.sample((F.Plain, F.DC, int, Unpickler, dict), r.randrange(0, 3))
    # classes of the same name in other modules are not meant
    extra += [type(n, (), {"__module__": "vpother.mod"}) for n in r.sample([c.__name__ for c in cs] + ["Gone2", "Plain", "DC", "Old1"], r.randrange(0, 4))]
    k = r.choice(("list", "tuple", "set", "nested", "names", "bycls", "mixed", "single"))
    if k == "single" and len(cs) != 1:
        k = "list"
    if k == "single":
        return k, cs[0]
    if k == "list":
        return k, cs + extra
    if k == "tuple":
        return k, tuple(extra + cs)
    if k == "set":
        return k, set(cs + extra)
    if k == "nested":
        i = r.randrange(len(cs) + 1)
        return k, [tuple(cs[:i]), [[c] for c in cs[i:]], extra]
    name = jsonpickle.util.importable_name
    if k == "names":
        return k, {name(c): c for c in cs + extra}
    if k == "bycls":
        return k, {c: c for c in cs + extra}
    return k, [{name(c): c} if r.random() < 0.4 else {c: c} if r.random() < 0.4 else c for c in cs + extra]


def everything(specs):
    return list(dict.fromkeys(c for s in specs for c in s[0].__mro__ if c.__module__ == "vpdyn"))


def fully(r, mon):
    specs = local_classes(r)
    x = graph(r, specs)
    j = encode(mon, x)
    classes = everything(specs)
    hide(classes)
    form, arg = given(r, classes)
    if r.random() < 0.3:
        u = Unpickler()
        got = u.restore(json.loads(j), classes=arg)
    elif r.random() < 0.3 and not any(t in j for t in ('"py/newargs', '"py/initargs', '"py/reduce"')):
        # no reset: nothing is filled in at the end
        u = Unpickler()
        got = decode(mon, j, context=u, reset=False, classes=arg)
        mon.event("without_reset")
    else:
        u = None
        got = decode(mon, j, classes=arg)
    compare(mon, x, got, j)
    mon.event("documents")
    mon.event("forms")
    if '"py/type"' in j and '"py/object"' in j:
        mon.event("types_and_instances")
    if '"vpdyn.' in j:
        # the next call does not know them
        data = json.loads(j)
        got = u.restore(data) if u else decode(mon, j)
        forgotten(j, got, classes)
        mon.event("forgotten")
    mon.sig(form, len(classes), iso.shape(x, 30))


def forgotten(j, got, classes):
    known, stack, seen = set(classes), [got], set()
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        check(type(v) not in known and not (isinstance(v, type) and v in known), f"class {v!r} was still known in the next call", document=j)
        if type(v) is dict:
            stack.extend(v.values())
        elif type(v) is list:
            stack.extend(v)
        elif hasattr(v, "__dict__") and not isinstance(v, type):
            stack.extend(vars(v).values())


class Old1:
    pass


class Old2:
    def __init__(self):
        raise AssertionError("constructor was called")


class New1:
    extra = "class attribute"


class New2(dict):
    pass


class New3:
    __slots__ = ("a", "b", "c", "child")


PLAIN = ("a", "b", "c", "child")


def redirect(r, mon):
    """Names lead to other classes than they did when encoding."""
    seed = r.getrandbits(60)
    used = r.sample((F.Plain, Old1, Old2, F.Color), r.randrange(1, 4))
    used = [c for c in used if c is not F.Color] or [Old1]
    to = {c: r.choice((New1, New3, Old1, F.Plain)) for c in used}

    def build(pick):
        q = random.Random(seed)
        made = []

        def value(d):
            x = q.random()
            if made and x < 0.25:
                return q.choice(made)
            if d <= 0 or x < 0.4:
                return gen.ratom(q)
            if x < 0.5:
                return pick(q.choice(used))
            if x < 0.8:
                o = object.__new__(pick(q.choice(used)))
                made.append(o)
                for n in q.sample(PLAIN, q.randrange(0, 4)):
                    setattr(o, n, value(d - 1))
                return o
            o = []
            made.append(o)
            o.extend(value(d - 1) for _ in range(q.randrange(0, 4)))
            return o

        return [value(4), value(3)]

    x = build(lambda c: c)
    want = build(lambda c: to[c])
    j = encode(mon, x)
    name = jsonpickle.util.importable_name
    form = r.choice(("names", "classes", "mixed", "list"))
    if form == "names":
        arg = {name(c): t for c, t in to.items()}
    elif form == "classes":
        arg = dict(to)
    elif form == "mixed":
        arg = {(name(c) if r.random() < 0.5 else c): t for c, t in to.items()}
    else:
        arg = [{c: t} for c, t in to.items()]
    compare(mon, want, decode(mon, j, classes=arg), j)
    mon.event("documents")
    mon.event("redirected" if Old1 in used or Old2 in used else "overridden")
    if F.Plain in used:
        mon.event("overridden")
    compare(mon, x, decode(mon, j), j)
    mon.event("forgotten")
    mon.sig("redirect", form, tuple(sorted(f"{a.__name__}{b.__name__}" for a, b in to.items())), iso.shape(x, 30))


class Gone1:
    pass


class Gone2:
    pass


Gone1.__module__ = Gone2.__module__ = "vpgone"


def partly(r, mon):
    """Only classes that are given (or importable) are used."""
    seed = r.getrandbits(60)

    def build(twin):
        q = random.Random(seed)
        made = []

        def value(d):
            x = q.random()
            if made and x < 0.25:
                return q.choice(made)
            if d <= 0 or x < 0.3:
                return gen.ratom(q)
            if x < 0.45:
                attrs = {n: gen.ratom(q) for n in q.sample(PLAIN, q.randrange(0, 3))}
                if twin:
                    o = {"py/object": "vpgone.Gone2", **attrs}
                else:
                    o = Gone2()
                    o.__dict__.update(attrs)
                made.append(o)
                return o
            if x < 0.8:
                o = q.choice((Gone1, F.Plain)).__new__(q.choice((Gone1, F.Plain)))
                made.append(o)
                for n in q.sample(PLAIN, q.randrange(0, 4)):
                    setattr(o, n, value(d - 1))
                return o
            o = []
            made.append(o)
            o.extend(value(d - 1) for _ in range(q.randrange(0, 4)))
            return o

        return [value(4), value(3), value(3)]

    j = encode(mon, build(False))
    form, arg = given(r, [Gone1])
    compare(mon, build(True), decode(mon, j, classes=arg), j)
    mon.event("documents")
    mon.event("partly_given")
    mon.sig("partly", form, iso.shape(build(True), 30))


SCENARIOS = [Scenario("fully", fully, 7000), Scenario("redirect", redirect, 5000), Scenario("partly", partly, 4000)]
