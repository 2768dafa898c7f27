"""P16: custom handlers are found, called and removed as registered."""

import collections
import dataclasses
import enum
import json
import typing

import iso
import jsonpickle
import jsonpickle.handlers as H
from api import compare, decode, encode
from core import Scenario, check
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random histories of register (call, decorator and handles() forms, base=True or not, classes and instances as handlers), "
    "unregister and get over a class hierarchy with ordinary, list, dict, set, tuple, enum, exception, slotted, state and reduce "
    "classes; after each step get() by type and by name, and the handler calls observed while encoding and decoding an instance of "
    "every class, must match a model. Distinct by history."
)
REQUIRED = ("lookups", "flattens_observed", "restores_observed", "base_matches", "unregistered", "contexts_passed", "contexts_withheld", "shared_handled", "nulls", "rejected", "handles", "odd_results", "loops", "same_names")
ASSUMPTIONS = ["lookup among several base=True handlers goes by the order of registration"]


class A:
    def __init__(self, v=0):
        self.v = v


class B(A):
    pass


class C(B):
    pass


class Mixin:
    pass


class D(Mixin, C):
    pass


class Other:
    def __init__(self, v=0):
        self.v = v


class L(list):
    pass


class LSub(L):
    pass


class M(dict):
    pass


class S(set):
    pass


class T(typing.NamedTuple):
    x: int = 1


class E(enum.Enum):
    ONE = 1
    TWO = 2


class X(ValueError):
    pass


class Sl:
    __slots__ = ("v",)


class St:
    def __getstate__(self):
        if LIVE.get(St):
            raise AssertionError("__getstate__ called although there is a handler")
        return {"s": 1}

    def __setstate__(self, st):
        pass


class Re:
    def __reduce__(self):
        if LIVE.get(Re):
            raise AssertionError("__reduce__ called although there is a handler")
        return Re, ()


class I(int):  # noqa: E742
    pass


class Tx(str):
    pass


@dataclasses.dataclass
class Dc:
    v: int = 1


class Na:
    def __new__(cls, *a):
        return object.__new__(cls)

    def __getnewargs__(self):
        if LIVE.get(Na):
            raise AssertionError("__getnewargs__ called although there is a handler")
        return ()


LIVE = {}
CLASSES = (A, B, C, D, Other, L, LSub, M, S, T, E, X, Sl, St, Re, Dc, Na, collections.OrderedDict, complex)


def instance(cls):
    if cls is E:
        return E.TWO
    if cls is complex:
        return 1 + 2j
    if cls is Sl:
        s = Sl()
        s.v = 1
        return s
    return cls()


LOG = []


def make_handler(r, n):
    """A handler class with its own tag; signatures vary."""
    kind = r.choice(("plain", "kw", "pos", "kwonly", "varkw", "default"))

    def log(what, self, ctx):
        LOG.append((n, what, self.context, ctx))

    none = object()
    if kind == "plain":

        class Hd(H.BaseHandler):
            def flatten(self, obj, data):
                log("flatten", self, none)
                data["h"] = n
                return data

            def restore(self, data):
                log("restore", self, none)
                return Restored(n, data)

    elif kind in ("kw", "pos"):

        class Hd(H.BaseHandler):
            def flatten(self, obj, data, handler_context=None):
                log("flatten", self, handler_context)
                data["h"] = n
                return data

            def restore(self, data, handler_context=None):
                log("restore", self, handler_context)
                return Restored(n, data)

    elif kind == "default":

        class Hd(H.BaseHandler):
            def flatten(self, obj, data, handler_context="own default"):
                log("flatten", self, handler_context)
                data["h"] = n
                return data

            def restore(self, data, *, handler_context="own default"):
                log("restore", self, handler_context)
                return Restored(n, data)

    elif kind == "kwonly":

        class Hd(H.BaseHandler):
            def flatten(self, obj, data, *, handler_context=None):
                log("flatten", self, handler_context)
                data["h"] = n
                return data

            def restore(self, data, *, handler_context=None):
                log("restore", self, handler_context)
                return Restored(n, data)

    else:

        class Hd(H.BaseHandler):
            def flatten(self, obj, data, **options):
                log("flatten", self, options.get("handler_context", none))
                data["h"] = n
                return data

            def restore(self, data, **options):
                log("restore", self, options.get("handler_context", none))
                return Restored(n, data)

    accepts = kind in ("kw", "pos", "kwonly")
    if kind == "default":
        accepts = "default"
    if r.random() < 0.3:
        Hd = Hd(None)
    return Hd, accepts, none


class Restored:
    def __init__(self, n, data):
        self.n = n
        self.data = data


def name(c):
    return f"{c.__module__}.{c.__qualname__}"


class Model:
    def __init__(self, reg):
        self.exact, self.base = {}, {}
        self.reg = reg

    def get(self, c):
        if c in self.exact:
            return self.exact[c]
        for b, h in self.base.items():
            if issubclass(c, b):
                return h
        return None


def history(r, mon, reg, m, classes, handlers, steps):
    done = []
    for _ in range(steps):
        k = r.choice(("register", "register", "base", "base", "unregister", "decorator", "bad", "handles"))
        c = r.choice(classes)
        h = r.choice(handlers)
        if k in ("register", "base"):
            got = reg.register(c, h[0], base=k == "base") if r.random() < 0.5 or k == "base" else reg.register(c, handler=h[0])
            check(got is None, "register returned something", got=got)
        elif k == "handles":
            if reg is not H or not isinstance(h[0], type):
                continue
            check(h[0].handles(c) is c, "handles() did not return the class")
            k = "register"
            mon.event("handles")
        elif k == "decorator":
            base = r.random() < 0.5
            got = reg.register(c, base=base)(h[0])
            check(got is h[0], "the decorator did not return the handler", got=got)
            k = "base" if base else "register"
        elif k == "unregister":
            reg.unregister(c)
            m.exact.pop(c, None)
            m.base.pop(c, None)
            mon.event("unregistered")
        else:
            for bad in ("not a type", 3, None, instance(c)):
                try:
                    reg.register(bad, h[0])
                except TypeError:
                    mon.event("rejected")
                else:
                    check(False, "register accepted something that is not a class", value=bad)
        if k in ("register", "base"):
            m.exact[c] = h
            if k == "base":
                m.base[c] = h
        done.append((k, c.__name__, handlers.index(h)))
        for c in classes:
            want = m.get(c)
            got = reg.get(c)
            check(got is (want and want[0]), f"get({c.__name__}) found the wrong handler", history=done, want=want, got=got)
            got = reg.get(c, 7)
            check(got is (want[0] if want else 7) or got == 7 and not want, f"get({c.__name__}, default) is wrong", got=got)
            w = m.exact.get(c)
            got = reg.get(name(c))
            check(got is (w and w[0]), f"get({name(c)!r}) found the wrong handler", history=done, got=got)
            mon.event("lookups", 3)
            if want and c not in m.exact:
                mon.event("base_matches")
    return done


def registry(r, mon):
    """An own registry against the model."""
    handlers = [make_handler(r, i) for i in range(4)]
    reg = H.Registry()
    m = Model(reg)
    done = history(r, mon, reg, m, CLASSES, handlers, r.randrange(3, 25))
    mon.sig("registry", tuple(done))


def user_handlers():
    """Library handlers in place for our classes before the case."""
    return {c: H.get(c) for c in CLASSES}


def dispatch(r, mon):
    """The global registry, seen from encode and decode."""
    handlers = [make_handler(r, i) for i in range(4)]
    m = Model(H.registry)
    check(not any(user_handlers().values()), "leftover handlers")
    try:
        done = history(r, mon, H, m, CLASSES, handlers, r.randrange(1, 8))
        if r.random() < 0.2:
            c = r.choice((A, Other))
            hc = handlers[0][0] if isinstance(handlers[0][0], type) else type(handlers[0][0])
            check(hc.handles(c) is c, "handles() did not return the class")
            check(H.get(c) is hc, "handles() did not register")
            H.unregister(c)
            m.exact.pop(c, None)
            m.base.pop(c, None)
        LIVE.clear()
        for c in CLASSES:
            LIVE[c] = m.get(c)
        for c in r.sample(CLASSES, 6):
            one(r, mon, m, c, done)
        mon.sig("dispatch", tuple(done))
    finally:
        for c in CLASSES:
            H.unregister(c)
        LIVE.clear()


def one(r, mon, m, c, done):
    want = m.get(c)
    o = instance(c)
    shared = r.random() < 0.4
    v = [[0], o, {"again": o}] if shared else o
    ctx = r.choice((None, None, {"x": 1}, "ctx"))
    kw = {} if ctx is None else {"handler_context": ctx}
    unpicklable = r.random() < 0.8
    del LOG[:]
    j = encode(mon, v, unpicklable=unpicklable, **kw)
    n = 1 if want is not None else 0
    calls = list(LOG)
    if shared and not unpicklable:
        check(n <= len(calls) <= 2 * n, f"{len(calls)} handler calls for {c.__name__}", history=done)
        calls = calls[:n]
    check(len(calls) == n, f"{len(calls)} handler calls instead of {n} while encoding {c.__name__}", history=done, document=j)
    for i, what, context, seen in calls:
        check((i, what) == (m_index(want), "flatten"), f"the wrong handler was called for {c.__name__}", history=done, got=(i, what), want=m_index(want))
        check(isinstance(context, Pickler), "the handler's context is not the Pickler", got=context)
        _ctx(mon, want, seen, ctx)
        mon.event("flattens_observed")
    data = json.loads(j)
    data = data[1] if shared else data
    if n:
        tag = {"py/object": name(c)} if unpicklable else {}
        check(data == {**tag, "h": m_index(want)}, "the handler's output is not what was written", got=data, handler=m_index(want))
    if not unpicklable:
        return
    del LOG[:]
    d = decode(mon, j, **kw)
    check(len(LOG) == n, f"{len(LOG)} handler calls instead of {n} while decoding {c.__name__}", history=done, document=j)
    if n:
        x = d[1] if shared else d
        i, what, context, seen = LOG[0]
        check((i, what) == (m_index(want), "restore"), f"the wrong handler was called to restore {c.__name__}", history=done, got=(i, what))
        check(isinstance(context, Unpickler), "the handler's context is not the Unpickler", got=context)
        _ctx(mon, want, seen, ctx)
        check(type(x) is Restored and x.n == i and x.data["h"] == i, "the handler's object was not used", got=x)
        if shared:
            check(d[2]["again"] is x, "sharing of a handled object was lost", document=j)
            mon.event("shared_handled")
        mon.event("restores_observed")
    else:
        x = d[1] if shared else d
        check(type(x) is c, f"{c.__name__} without handler came back as {type(x).__name__}", document=j)


def m_index(h):
    h = h[0] if isinstance(h[0], type) else type(h[0])
    code = h.flatten
    return dict(zip(code.__code__.co_freevars, (c.cell_contents for c in code.__closure__)))["n"]


def _ctx(mon, want, seen, ctx):
    h, accepts, none = want
    if accepts == "default" and ctx is None:
        check(seen == "own default", "the handler's own default was overruled", got=seen)
    elif accepts:
        check(seen == ctx, "the handler did not get the handler_context of the call", want=ctx, got=seen)
        mon.event("contexts_passed", ctx is not None)
    else:
        check(seen is none, "handler_context was passed to a handler that does not take it", got=seen)
        mon.event("contexts_withheld", ctx is not None)


class Local:
    pass


def special(r, mon):
    """Handlers that return text, null or plain data; classes that cannot be imported; keys; nesting."""

    class Hidden:
        def __init__(self, v):
            self.v = v

    class Hd(H.BaseHandler):
        def flatten(self, obj, data):
            data["v"] = self.context.flatten(obj.v, reset=False)
            return data

        def restore(self, data):
            return Hidden(self.context.restore(data["v"], reset=False))

    class Text(H.BaseHandler):
        def flatten(self, obj, data):
            return out

        def restore(self, data):
            raise AssertionError("restore called for plain data")

    out = r.choice((None, "text", 5, [1, 2], {"a": 1}))
    shared = [r.randrange(9)]
    H.register(Hidden, Hd)
    H.register(Local, Text)
    try:
        inner = Hidden([shared])
        loc = Local()
        v = r.choice((lambda: [shared, inner, loc, shared], lambda: {"s": shared, "i": inner, "l": loc, "t": shared}, lambda: [shared, Hidden([inner, inner, shared]), loc, shared]))()
        j = encode(mon, v)
        d = decode(mon, j)
        vals = list(d.values()) if isinstance(d, dict) else d
        check(vals[0] is vals[3] and vals[0] == shared, "sharing around handlers was lost", document=j)
        check(vals[2] == out and type(vals[2]) is type(out), "the handler's plain output changed", want=out, got=vals[2])
        h = vals[1]
        check(type(h) is Hidden, "a class that cannot be imported was not restored by its handler", got=h)
        if type(h.v[0]) is Hidden:
            check(h.v[0] is h.v[1] and h.v[2] is vals[0], "sharing inside handlers was lost", document=j)
            h = h.v[0]
        check(h.v[0] is vals[0], "an object shared with a handled one was duplicated", document=j)
        mon.event("nulls", out is None)
        mon.event("shared_handled")
        mon.sig("special", str(out), j[:80])
    finally:
        H.unregister(Hidden)
        H.unregister(Local)


class Anything(H.BaseHandler):
    results = []

    def flatten(self, obj, data):
        data["n"] = obj.v
        return data

    def restore(self, data):
        return self.results[data["n"]]


class Falsy:
    def __bool__(self):
        return False


class Unequal:
    def __eq__(self, o):
        raise AssertionError("compared")

    __hash__ = None


def results(r, mon):
    """Whatever restore returns is the object, and the same one at every reference."""
    pool = (None, False, 0, 0.0, "", b"", (), [], {}, set(), Falsy(), Unequal(), "text", Other(), Other, 5, A(3), [1], {"py/object": "x"}, object(), len)
    Anything.results = [r.choice(pool) for _ in range(r.randrange(1, 5))]
    objs = [Other(i) for i in range(len(Anything.results))]
    tail = [9]
    seq = [r.choice(objs) for _ in range(r.randrange(1, 7))]
    form = r.randrange(4)
    H.register(Other, Anything)
    try:
        v = [*seq, tail, tail] if form == 0 else {str(i): x for i, x in enumerate([*seq, tail, tail])} if form == 1 else A([*seq, tail, tail]) if form == 2 else (*seq, tail, tail)
        j = encode(mon, v)
        d = decode(mon, j)
        one_ = decode(mon, encode(mon, seq[0]))
    finally:
        H.unregister(Other)
    got = list(d.values()) if form == 1 else d.v if form == 2 else d
    want = [Anything.results[o.v] for o in seq]
    check(len(got) == len(want) + 2, "items were lost", document=j, got=got)
    for i, (x, y) in enumerate(zip(want, got)):
        check(x is y, f"item {i} is not what the handler returned", want=x, got=y, document=j)
    check(got[-1] is got[-2] and got[-1] == [9], "a reference after handled objects is wrong", document=j, got=got[-2:])
    check(one_ is want[0], "a handled root is not what the handler returned", want=want[0], got=one_)
    mon.event("odd_results", len(want))
    mon.sig("results", form, tuple(type(x).__name__ for x in want))


class Looped:
    def __init__(self, v):
        self.v = v


class LoopHandler(H.BaseHandler):
    log = []

    def flatten(self, obj, data):
        self.log.append(("flatten", id(obj)))
        data["v"] = self.context.flatten(obj.v, reset=False)
        return data

    def restore(self, data):
        out = Looped(self.context.restore(data["v"], reset=False))
        self.log.append(("restore", id(out)))
        return out


def loops(r, mon):
    """Handled objects whose data leads back to them."""
    objs = [r.choice((lambda: Looped([]), lambda: Looped({}), lambda: Looped(A([])), list, dict, lambda: A([]), lambda: Looped([[]])))() for _ in range(r.randrange(1, 7))]
    for o in objs:
        for i in range(r.randrange(1, 4)):
            t = r.choice(objs)
            t = r.choice((t, t, t, [t], {"k": t}, (1, [t])))
            o = o.v if isinstance(o, Looped) else o
            o = o.v if isinstance(o, A) else o
            if isinstance(o, dict):
                o[f"k{i}"] = t
            else:
                o.insert(r.randrange(len(o) + 1), t)
    v = r.choice((objs, objs[0], {"a": objs[0], "b": objs}, [[1], objs[-1], *objs]))
    H.register(Looped, LoopHandler)
    LoopHandler.log.clear()
    try:
        j = encode(mon, v)
        d = decode(mon, j)
    finally:
        H.unregister(Looped)
    compare(mon, v, d, j)
    found = {id(o) for o in objs if isinstance(o, Looped)}
    flat = [i for what, i in LoopHandler.log if what == "flatten"]
    back = [i for what, i in LoopHandler.log if what == "restore"]
    check(len(set(flat)) == len(flat) == len(back), "a handler was not called once per object", flattened=len(flat), restored=len(back), document=j)
    check(set(flat) <= found, "a handler was called for another object")
    mon.event("loops", bool(flat))
    mon.sig("loops", iso.shape(v))


def same_names(r, mon):
    """Classes of one name with handlers of their own."""
    classes = [type("Same", (r.choice((object, dict, list)),), {"__module__": "vpsame"}) for _ in range(r.randrange(2, 5))]
    live = {}

    def handler(cls, n):
        class Named(H.BaseHandler):
            def flatten(self, obj, data):
                check(type(obj) is cls, "called for an object of another class of that name")
                data["n"] = n
                return data

        return Named

    try:
        for n in range(r.randrange(2, 8)):
            cls = r.choice(classes)
            if r.random() < 0.7:
                H.register(cls, handler(cls, n), base=r.random() < 0.3)
                live[cls] = n
            else:
                H.unregister(cls)
                live.pop(cls, None)
            objs = [c() for c in live]
            r.shuffle(objs)
            got = json.loads(encode(mon, objs))
            check([x.get("n") for x in got] == [live[type(o)] for o in objs], "not the handlers of these classes", got=got)
            mon.event("same_names", len(live) > 1)
    finally:
        for cls in classes:
            H.unregister(cls)
    mon.sig("same_names", len(classes), n, sorted(live.values()))


SCENARIOS = [
    Scenario("same_names", same_names, 3000),
    Scenario("loops", loops, 4000),
    Scenario("results", results, 2000),
    Scenario("registry", registry, 3000),
    Scenario("dispatch", dispatch, 6000),
    Scenario("special", special, 2000),
]
