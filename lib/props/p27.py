"""P27: with fail_safe, each failing object is replaced and nothing else changes."""

import asyncio
import random

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode
from core import Scenario, check
from props import p36

RULE = (
    "Random graphs containing objects that fail while being encoded, in __getstate__, __reduce__, __getnewargs__, an iterator, a custom "
    "handler or a nested call, before or after parts of them were encoded; a twin graph built from the same choices has the fail_safe "
    "result in their places. The document must equal the twin's, fail_safe must be called once per failing occurrence with the very "
    "exception, and exceptions meant to end the program must pass through. Distinct by failures and shape."
)
REQUIRED = ("documents", "failures", "same_text", "nodes_compared", "after_parts", "replaced_by_objects", "passed_through", "no_fail_safe", "shared_failures", "injected", "failing_fail_safe", "failing_replacements")


class Boom(Exception):
    pass


class FailState:
    def __getstate__(self):
        raise self.err

    def __setstate__(self, s):
        raise AssertionError


class FailReduce:
    def __reduce_ex__(self, protocol):
        raise self.err


class FailNewArgs:
    def __getnewargs__(self):
        raise self.err


class FailAfterArgs:
    """Fails after its arguments were encoded."""

    def __getnewargs__(self):
        return tuple(self.parts)

    def __getstate__(self):
        raise self.err

    def __setstate__(self, s):
        raise AssertionError


class FailIter:
    """An iterator that fails after some items."""

    __slots__ = ("err", "parts", "n")

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.parts):
            raise self.err
        self.n += 1
        return self.parts[self.n - 1]


class FailSeq(list):
    """A sequence that fails in the middle of the iteration."""

    def __iter__(self):
        yield from self.parts
        raise self.err


class FailItems(dict):
    def items(self):
        yield from ((f"k{i}", p) for i, p in enumerate(self.parts))
        raise self.err


class FailHandled:
    pass


class FailHandler(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data):
        data["parts"] = [self.context.flatten(p, reset=False) for p in obj.parts]
        raise obj.err

    def restore(self, data):
        raise AssertionError


FAILING = (FailState, FailReduce, FailNewArgs, FailAfterArgs, FailIter, FailSeq, FailItems, FailHandled)
ERRORS = (Boom, ValueError, KeyError, RuntimeError, OSError, AssertionError, ZeroDivisionError, RecursionError, LookupError, NotImplementedError, UnicodeError, StopAsyncIteration, MemoryError, EOFError)


class Stop(BaseException):
    pass


STOPS = (KeyboardInterrupt, SystemExit, asyncio.CancelledError, GeneratorExit, Stop)


def k_fail(g, depth):
    r = g.r
    cls = r.choice(g.failing)
    parts = [g.value(min(depth, 1)) for _ in range(r.randrange(0, 3))]
    err = r.choice(ERRORS)(len(g.errors))
    value = g.replacement(r)
    if g.twin:
        # a value of its own for each occurrence
        o = value
    else:
        o = cls.__new__(cls)
        if cls is FailIter:
            o.n = 0
        o.err, o.parts = err, parts
    g.errors.append((err, value, o))
    if parts and cls not in (FailState, FailReduce, FailNewArgs):
        g.after += 1
    return o


def replacement_none(r):
    return None


def replacement_text(r):
    return "failed: " + gen.rstr(r)


def replacement_object(r):
    o = F.Plain()
    o.why = [gen.rint(r)]
    return o


def replacement_list(r):
    return [gen.rint(r), {}]


def build(seed, twin, kw):
    r = random.Random(seed)
    while True:
        simple = kw.get("unpicklable") is False or kw.get("make_refs") is False
        g = gen.Graph(r, share=0 if simple else 0.3, cycles=not simple, budget=r.choice((4, 10, 25)), kinds=["fail"] * 2 + ["list", "dict", "plain", "tuple", "node", "slots", "listsub", "dictsub", "getset", "dataclass"], stdlib=False)
        g.twin, g.errors, g.after = twin, [], 0
        # __reduce__ is not used for simple JSON
        g.failing = [c for c in FAILING if c is not FailReduce or kw.get("unpicklable", True)]
        if simple:
            g.kinds.remove("node")  # cycles become repr() text
        g.replacement = r.choice((replacement_none, replacement_text, replacement_object, replacement_list))
        x = [g.make(4), g.value(1)]
        if any(gen.in_cycle(v) for v in g.by_args):
            continue
        return x, g


MODES = ({}, {}, {}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}, {"warn": True})


def graphs(r, mon):
    kw = r.choice(MODES)
    seed = r.getrandbits(60)
    x, g = build(seed, False, kw)
    twin, g2 = build(seed, True, kw)
    check(len(g.errors) == len(g2.errors), "generator: the twin differs")
    by_err = {id(e): v for e, v, _ in g.errors}
    calls = []

    def fail_safe(e):
        calls.append(e)
        check(id(e) in by_err, f"fail_safe was called with {e!r}, which no object raised")
        return by_err[id(e)]

    jsonpickle.handlers.register(FailHandled, FailHandler)
    try:
        j = encode(mon, x, fail_safe=fail_safe, **kw)
        want = encode(mon, twin, **kw)
    finally:
        jsonpickle.handlers.unregister(FailHandled)
    check(j == want, "a failing object changed more than its own place", document=j, expected=want, mode=kw)
    # parts of a failing object can be met again elsewhere
    check(g.after or len({id(e) for e in calls}) == len(calls), "fail_safe was called twice for one failure", calls=calls)
    mon.event("same_text")
    mon.event("documents")
    mon.event("failures", len(calls))
    if g.after:
        mon.event("after_parts", g.after)
    if calls and isinstance(by_err[id(calls[0])], F.Plain):
        mon.event("replaced_by_objects")
    if kw.get("unpicklable", True) and kw.get("make_refs", True):
        compare(mon, twin, decode(mon, j, **({"keys": True} if kw.get("keys") else {})), j)
    mon.sig(str(kw), tuple(type(o).__name__ for _, _, o in g.errors), iso.shape(twin, 30))


def shared(r, mon):
    """An object that fails each time it is met."""
    o = object.__new__(r.choice((FailState, FailReduce, FailNewArgs, FailAfterArgs)))
    after = [gen.rint(r)]
    o.err, o.parts = Boom(), [after]
    n = r.randrange(2, 5)
    x = [after, *[o] * n, after] if r.random() < 0.5 else [*[o] * n, after, after]
    calls = []

    def fail_safe(e):
        calls.append(e)
        return {"n": 1}

    got = decode(mon, encode(mon, x, fail_safe=fail_safe))
    check(calls and all(e is o.err for e in calls), "fail_safe calls", calls=calls)
    want = [{"n": 1} if v is o else v for v in x]
    check(got == want, "failing objects were not replaced everywhere", got=got)
    rest = [v for v in got if type(v) is list]
    check(rest[0] is rest[1], "references around failing objects are off", got=got)
    mon.event("shared_failures")
    mon.sig("shared", type(o).__name__, n, len(x))


def passing(r, mon):
    """No fail_safe: the error itself; those that end the program or a task, always."""
    inner = object.__new__(r.choice((FailState, FailReduce, FailNewArgs)))
    inner.parts = []
    x = inner
    for _ in range(r.randrange(0, 6)):
        x = r.choice((lambda v: [v], lambda v: {"a": v}, lambda v: (1, v), lambda v: F.DC(v)))(x)
    stop = r.random() < 0.5
    inner.err = r.choice(STOPS)() if stop else r.choice(ERRORS)()
    calls = []
    kw = {"fail_safe": calls.append} if stop and r.random() < 0.7 else {}
    try:
        encode(mon, x, **kw)
        check(False, f"{inner.err!r} was swallowed")
    except BaseException as e:
        if e is not inner.err:
            raise
    check(not calls, "fail_safe was asked about the end of the program")
    mon.event("passed_through" if stop else "no_fail_safe")
    compare(mon, [1, {"a": [2]}], decode(mon, encode(mon, [1, {"a": [2]}])))
    mon.sig("passing", type(inner).__name__, type(inner.err).__name__, repr(type(x)))


class Shows:
    """An object with a property that can fail."""

    def __init__(self, v):
        self.v = v

    @property
    def shown(self):
        p36.ENC.hit("property")
        return 1


class Steps:
    """An iterator that can fail."""

    def __init__(self, parts):
        self.parts, self.n = parts, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n == len(self.parts):
            raise StopIteration
        self.n += 1
        p36.ENC.hit("next")
        return self.parts[self.n - 1]


class Maker(p36.Maker):
    def fault(self, d):
        k = self.r.random()
        if k < 0.1:
            return Shows(self.value(d))
        if k < 0.2 and self.iters:
            return Steps(self.some(d))
        return super().fault(d)


def injected(r, mon):
    """User code that fails at any point of an encoding without fail_safe."""
    kw = dict(r.choice((*MODES, {"include_properties": True}, {"include_properties": True, "unpicklable": False}, {"numeric_keys": True}, {"max_depth": 100})))
    seed = r.getrandbits(60)

    def make():
        m = Maker(random.Random(seed), kw.get("keys", False), True)
        # the parents of a ChainMap have parents, without end
        m.chains = "include_properties" not in kw
        return [m.value(5), m.value(4)]

    plan = p36.ENC
    p36.DEC.idle()
    jsonpickle.handlers.register(p36.Handled, p36.Handler)
    try:
        x = make()
        plan.start()
        whole = encode(mon, x, **kw)
        calls = plan.n
        plan.idle()
        if not calls:
            return
        x = make()
        plan.start(r.randrange(calls), r.choice(STOPS if r.random() < 0.1 else p36.ERRORS)(r.randrange(99)))
        stop = not isinstance(plan.error, Exception)
        if stop and r.random() < 0.6:
            kw["fail_safe"] = str
        try:
            j = encode(mon, x, **kw)
            plan.on = False
            check(plan.raised is None, f"{plan.raised!r} raised in {plan.where} was swallowed", document=j, options=kw, whole=whole)
            check(False, "an encoding ran less user code than the one before", document=j, whole=whole)
        except BaseException as e:
            plan.on = False
            if e is not plan.raised:
                raise
        check(plan.n == plan.at + 1, f"user code ran after {plan.raised!r} raised in {plan.where}", whole=whole)
        mon.event("injected")
        mon.event("reached:" + plan.where)
        mon.event("passed_through" if stop else "no_fail_safe")
        mon.sig("injected", plan.where, type(plan.raised).__name__, str(kw), iso.shape(x, 40))
    finally:
        plan.idle()
        jsonpickle.handlers.unregister(p36.Handled)


gen.KINDS["fail"] = k_fail
def callbacks(r, mon):
    """fail_safe functions that fail, or return objects that do."""
    depth, parts = r.randrange(0, 5), [[gen.rint(r)]]

    def fail():
        o = object.__new__(r.choice((FailState, FailReduce, FailNewArgs, FailAfterArgs)))
        o.err, o.parts = Boom(), parts
        return o

    o, n = fail(), r.randrange(1, 4)
    x = o
    for _ in range(depth):
        x = r.choice((lambda v: [parts, v, parts], lambda v: {"a": v, "p": parts}, lambda v: (parts, v), lambda v: F.DC(v, parts)))(x)
    calls = []
    if r.random() < 0.5:

        def fail_safe(e):
            calls.append(e)
            raise LookupError(len(calls))

        try:
            j = encode(mon, x, fail_safe=fail_safe)
            check(False, "the error raised by fail_safe was swallowed", document=j)
        except LookupError as e:
            check(e.args == (len(calls),), "another error than the last one of fail_safe", got=e)
        mon.event("failing_fail_safe")
    else:
        replaced = []

        def fail_safe(e):
            calls.append(e)
            replaced.append(fail() if len(calls) < n else {"n": [1]})
            return replaced[-1]

        got = decode(mon, encode(mon, [x, parts], fail_safe=fail_safe))
        check(calls == [v.err for v in (o, *replaced[:-1])] and len(calls) == n, "fail_safe calls", calls=calls)
        check(got[1] == parts, "references around failing objects are off", got=got)
        v, w = x, got[0]
        while v is not o:
            if type(v) is dict:
                check(w["p"] is got[1], "references around failing objects are off", got=got)
                v, w = v["a"], w["a"]
            elif type(v) is F.DC:
                check(w.b is got[1], "references around failing objects are off", got=got)
                v, w = v.a, w.a
            else:
                check(w[0] is got[1] and w[-1] is got[1] or type(v) is tuple and w[0] is got[1], "references around failing objects are off", got=got)
                v, w = v[1], w[1]
        check(w == {"n": [1]}, "the failing object was not replaced", got=got)
        mon.event("failing_replacements")
    compare(mon, [1, {"a": [2]}], decode(mon, encode(mon, [1, {"a": [2]}])))
    mon.sig("callbacks", type(o).__name__, type(x).__name__, depth, n, len(calls))


SCENARIOS = [Scenario("callbacks", callbacks, 2000), Scenario("injected", injected, 12000), Scenario("graphs", graphs, 14000), Scenario("huge", gen.huge(graphs), 16, 200), Scenario("shared", shared, 1500), Scenario("passing", passing, 2000)]
