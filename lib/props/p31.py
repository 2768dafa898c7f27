"""P31: all ways to call jsonpickle give the same result."""

import decimal
import json
import random
import re

import gen
import iso
import jsonpickle
import jsonpickle.errors
import jsonpickle.pickler
import jsonpickle.unpickler
import vpfix as F
from api import compare, decode, encode, rand_format, warnings_seen
from core import Scenario, check
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random graphs and options, encoded through encode, dumps, the pickler module, a Pickler (fresh, used before, given as context) with "
    "the backend, and with positional arguments; decoded through decode, loads, the unpickler module, an Unpickler (fresh, used, given "
    "as context) from parsed data. Texts must be equal and graphs the same; a Pickler's tree must be plain JSON data. Distinct by "
    "options and shape."
)
REQUIRED = ("calls_by_position", "documents", "texts_compared", "nodes_compared", "trees_checked", "used_contexts", "positional", "references_written", "contexts_used", "contexts_told")

PLAIN = (dict, list, str, int, float, bool, type(None))


def plain_tree(f):
    """Only JSON data, with text keys."""
    stack, n = [f], 0
    while stack:
        v = stack.pop()
        n += 1
        check(type(v) in PLAIN, f"flatten left a {type(v).__name__} in its result", value=v)
        if type(v) is dict:
            for k in v:
                check(type(k) is str, f"flatten left a key of type {type(k).__name__}", key=k)
            stack.extend(v.values())
        elif type(v) is list:
            stack.extend(v)
    return n


def options(r):
    kw = {}
    k = r.random()
    if k < 0.15:
        kw["unpicklable"] = False
    elif k < 0.25:
        kw["make_refs"] = False
    if r.random() < 0.3:
        kw["keys"] = True
    if r.random() < 0.2:
        kw["max_depth"] = r.choice((0, 1, 2, 5, 50))
    if r.random() < 0.2:
        kw["max_iter"] = r.choice((0, 1, 5))
    if r.random() < 0.3:
        kw["use_base85"] = True
    return kw


KINDS = ["list", "dict", "tuple", "plain", "slots", "dataclass", "namedtuple", "listsub", "dictsub", "ordered", "default", "deque", "userdict", "exception", "partial", "getset", "reduce", "plainargs", "valueobj", "private"]


def graphs(r, mon):
    kw = options(r)
    full = not {"unpicklable", "make_refs", "max_depth", "max_iter"} & set(kw)
    g = gen.Graph(r, share=0.3 if full else 0, cycles=full, budget=r.choice((4, 10, 25)), kinds=KINDS + (["node"] if full else []), stdlib=False)
    x = g.make(3)
    fmt = {k: v for k, v in rand_format(r).items() if k != "use_base85"}
    j = encode(mon, x, **kw, **fmt)
    check(jsonpickle.dumps(x, **kw, **fmt) == j, "dumps and encode differ", document=j)
    check(jsonpickle.pickler.encode(x, **kw, **fmt) == j, "pickler.encode and encode differ", document=j)
    p = Pickler(**kw)
    f = p.flatten(x)
    mon.event("trees_checked", plain_tree(f))
    check(jsonpickle.backend.json.encode(f, indent=fmt.get("indent"), separators=fmt.get("separators")) == j, "a Pickler's tree gives another text than encode", document=j)
    # the same Pickler again, and as context
    if r.random() < 0.5:
        p.flatten([1, F.DC(2), {"a": ()}])
    check(encode(mon, x, context=p, **fmt) == j, "encode with a used Pickler as context gives another text", document=j, options=kw)
    f2 = p.flatten(x)
    check(json.dumps(f2) == json.dumps(f), "a used Pickler gives another tree")
    mon.event("used_contexts", 2)
    order = ("unpicklable", "make_refs", "keys", "max_depth")
    defaults = (True, True, False, None)
    if set(kw) <= set(order):
        args = [kw.get(n, d) for n, d in zip(order, defaults)]
        check(jsonpickle.encode(x, *args, **fmt) == j, "positional arguments mean something else", document=j, args=args)
        mon.event("positional")
    mon.event("texts_compared", 6)
    mon.event("documents")
    if full:
        dkw = {"keys": True} if kw.get("keys") else {}
        order = {"order": not dkw}
        compare(mon, x, jsonpickle.loads(j, **dkw), j, **order)
        compare(mon, x, jsonpickle.unpickler.decode(j, **dkw), j, **order)
        u = Unpickler(**dkw)
        compare(mon, x, u.restore(f), j, **order)
        check(json.dumps(f) == json.dumps(f2), "restore changed the tree it was given")
        if r.random() < 0.5:
            u.restore(json.loads(jsonpickle.encode([F.DC([1]), {"b": ({},)}])))
        compare(mon, x, decode(mon, j, context=u, **dkw), j, **order)
        compare(mon, x, u.restore(json.loads(j)), j, **order)
        mon.event("used_contexts", 2)
    mon.sig(tuple(sorted(kw)), tuple(sorted(fmt)), iso.shape(x, 25))


class Bomb:
    def __getstate__(self):
        raise ZeroDivisionError


class Told:
    """Encoded by a handler that is told something."""


class Teller(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        data["told"] = handler_context
        data["rest"] = self.context.flatten(vars(obj), reset=False)
        return data

    def restore(self, data, handler_context=None):
        o = Told()
        o.__dict__.update(self.context.restore(data["rest"], reset=False), was=data["told"], now=handler_context)
        return o


def contexts(r, mon):
    """Contexts that failed before or carry a handler_context."""
    kw = options(r)
    full = not {"unpicklable", "make_refs", "max_depth", "max_iter"} & set(kw)
    g = gen.Graph(r, share=0.3 if full else 0, cycles=False, budget=r.choice((3, 8, 15)), kinds=["list", "dict", "tuple", "plainargs", "dataclass", "listsub", "slots"], stdlib=False)
    t = Told()
    t.v = g.value(2)
    x = [g.value(2), t, g.value(2)]
    told = r.choice((None, "ctx", 5))
    say = {"handler_context": told} if told is not None else {}
    used = r.choice(("fresh", "used", "failed", "failed deep"))
    where = r.choice(("constructor", "call"))
    dkw = {"keys": True} if kw.get("keys") else {}
    jsonpickle.handlers.register(Told, Teller)
    try:
        j = encode(mon, x, **kw, **say)
        at, here = (say, {}) if where == "constructor" else ({}, say)
        p = Pickler(**kw, **at)
        u = Unpickler(**dkw, **at)
        if used == "used":
            p.flatten(x)
            u.restore(json.loads(jsonpickle.encode([{"a": F.DC([1])}])))
        elif used != "fresh":
            bad = [x, Bomb()] if used == "failed" else {"a": [x, {"b": (1, [Bomb()])}]}
            try:
                p.flatten(bad)
            except ZeroDivisionError:
                pass
            try:
                u.restore([[], {"a": [[], {"py/reduce": [{"py/function": "math.sqrt"}, {"py/tuple": [-1]}]}]}])
            except ValueError:
                pass
        j2 = encode(mon, x, context=p, **here)
        check(j2 == j, f"encode with a {used} Pickler as context gives another text", document=j, got=j2, options=kw, told=told, where=where)
        j2 = encode(mon, x, context=p, **here)
        check(j2 == j, "the second encode with the same context gives another text", document=j, got=j2, options=kw, told=told, where=where)
        if full:
            for _ in range(2):
                got = decode(mon, j, context=u, **here)
                check(got[1].now == told and got[1].was == told, f"the handler was told {got[1].now!r}, not {told!r}", where=where)
                del got[1].now, got[1].was
                compare(mon, x, got, j, order=not dkw)
        mon.event("contexts_used")
        mon.event("contexts_told", told is not None)
    finally:
        jsonpickle.handlers.unregister(Told)
    mon.sig("context", used, where, told, tuple(sorted(kw)), iso.shape(x, 20))


# the parameters in the order in which they are documented
ENCODE = ("unpicklable", "make_refs", "keys", "max_depth", "reset", "backend", "warn", "context", "max_iter", "use_decimal", "numeric_keys", "use_base85", "fail_safe", "indent", "separators",
          "include_properties", "handle_readonly", "handler_context")  # fmt: skip
PICKLER = ("unpicklable", "make_refs", "max_depth", "backend", "keys", "warn", "max_iter", "numeric_keys", "use_decimal", "use_base85", "fail_safe", "include_properties", "handle_readonly",
           "original_object", "handler_context")  # fmt: skip
DECODE = ("backend", "context", "keys", "reset", "safe", "classes", "v1_decode", "on_missing", "handle_readonly", "handler_context")
UNPICKLER = ("backend", "keys", "safe", "v1_decode", "on_missing", "handle_readonly", "handler_context")
DEFAULTS = {"unpicklable": True, "make_refs": True, "keys": False, "reset": True, "warn": False, "use_decimal": False, "numeric_keys": False, "use_base85": False, "include_properties": False,
            "handle_readonly": False, "safe": True, "v1_decode": False, "on_missing": "ignore"}  # fmt: skip


class Own(jsonpickle.backend.JSONBackend):
    """A backend that leaves its mark."""

    def encode(self, obj, indent=None, separators=None):
        return "own " + json.dumps(obj, indent=indent, separators=separators)

    def decode(self, text):
        return json.loads(text.replace("MARK", "own"))


class Sees(jsonpickle.handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        return {"context": repr(handler_context)}

    def restore(self, data, handler_context=None):
        return ("context", repr(handler_context))


class Seen:
    pass


class Guarded:
    """Has a read-only attribute and a property."""

    def __init__(self):
        self.a = 1

    @property
    def prop(self):
        return 7


class Given:
    pass


VALUES = {
    "unpicklable": (True, False), "make_refs": (True, False), "keys": (True, False), "max_depth": (None, 1, 2, 9), "reset": (True, False), "warn": (True, False), "max_iter": (None, 0, 2),
    "use_decimal": (True, False), "numeric_keys": (True, False), "use_base85": (True, False), "fail_safe": (None, lambda e: "FAILED"), "indent": (None, 1), "separators": (None, (",", ":")),
    "include_properties": (True, False), "handle_readonly": (True, False), "handler_context": (None, "ctx"), "original_object": (None, 5), "safe": (True, False), "v1_decode": (True, False),
    "on_missing": ("ignore", "warn", "error"),
}  # fmt: skip


def sample(r, order):
    kw = {k: r.choice(VALUES[k]) for k in order if k in VALUES and r.random() < 0.3}
    if r.random() < 0.2:
        kw["backend"] = Own()
    return kw


def outcome(fn):
    with warnings_seen() as seen:
        try:
            res = ("returned", fn())
        except (Exception, jsonpickle.errors.ClassNotFoundError) as e:
            res = ("raised", type(e))
    return res, sorted(re.sub("0x[0-9a-f]+", "", str(w.message)) for w in seen)


def value(r):
    """Data that nearly every option has an effect on."""
    shared = [1]
    picks = [shared, shared, b"\xff", decimal.Decimal("1.5"), {1: 2, None: [3], "s": 1.5}, iter([4, 5, 6]), Guarded(), Seen(), F.DC((1, shared)), [[[[]]]], len, {2.5: {3}}]
    if r.random() < 0.3:
        picks.append(Bomb())
    if r.random() < 0.3:
        picks.append(lambda: 0)
    r.shuffle(picks)
    return picks[: r.randrange(1, len(picks))] if r.random() < 0.8 else picks[0]


def document(r):
    parts = ['{"json://{\\"py/tuple\\": [1]}": 1}', '{"py/repr": "decimal/decimal.Decimal(\'2\')"}', '{"py/object": "nosuch.Class", "a": 1}', '{"py/object": "nosuch.Given", "b": 2}', '"MARK"', '{"py/object": "props.p31.Seen"}',
             "[1, {}]", '{"py/id": 2}', '{"py/object": "props.p31.Guarded", "a": 3, "prop": 5}', '{"py/type": "nosuch.Given"}']  # fmt: skip
    return "[" + ", ".join(r.choice(parts) for _ in range(r.randrange(1, 6))) + "]"


def renew(x):
    return type(x)(keys=True) if isinstance(x, (Pickler, Unpickler)) else x


def positions(r, mon):
    """Arguments given by position mean the same as those given by name."""
    seed = r.random()
    jsonpickle.register(Seen, Sees)
    try:
        for order, call in ((ENCODE, jsonpickle.encode), (PICKLER, Pickler), (DECODE, jsonpickle.decode), (UNPICKLER, Unpickler)):
            kw = sample(r, order)
            if "classes" in order and r.random() < 0.5:
                kw["classes"] = r.choice(({"nosuch.Given": Given}, {"Given": Given}, Given, [Given], (Given, F.DC)))
            if "context" in order and r.random() < 0.2:
                kw["context"] = Pickler(keys=True) if order is ENCODE else Unpickler(keys=True)
            n = r.randrange(0, len(order) + 1)
            args = [kw.get(k, DEFAULTS.get(k)) for k in order[:n]]
            rest = {k: v for k, v in kw.items() if k not in order[:n]}
            if order in (ENCODE, PICKLER):
                make = lambda: value(random.Random(seed))  # noqa: E731
                run = (lambda *a, **k: call(make(), *a, **k)) if order is ENCODE else (lambda *a, **k: json.dumps(call(*a, **k).flatten(make())))
                shown = lambda x: re.sub("0x[0-9a-f]+", "", x)  # noqa: E731
            else:
                doc = document(random.Random(seed))
                run = (lambda *a, **k: call(doc, *a, **k)) if order is DECODE else (lambda *a, **k: call(*a, **k).restore(json.loads(doc)))
                shown = lambda x: repr(iso.shape(x)) + re.sub("0x[0-9a-f]+", "", repr(x))  # noqa: E731
            (how, a), wa = outcome(lambda: run(**{k: renew(v) for k, v in kw.items()}))
            (how2, b), wb = outcome(lambda: run(*map(renew, args), **{k: renew(v) for k, v in rest.items()}))
            if how == how2 == "returned":
                a, b = shown(a), shown(b)
            check((how, a, wa) == (how2, b, wb), f"{call.__name__}: arguments by position mean something else than by name", options=kw, positional=order[:n], by_name=(how, a, wa), by_position=(how2, b, wb))
            mon.event("calls_by_position")
            mon.event("calls_that_failed", how == "raised")
            mon.sig("pos", call.__name__, n, tuple(sorted(kw)))
    finally:
        jsonpickle.unregister(Seen)


SCENARIOS = [
    Scenario("positions", positions, 2500),Scenario("graphs", graphs, 10000), Scenario("huge", gen.huge(graphs), 16, 200), Scenario("contexts", contexts, 5000)]
