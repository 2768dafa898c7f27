"""P11: encoding leaves its argument alone; decoding builds fresh objects and leaves its input alone."""

import collections
import copy
import copyreg
import decimal
import enum
import functools
import gc
import ipaddress
import json
import os
import random
import sys
import warnings

import gen
import iso
import jsonpickle
import mkcls
import vpfix as F
from api import decode, encode, quiet
from core import Scenario, Violation, check
import jsonpickle.errors
from jsonpickle import handlers
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Every graph is built twice from one seed; one copy is encoded under random options (also ones that make encoding fail) and "
    "then compared with the untouched copy, attribute order and identities included. Documents are decoded twice and the two "
    "results scanned for common mutable objects; flattened data is compared with a copy taken before restoring it. Distinct by "
    "graph shape and options."
)
REQUIRED = ("odd_processes", "failed_decodes", "arguments_unchanged", "options_used", "failed_encodes", "fresh_results", "inputs_unchanged", "flat_unaliased", "state_unchanged")
ASSUMPTIONS = ["hooks of the encoded classes do not change their objects themselves", "iterators are consumed by encoding; that is their nature"]

IMMUTABLE = iso.ATOMS + iso.BY_IS + iso.VALUES + (float,)


def options(r):
    kw = {}
    for k, vals in (
        ("unpicklable", (False,)), ("make_refs", (False,)), ("keys", (True,)), ("max_depth", (0, 1, 2, 5)), ("max_iter", (0, 3)),
        ("warn", (True,)), ("numeric_keys", (True,)), ("use_decimal", (True,)), ("use_base85", (True,)), ("indent", (0, 2)),
        ("separators", ((",", ":"),)), ("include_properties", (True,)), ("handle_readonly", (True,)), ("fail_safe", (lambda e: "FAILED",)),
    ):  # fmt: skip
        if r.random() < 0.2:
            kw[k] = r.choice(vals)
    return kw


CACHING = (F.ComputedProps, ipaddress._BaseNetwork)


def layout(v):
    """Order of attributes and items of every object, in walking order."""
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, IMMUTABLE) or id(x) in seen:
            continue
        seen.add(id(x))
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            out.append((type(x).__name__, list(d)))
            stack.extend(d.values())
        if isinstance(x, dict):
            out.append([ascii(k) for k in dict.keys(x)])
            stack.extend(dict.values(x))
        elif isinstance(x, (list, tuple, collections.deque)):
            out.append(len(x))
            stack.extend(x)
        stack.extend(iso.slot_state(x).values())
    return out


def process_state():
    """Settings of the interpreter that belong to the program, not to the library."""
    return {
        "warning filters": list(warnings.filters), "showwarning": warnings.showwarning, "recursion limit": sys.getrecursionlimit(), "sys.path": list(sys.path), "environment": dict(os.environ),
        "garbage collection": (gc.isenabled(), gc.get_threshold()), "decimal context": repr(decimal.getcontext()), "copyreg": dict(copyreg.dispatch_table),
        "random": random.getstate(), "working directory": os.getcwd(), "streams": (sys.stdin, sys.stdout, sys.stderr), "switch interval": sys.getswitchinterval(),
        "json": (json.dumps, json.loads, json.JSONEncoder.default, json._default_encoder, json._default_decoder),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)), "tracing": (sys.gettrace(), sys.getprofile(), sys.excepthook),
    }  # fmt: skip


def odd_process(fn):
    """Some cases run in a process whose settings are not the default ones."""

    @functools.wraps(fn)
    def run(r, mon):
        if r.random() > 0.1:
            return fn(r, mon)
        limit, interval, context, threshold = sys.getrecursionlimit(), sys.getswitchinterval(), decimal.getcontext(), gc.get_threshold()
        try:
            if r.random() < 0.5:
                gc.disable()
            if r.random() < 0.5:
                gc.set_threshold(r.choice((0, 50, 1234)), 7, 3)
            if r.random() < 0.5:
                sys.setrecursionlimit(limit + r.randrange(1, 500))
            if r.random() < 0.5:
                sys.setswitchinterval(0.003)
            if r.random() < 0.5:
                decimal.setcontext(decimal.Context(prec=r.choice((5, 17, 50)), rounding=decimal.ROUND_UP, capitals=0))
            mon.event("odd_processes")
            fn(r, mon)
        finally:
            gc.enable()
            gc.set_threshold(*threshold)
            sys.setrecursionlimit(limit)
            sys.setswitchinterval(interval)
            decimal.setcontext(context)

    return run


class World:
    """Module-level state that no call may change."""

    def __init__(self):
        self.process = process_state()
        self.handlers = dict(handlers.registry._handlers)
        self.bases = dict(handlers.registry._base_handlers)
        b = jsonpickle.json
        self.backend = (list(b._backend_names), copy.deepcopy(b._encoder_options), copy.deepcopy(b._decoder_options))

    def check(self, mon):
        b = jsonpickle.json
        check(dict(handlers.registry._handlers) == self.handlers and dict(handlers.registry._base_handlers) == self.bases, "the handler registry changed")
        check((list(b._backend_names), b._encoder_options, b._decoder_options) == self.backend, "the backend configuration changed")
        now = process_state()
        changed = [k for k in now if now[k] != self.process[k]]
        check(not changed, f"a call changed settings of the process: {changed}", want={k: self.process[k] for k in changed}, got={k: now[k] for k in changed})
        mon.event("state_unchanged")


def unchanged(mon, a, twin, what):
    try:
        iso.same(twin, a, what=what)
    except Violation as e:
        e.detail["note"] = "the argument was modified (want = before, got = after)"
        raise
    check(layout(a) == layout(twin), "the order of attributes or items changed", want=layout(twin)[:20], got=layout(a)[:20])
    mon.event("arguments_unchanged")


class OwnState:
    """Hands out its own attributes instead of a copy."""

    _jsonpickle_exclude = ("hidden", "_h")

    def __getstate__(self):
        return self.__dict__

    def __setstate__(self, st):
        self.__dict__.update(st)


class OwnParts:
    """All its hooks hand out objects it keeps using."""

    def __init__(self, *args):
        self.args, self.kw, self.st = list(args), {}, {"a": [1], "b": None}

    def __new__(cls, *args, **kw):
        return object.__new__(cls)

    def __getnewargs_ex__(self):
        return self.args, self.kw

    def __getstate__(self):
        return self.st

    def __setstate__(self, st):
        self.args, self.kw, self.st = [], {}, st


class OwnReduce:
    def __init__(self, *args):
        self.parts = [OwnReduce, args, {"x": [1]}, None, None]

    def __reduce__(self):
        return tuple(self.parts)


class OwnProps(dict):
    """Excludes an item and an attribute."""

    _jsonpickle_exclude = {"hidden"}


@gen.kind
def k_own(g, d):
    k = g.r.randrange(4)
    if k == 0:
        o = g.attrs(g.keep(OwnState()), d)
        o.hidden, o._h = g.leaf(), [g.leaf()]
        return o
    if k == 1:
        o = g.keep(OwnParts(g.leaf()), mutable=False)
        o.st["c"] = g.leaf()
        return o
    if k == 2:
        return g.keep(OwnReduce(g.leaf()), mutable=False)
    o = g.keep(OwnProps(a=g.leaf(), hidden=g.leaf()), mutable=False)
    o.hidden, o.x = [1], g.leaf()
    return o


# hooks that count their calls change their objects
KINDS = sorted(set(gen.KINDS) - {"getstate_any", "exception"})


def build(seed, share, budget):
    r = random.Random(seed)
    g = gen.Graph(r, kinds=KINDS + ["own"] * 4, share=share, budget=budget)
    return g.make(4)


def encode_pure(r, mon):
    seed, share, budget = r.random(), r.choice((0.0, 0.2, 0.4)), r.choice((5, 15, 40))
    kw = options(r)
    if "make_refs" in kw:
        share = 0.0  # every path to a shared object would be written out
    a, twin = build(seed, share, budget), build(seed, share, budget)
    if ("include_properties" in kw or "handle_readonly" in kw) and any(isinstance(x, CACHING) for x in gen.reachable(a).values()):
        return  # reading properties fills the caches that these classes keep
    if "include_properties" in kw and any(type(x).__module__ not in ("builtins", "collections", "vpfix") for x in gen.reachable(a).values()):
        return  # properties such as those of networks and paths open endless trees of new objects
    with quiet():
        w = World()
        try:
            encode(mon, a, **kw)
        except Violation:
            raise
        except Exception:
            # some combinations cannot be written as JSON; the promise holds all the same
            mon.event("failed_encodes")
        w.check(mon)
    unchanged(mon, a, twin, f"argument after encode({sorted(kw)}):")
    mon.event("options_used", len(kw))
    mon.sig("enc", tuple(sorted(kw)), iso.shape(a, 60))


class Bomb:
    """Fails while being encoded."""

    def __getstate__(self):
        raise RuntimeError("no state today")


class LateBomb:
    """Fails after part of it was encoded."""

    def __getstate__(self):
        return {"before": [1], "x": Bomb()}


def failing(r, mon):
    seed = r.random()

    def build():
        q = random.Random(seed)
        g = gen.Graph(q, kinds=KINDS, share=0.2, budget=20)
        v = g.make(4)
        bomb = q.choice((Bomb, LateBomb))()
        if g.mutable:
            o = q.choice(g.mutable)
            if isinstance(o, (list, collections.deque, collections.UserList)):
                o.append(bomb)
            elif isinstance(o, (dict, collections.UserDict)):
                o["bomb"] = bomb
            elif hasattr(o, "__dict__"):
                o.__dict__["bomb"] = bomb
        return [v, bomb]

    a, twin = build(), build()
    kw = {k: v for k, v in options(r).items() if k not in ("fail_safe", "max_depth", "include_properties", "handle_readonly")}
    with quiet():
        try:
            encode(mon, a, **kw)
        except RuntimeError:
            mon.event("failed_encodes")
        except Exception:
            mon.event("failed_otherwise")
        else:
            raise Violation("the exception of a hook was swallowed", options=sorted(kw))
    unchanged(mon, a, twin, "argument after a failed encode:")
    mon.sig("fail", tuple(sorted(kw)), iso.shape(a, 60))


def mutable_parts(v):
    out, stack = {}, [v]
    while stack:
        x = stack.pop()
        if isinstance(x, IMMUTABLE) or id(x) in out or isinstance(x, enum.Enum):
            continue
        if not isinstance(x, (tuple, frozenset)) or hasattr(x, "__dict__"):
            out[id(x)] = x
        if isinstance(x, dict):
            stack.extend(dict.values(x))
        if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            stack.extend(x)
        if isinstance(getattr(x, "__dict__", None), dict):
            stack.extend(x.__dict__.values())
        stack.extend(iso.slot_state(x).values())
    return out


def fresh(r, mon):
    """Two decodes have nothing mutable in common, with each other or with the original."""
    g = gen.Graph(r, share=r.choice((0.0, 0.3)), budget=r.choice((5, 20, 40)))
    v = g.make(4)
    kw = {"keys": True} if r.random() < 0.3 else {}
    j = encode(mon, v, **kw)
    a, b = decode(mon, j, **kw), decode(mon, j, **kw)
    pv, pa, pb = mutable_parts(v), mutable_parts(a), mutable_parts(b)
    for x, y, what in ((pa, pb, "two decodes"), (pv, pa, "the original and the decoded graph")):
        common = [x[i] for i in x.keys() & y.keys()]
        check(not common, f"{what} share a mutable {type(common[0]).__name__ if common else ''}", shared=common[:1], document=j)
    mon.event("fresh_results", len(pa))
    mon.sig("fresh", iso.shape(v, 80))


class Refuses:
    def __setstate__(self, st):
        raise RuntimeError("no")


def missing(name):
    pass


ODD = (
    '{"py/object": "nosuch.Class", "a": [1]}', '[{"py/type": "nosuch.Class"}, [2]]', '{"py/object": "props.p11.Refuses", "py/state": {"a": 1}}', "{", "nul", '[{"py/id": 99}]',
    '{"py/reduce": [{"py/type": "nosuch.Class"}, {"py/tuple": []}]}', '{"py/b64": "*"}', '{"py/function": "nosuch.fn"}', '{"py/repr": "os/os.getcwd()"}', '{"py/mod": "nosuch/nosuch"}', '[[1], 2, {"a": null}]',
    '{"py/object": "vpfix.Plain", "py/initargs": {"py/tuple": [1, 2, 3, 4]}}', '{"py/object": "builtins.len", "a": 1}', '{"py/object": "decimal.Context", "py/reduce": 5}',
)  # fmt: skip


def settings(r, mon):
    """Decoding leaves the settings of the library and of the process alone, whatever happens."""
    v = gen.Graph(r, share=0.2, budget=r.choice((3, 10))).make(3)
    j = r.choice(ODD) if r.random() < 0.6 else jsonpickle.encode(v)
    kw = {}
    for k, vals in (
        ("keys", (True,)), ("safe", (True,)), ("classes", (F.Plain, {"nosuch.Class": F.Plain}, [F.DC], ())), ("v1_decode", (True,)), ("on_missing", ("warn", "error", "ignore", missing)),
        ("handle_readonly", (True,)), ("handler_context", ("x",)), ("context", (Unpickler(),)), ("backend", (jsonpickle.backend.json,)),
    ):  # fmt: skip
        if r.random() < 0.3:
            kw[k] = r.choice(vals)
    with quiet():
        given = copy.copy(kw.get("classes"))
        w = World()
        try:
            jsonpickle.decode(j, **kw)
        except (Exception, jsonpickle.errors.ClassNotFoundError):
            mon.event("failed_decodes")
        w.check(mon)
        check(kw.get("classes") == given, "decode changed the classes it was given", want=given, got=kw.get("classes"))
    mon.sig("settings", tuple(sorted(kw)), j[:60])


def containers(f):
    out, stack = {}, [f]
    while stack:
        x = stack.pop()
        if isinstance(x, (list, dict)) and id(x) not in out:
            out[id(x)] = x
            stack.extend(x.values() if isinstance(x, dict) else x)
    return out


def flat(r, mon):
    """flatten and restore: neither keeps a hold on the other side's objects."""
    g = gen.Graph(r, share=r.choice((0.0, 0.3)), budget=r.choice((5, 20, 40)))
    v = g.make(4)
    kw = {k: x for k, x in options(r).items() if k in ("keys", "make_refs", "use_base85", "max_depth", "unpicklable")}
    with quiet():
        f = Pickler(**kw).flatten(v)
    pv, pf = mutable_parts(v), containers(f)
    common = [pv[i] for i in pv.keys() & pf.keys()]
    check(not common, f"flattened data contains the original {type(common[0]).__name__ if common else ''}", shared=common[:1])
    mon.event("flat_unaliased")
    if "max_depth" in kw or "unpicklable" in kw or "make_refs" in kw:
        return
    before = copy.deepcopy(f)
    with quiet():
        d = Unpickler(keys=kw.get("keys", False)).restore(f)
        d2 = Unpickler(keys=kw.get("keys", False)).restore(f)
    check(_eq(f, before), "restore changed the flattened data", want=before, got=f)
    pd = mutable_parts(d)
    common = [pd[i] for i in pd.keys() & pf.keys()]
    check(not common, f"the restored graph contains the flattened {type(common[0]).__name__ if common else ''}", shared=common[:1])
    common = pd.keys() & mutable_parts(d2).keys()
    check(not common, "two restores share a mutable object")
    mon.event("inputs_unchanged")
    mon.sig("flat", tuple(sorted(kw)), iso.shape(v, 80))


def _eq(a, b):
    """Equality that tells 1, 1.0 and True apart and knows the order of keys."""
    stack = [(a, b)]
    while stack:
        x, y = stack.pop()
        if type(x) is not type(y):
            return False
        if isinstance(x, dict):
            if list(x) != list(y):
                return False
            stack.extend((x[k], y[k]) for k in x)
        elif isinstance(x, list):
            if len(x) != len(y):
                return False
            stack.extend(zip(x, y))
        elif isinstance(x, float):
            if iso.float_key(x) != iso.float_key(y):
                return False
        elif x is not y and x != y:
            return False
    return True


def made_classes(r, mon):
    seed = r.random()
    mkcls.reset()
    q = random.Random(seed)
    kinds = [mkcls.make(q) for _ in range(2)]
    mid = q.getstate()

    def build():
        q.setstate(mid)
        pool = []

        def value():
            if pool and q.random() < 0.3:
                return q.choice(pool)
            return gen.ratom(q) if q.random() < 0.8 else [gen.ratom(q)]

        for c in kinds * 2:
            pool.append(mkcls.fill(q, *c, value))
        return pool

    a, twin = build(), build()
    kw = options(r)
    with quiet():
        try:
            encode(mon, a if r.random() < 0.5 else a[-1], **kw)
        except Violation:
            raise
        except Exception:
            mon.event("failed_encodes")
    unchanged(mon, a, twin, f"argument after encode({sorted(kw)}):")
    mon.event("options_used", len(kw))
    mon.sig("made", tuple(sorted(kw)), tuple(c[0].__mro__[-2].__name__ for c in kinds))


def bytes_in(r, mon):
    """Documents given as text, bytes or with a reused context decode without touching what was passed."""
    v = gen.Graph(r, share=0.2, budget=20).make(4)
    j = encode(mon, v)
    ba = bytearray(j, "utf-8", "surrogatepass") if j.isascii() else None
    f = Pickler().flatten(v)
    before = copy.deepcopy(f)
    ctx = Unpickler()
    ctx.restore(f)
    ctx.restore(f)
    check(_eq(f, before), "restore changed the flattened data", want=before, got=f)
    if ba is not None:
        keep = bytes(ba)
        decode(mon, keep)
        check(bytes(ba) == keep, "decode changed its input")
    mon.event("inputs_unchanged")


def _sort_keys():
    """Finding: with sort_keys the encoder reorders the attributes of the root object."""
    class Null:
        def event(self, *a):
            pass

    o, twin = F.Plain(), F.Plain()
    for x in (o, twin):
        x.b, x.a = 1, 2
    jsonpickle.set_encoder_options("json", sort_keys=True)
    try:
        jsonpickle.encode(o)
    finally:
        jsonpickle.set_encoder_options("json")
    unchanged(Null(), o, twin, "argument")


SCENARIOS = [
    Scenario("encode_pure", odd_process(encode_pure), 16000),
    Scenario("huge", gen.huge(encode_pure), 16, 200),
    Scenario("failing", odd_process(failing), 4000),
    Scenario("fresh", fresh, 8000),
    Scenario("flat", flat, 8000),
    Scenario("settings", odd_process(settings), 4000),
    Scenario("made_classes", made_classes, 4000),
    Scenario("bytes_in", bytes_in, 2000),
]
FINDINGS = {"sort-keys-reorders-attributes": _sort_keys}
