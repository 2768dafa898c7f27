"""P32: calls leave nothing behind: no object, class, document or callback is kept alive."""

import enum
import gc
import sys
import types
import weakref

import gen
import iso
import jsonpickle
import jsonpickle.handlers
import mkcls
import vpfix as F
from api import quiet
from core import Scenario, check
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random graphs and randomly built classes are encoded and decoded, in all modes, successfully or failing at a random point, with "
    "callbacks, classes=, contexts and handlers; then every reference of the harness is dropped and the collector run. Weak "
    "references to every instance, class, handler and callback involved must be dead, and the containers reachable from jsonpickle's "
    "modules must have their old sizes. Distinct by operation and shape."
)
REQUIRED = ("objects_watched", "classes_watched", "callbacks_watched", "handlers_watched", "failed_calls", "contexts_kept", "containers_measured")
ASSUMPTIONS = ["an Unpickler kept by the caller may hold its last result until it is used again"]


class Mark:
    """A leaf that can be watched."""

    def __init__(self, n=0):
        self.n = n


class BombOut(Exception):
    pass


class Bomb(Mark):
    def __getstate__(self):
        raise BombOut


class BombIn(Mark):
    def __setstate__(self, s):
        raise BombOut


_frozen = []


def freeze():
    """Keep the modules' own objects out of the collector's way."""
    if not _frozen:
        for warm in (Mark(1), F.DC(1), [], {}):
            jsonpickle.decode(jsonpickle.encode(warm))
        gc.collect()
        gc.freeze()
        _frozen.append(1)


def watch(obj):
    out = []
    for o in gen.reachable(obj).values():
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, enum.Enum)):
            continue
        try:
            out.append(weakref.ref(o))
        except TypeError:
            pass
    return out


def survivors(refs):
    gc.collect()
    return [type(o).__name__ if not isinstance(o, type) else f"class {o.__name__}" for o in (w() for w in refs) if o is not None]


def sizes():
    """The sizes of all containers that jsonpickle's modules hold."""
    out, seen, alive = {}, set(), []  # alive: ids must not be used again
    stack = [(n, vars(m)) for n, m in list(sys.modules.items()) if n.split(".")[0] == "jsonpickle" and m is not None]
    while stack:
        path, o = stack.pop()
        if id(o) in seen or path.count("/") > 4:
            continue
        seen.add(id(o))
        alive.append(o)
        if isinstance(o, (dict, list, set, tuple, frozenset)):
            out[path] = len(o)
            if isinstance(o, dict):
                for k, v in list(o.items()):
                    if k not in ("__builtins__", "__cached__", "__warningregistry__"):
                        stack.append((f"{path}/{str(k)[:40]}", v))
            elif isinstance(o, (list, tuple)):
                stack.extend((f"{path}/{i}", v) for i, v in enumerate(o))
        elif isinstance(o, type):
            if o.__module__.split(".")[0] == "jsonpickle":
                stack.append((f"{path}/vars", dict(vars(o))))
        elif hasattr(o, "cache_info"):
            out[path + "/cache"] = o.cache_info().currsize
        elif type(o).__module__.split(".")[0] == "jsonpickle" and hasattr(o, "__dict__"):
            stack.append((f"{path}/vars", vars(o)))
        elif isinstance(o, types.FunctionType) and o.__module__ and o.__module__.split(".")[0] == "jsonpickle":
            out[path + "/fn"] = len(o.__dict__)
            if o.__defaults__:
                stack.append((f"{path}/defaults", o.__defaults__))
            if o.__kwdefaults__:
                stack.append((f"{path}/kwdefaults", o.__kwdefaults__))
    return out


def graph(r):
    g = gen.Graph(r, budget=r.choice((3, 10, 25)), stdlib=False)
    x = g.make(3)
    return [x, Mark(r.random()), {"k": Mark()}]


def enc_options(r):
    kw = {}
    k = r.random()
    if k < 0.2:
        kw["unpicklable"] = False
    elif k < 0.4:
        kw["make_refs"] = False
    if r.random() < 0.3:
        kw["keys"] = True
    if r.random() < 0.2:
        kw["max_depth"] = r.randrange(4)
    if r.random() < 0.2:
        kw["warn"] = True
    return kw


def encode_one(r, refs, kw, kept):
    x = graph(r)
    bad = r.random() < 0.25
    if bad:
        x[r.randrange(3)] = [x[0], Bomb(), {"a": Bomb([Mark()])}]
    shape = iso.shape(x[0], 20)
    refs.extend(watch(x))
    failed = 0
    if r.random() < 0.3:
        fs = Mark()

        def safe(e, fs=fs):
            return fs.n

        kw["fail_safe"] = safe
        refs += [weakref.ref(fs), weakref.ref(safe)]
    try:
        if kept is not None:
            kept.flatten(x)
        else:
            jsonpickle.encode(x, **kw)
    except BombOut:
        failed = 1
    except RecursionError:
        failed = 1
    if kept is not None and failed:
        kept.flatten(1)  # the next use lets go of what a failed one left
    return shape, failed, "fail_safe" in kw


def encoding(r, mon):
    freeze()
    kw = enc_options(r)
    kept = Pickler(**kw) if r.random() < 0.3 else None
    refs = []
    with quiet():
        shape, failed, cb = encode_one(r, refs, dict(kw), kept)
    left = survivors(refs)
    check(not left, "objects stay alive after encoding", left=left[:10], options=kw, failed=failed, pickler_kept=kept is not None)
    mon.event("objects_watched", len(refs))
    mon.event("failed_calls", failed)
    mon.event("callbacks_watched", cb)
    mon.event("contexts_kept", kept is not None)
    mon.sig("enc", tuple(sorted(kw)), failed, cb, shape)


def decode_one(r, refs, j, kw, kept):
    failed, cb = 0, 0
    if r.random() < 0.3:

        def missing(name):
            return None

        kw["on_missing"] = missing
        refs.append(weakref.ref(missing))
        cb = 1
    if r.random() < 0.3:
        c = type("Given", (), {"__module__": "vpgone"})
        kw["classes"] = r.choice((c, [c], {"vpgone.Given": c}))
        refs.append(weakref.ref(c))
        cb = 1
    if r.random() < 0.3:
        hc = Mark()
        kw["handler_context"] = {"m": hc}
        refs.append(weakref.ref(hc))
        cb = 1
    try:
        if kept is not None:
            d = kept.restore(jsonpickle.backend.json.decode(j))
        else:
            d = jsonpickle.decode(j, **kw)
        refs.extend(watch(d))
    except BombOut:
        failed = 1
    d = None
    if kept is not None:
        kept.restore(1)
    return failed, cb


def decoding(r, mon):
    freeze()
    x = graph(r)
    if r.random() < 0.25:
        x[r.randrange(3)] = [x[0], BombIn(1), Mark(), x[1]]
    keys = r.random() < 0.3
    j = jsonpickle.encode(x, keys=keys)
    if r.random() < 0.3:
        j = j.replace("props.p32.Mark", r.choice(("vpgone.Given", "vpgone.Other")))
    shape = iso.shape(x[0], 20)
    del x
    kept = Unpickler(keys=keys) if r.random() < 0.3 else None
    refs = []
    with quiet():
        failed, cb = decode_one(r, refs, j, {"keys": keys}, kept)
    left = survivors(refs)
    check(not left, "objects stay alive after decoding", left=left[:10], document=j, failed=failed, unpickler_kept=kept is not None)
    mon.event("objects_watched", len(refs))
    mon.event("failed_calls", failed)
    mon.event("callbacks_watched", cb)
    mon.event("contexts_kept", kept is not None)
    mon.sig("dec", failed, cb, keys, shape)


def class_calls(r, refs):
    mkcls.reset()
    made = [mkcls.make(r) for _ in range(r.randrange(1, 4))]
    objs = [mkcls.fill(r, *c, lambda: gen.ratom(r)) for c in made]
    refs.extend(weakref.ref(c[0]) for c in made)
    objs.append(made[0][0])
    if r.random() < 0.4:

        class H(jsonpickle.handlers.BaseHandler):
            def flatten(self, obj, data, handler_context=None):
                data["v"] = 1
                return data

            def restore(self, obj, handler_context=None):
                return 5

        cls = made[-1][0]
        refs.append(weakref.ref(H))
        base = r.random() < 0.5
        jsonpickle.handlers.register(cls, H, base=base)
        handled = 1
    else:
        cls, handled = None, 0
    try:
        for kw in ({}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}, {"include_properties": True}):
            ctx = {"handler_context": Mark()} if r.random() < 0.5 else {}
            refs.extend(weakref.ref(m) for m in ctx.values())
            j = jsonpickle.encode(objs, **kw, **ctx)
            if kw.get("unpicklable", True):
                d = jsonpickle.decode(j, keys="keys" in kw, classes=[c[0] for c in made] if r.random() < 0.3 else None, **ctx)
                refs.extend(watch(d))
    finally:
        if cls is not None:
            jsonpickle.handlers.unregister(cls)
    return handled, [[len(b.__dict__.get("__slots__", ())) if "__slots__" in b.__dict__ else "d" for b in c[0].__mro__[:-1]] + [c[0].__mro__[-2].__name__] for c in made]


def classes(r, mon):
    """Classes come and go; nothing may hold on to them."""
    freeze()
    before = sizes()
    refs = []
    with quiet():
        handled, layouts = class_calls(r, refs)
    mkcls.reset()
    left = survivors(refs)
    check(not left, "classes, handlers or instances stay alive after use", left=left[:10])
    after = sizes()
    grown = {k: (before.get(k), v) for k, v in after.items() if before.get(k) != v}
    check(not grown, "containers of jsonpickle changed size", grown=grown)
    mon.event("objects_watched", len(refs))
    mon.event("classes_watched", len(layouts))
    mon.event("handlers_watched", handled)
    mon.event("containers_measured", len(after))
    mon.sig("classes", handled, layouts)


SCENARIOS = [Scenario("encoding", encoding, 5000), Scenario("decoding", decoding, 5000), Scenario("classes", classes, 1000)]
