"""P15: the backend manager follows its documented rules after any history of calls."""

import json as stdjson
import sys
import types

import jsonpickle
from core import Scenario, check
from jsonpickle import backend as B

RULE = (
    "Random histories (5..40 steps) of load, remove, prefer, options, fallthrough, encode and decode on two JSONBackend objects, "
    "over fake backend modules that record every call and fail on demand. A model predicts which backends are tried, in which "
    "order, with which arguments, and the result or exception. Distinct by history."
)
REQUIRED = ("steps", "encodes", "decodes", "fallthroughs", "exceptions_expected", "no_backend", "rejected_loads", "options_passed", "global_calls")
ASSUMPTIONS = ["a backend that is loaded is not loaded again with missing functions"]

NAMES = ("vpbk_a", "vpbk_b", "vpbk_c", "vpbk_pkg.sub", "vpbk_pkg.sub.deep")
LOG = []


class CustomError(Exception):
    pass


class BackendFault(Exception):
    pass


class Fake:
    """One fake backend module."""

    def __init__(self, name):
        self.name = name
        self.fail = None  # exception to raise
        m = self.module = types.ModuleType(name)
        m.dumps, m.loads = self.dumps, self.loads
        m.other_dumps, m.other_loads = self.other_dumps, self.other_loads
        m.CustomError = CustomError

    def _call(self, fn, arg, a, k):
        LOG.append((self.name, fn, arg, a, dict(k)))
        k["polluted"] = True  # must not be visible to later calls
        if self.fail is not None:
            raise self.fail
        return f"{self.name}:{fn}:{arg!r}"

    def dumps(self, obj, *a, **k):
        return self._call("dumps", obj, a, k)

    def loads(self, s, *a, **k):
        return self._call("loads", s, a, k)

    def other_dumps(self, obj, *a, **k):
        return self._call("other_dumps", obj, a, k)

    def other_loads(self, s, *a, **k):
        return self._call("other_loads", s, a, k)


FAKES = {n: Fake(n) for n in NAMES}


def install():
    for n in ("vpbk_a", "vpbk_b", "vpbk_c"):
        sys.modules[n] = FAKES[n].module
    pkg = types.ModuleType("vpbk_pkg")
    pkg.__path__ = []
    sub, deep = FAKES["vpbk_pkg.sub"].module, FAKES["vpbk_pkg.sub.deep"].module
    sub.__path__ = []
    sub.deep = deep
    pkg.sub = sub
    sys.modules["vpbk_pkg"], sys.modules["vpbk_pkg.sub"], sys.modules["vpbk_pkg.sub.deep"] = pkg, sub, deep


class Model:
    def __init__(self):
        self.names = []
        self.fn = {}
        self.exc = {}
        self.eopt, self.dopt = {}, {}
        self.fall = True

    def load(self, name, dumps, loads, exc):
        if name not in self.names:
            self.names.append(name)
        self.fn[name] = (dumps, loads)
        self.exc[name] = exc
        self.eopt.setdefault(name, ((), {}))
        self.dopt.setdefault(name, ((), {}))

    def remove(self, name):
        for d in (self.fn, self.exc, self.eopt, self.dopt):
            d.pop(name, None)
        if name in self.names:
            self.names.remove(name)

    def _tries(self, which, arg, extra):
        """Expected calls and outcome."""
        calls = []
        if not self.names:
            return calls, ("raise", AssertionError)
        todo = self.names if self.fall else self.names[:1]
        for i, n in enumerate(todo):
            fn = self.fn[n][which]
            a, k = (self.eopt if which == 0 else self.dopt)[n]
            calls.append((n, fn, arg, tuple(a), {**k, **extra}))
            fail = FAKES[n].fail
            if fail is None:
                return calls, ("return", f"{n}:{fn}:{arg!r}")
            caught = isinstance(fail, Exception) if which == 0 else isinstance(fail, self.exc[n])
            if not self.fall or not caught or i == len(todo) - 1:
                return calls, ("raise", type(fail))
        raise AssertionError


def outcome(fn):
    try:
        return "return", fn()
    except (Exception, KeyboardInterrupt) as e:
        return "raise", type(e)


OPTS = ({}, {"indent": 2}, {"sort_keys": False}, {"x": 1, "separators": ";"})
FAILS = (None, None, None, ValueError("v"), KeyError("k"), CustomError("c"), BackendFault("f"), KeyboardInterrupt("i"))


def fresh():
    b = B.JSONBackend()
    for n in ("simplejson", "json", "ujson"):
        b.remove_backend(n)
    return b


def use(r, mon, b, m, history):
    arg = r.choice(([1, 2], {"a": 1}, "text", None, 0))
    check(True, "")
    extra = {}
    if r.random() < 0.4:
        extra["indent"] = r.choice((0, 1, 4))
    if r.random() < 0.3:
        extra["separators"] = (",", ":")
    del LOG[:]
    if r.random() < 0.5:
        calls, want = m._tries(0, arg, extra)
        f = r.choice((b.encode, b.dumps))
        got = outcome(lambda: f(arg, **extra))
        mon.event("encodes")
        what = f"encode({extra})"
    else:
        arg = "some text"
        calls, want = m._tries(1, arg, {})
        f = r.choice((b.decode, b.loads))
        got = outcome(lambda: f(arg))
        mon.event("decodes")
        what = "decode()"
    check(got == want, f"{what} gave {got}, expected {want}", history=history, order=m.names, fallthrough=m.fall)
    check(LOG == calls, f"{what} called the backends differently", expected=calls, got=list(LOG), history=history)
    mon.event("fallthroughs", max(0, len(calls) - 1))
    mon.event("options_passed", sum(len(c[3]) + len(c[4]) for c in calls))
    if want[0] == "raise":
        mon.event("exceptions_expected" if calls else "no_backend")


def step(r, mon, b, m):
    k = r.choice(("load", "load", "remove", "prefer", "eopt", "dopt", "fall", "bad", "use", "use", "use", "fail"))
    name = r.choice(NAMES)
    if k == "load":
        dumps, loads = r.choice((("dumps", "loads"), ("other_dumps", "other_loads")))
        exc = r.choice((ValueError, "CustomError", CustomError, (KeyError, CustomError), Exception))
        got = b.load_backend(name, dumps=dumps, loads=loads, loads_exc=exc) if r.random() < 0.7 else None
        if got is None:
            dumps, loads, exc = "dumps", "loads", ValueError
            got = b.load_backend(name)
        check(got is True, f"load_backend({name}) returned {got!r}")
        m.load(name, dumps, loads, CustomError if exc == "CustomError" else exc)
    elif k == "remove":
        b.remove_backend(name)
        m.remove(name)
    elif k == "prefer":
        got = outcome(lambda: b.set_preferred_backend(name))
        if name in m.names:
            check(got == ("return", None), f"set_preferred_backend({name}) gave {got}")
            m.names.remove(name)
            m.names.insert(0, name)
        else:
            check(got == ("raise", AssertionError), f"set_preferred_backend of a backend that is not loaded gave {got}")
            mon.event("exceptions_expected")
    elif k in ("eopt", "dopt"):
        a, kw = r.choice(((), (1,), ("x", 2))), dict(r.choice(OPTS))
        (b.set_encoder_options if k == "eopt" else b.set_decoder_options)(name, *a, **kw)
        (m.eopt if k == "eopt" else m.dopt)[name] = (a, kw)
    elif k == "fall":
        m.fall = r.random() < 0.5
        b.enable_fallthrough(m.fall)
    elif k == "bad":
        name = r.choice([n for n in NAMES if n not in m.names] or ["vpbk_none"])
        how = r.randrange(5)
        if how == 0:
            got = b.load_backend(r.choice(("vpbk_none", "vpbk_pkg.none", "vpbk_a.none")))
        elif how == 1:
            got = b.load_backend("vpbk_none", dumps="x")
        else:
            kw = {("dumps", "loads", "loads_exc")[how - 2]: "no_such_name"}
            got = b.load_backend(name, **kw)
            m.remove(name)
        check(got is False, f"loading a broken backend returned {got!r}", name=name, how=how)
        mon.event("rejected_loads")
    elif k == "fail":
        FAKES[name].fail = r.choice(FAILS)
    return (k, name)


def histories(r, mon):
    install()
    pairs = [(fresh(), Model()) for _ in range(2)]
    for f in FAKES.values():
        f.fail = None
    history = []
    for _ in range(r.randrange(5, 40)):
        i = r.randrange(2)
        b, m = pairs[i]
        s = step(r, mon, b, m)
        history.append((i, *s))
        if s[0] == "use" or r.random() < 0.2:
            use(r, mon, b, m, history)
        mon.event("steps")
    for b, m in pairs:
        use(r, mon, b, m, history)
    mon.sig(tuple(history))


DOC = {"a": [1, 2.5, None, True, "x"], "b": {}}


def globally(r, mon):
    """The module-level functions act on the backend that encode and decode use by default."""
    install()
    for f in FAKES.values():
        f.fail = None
    name = r.choice(NAMES[:3])
    fake = FAKES[name]
    history = []
    try:
        check(jsonpickle.load_backend(name) is True, "load_backend failed")
        for _ in range(r.randrange(1, 6)):
            k = r.choice(("prefer", "options", "fail", "nofall"))
            history.append(k)
            del LOG[:]
            if k == "prefer":
                jsonpickle.set_preferred_backend(name)
                fake.fail = None
                got = jsonpickle.encode([1])
                check(got == f"{name}:dumps:[1]", "encode did not use the preferred backend", got=got)
                got = jsonpickle.decode("text")
                check(got == f"{name}:loads:'text'", "decode did not use the preferred backend", got=got)
            elif k == "options":
                jsonpickle.set_preferred_backend(name)
                fake.fail = None
                jsonpickle.set_encoder_options(name, 1, q=2)
                jsonpickle.set_decoder_options(name, 3, p=4)
                jsonpickle.encode([1], indent=5, separators=(",", ":"))
                jsonpickle.dumps([1])
                jsonpickle.decode("t")
                jsonpickle.loads("t")
                enc, dec = {"q": 2, "indent": 5, "separators": (",", ":")}, {"p": 4}
                check(LOG == [(name, "dumps", [1], (1,), enc), (name, "dumps", [1], (1,), {"q": 2}), (name, "loads", "t", (3,), dec), (name, "loads", "t", (3,), dec)], "options were not passed on", got=list(LOG))
            elif k == "fail":
                jsonpickle.set_preferred_backend(name)
                fake.fail = ValueError("no")
                check(stdjson.loads(jsonpickle.encode(DOC)) == DOC, "no fall through to the next backend")
                check(jsonpickle.decode(stdjson.dumps(DOC)) == DOC, "no fall through to the next backend")
                mon.event("fallthroughs", 2)
            else:
                jsonpickle.set_preferred_backend(name)
                fake.fail = ValueError("no")
                jsonpickle.enable_fallthrough(False)
                got = outcome(lambda: jsonpickle.encode([1])), outcome(lambda: jsonpickle.decode("[1]"))
                jsonpickle.enable_fallthrough(True)
                check(got == (("raise", ValueError),) * 2, "errors are hidden although fallthrough is off", got=got)
                mon.event("exceptions_expected", 2)
            mon.event("global_calls")
    finally:
        fake.fail = None
        jsonpickle.enable_fallthrough(True)
        jsonpickle.remove_backend(name)
        for n in reversed(("simplejson", "json", "ujson")):
            jsonpickle.set_preferred_backend(n)
    check(stdjson.loads(jsonpickle.encode(DOC)) == DOC and jsonpickle.decode(stdjson.dumps(DOC)) == DOC, "removing a backend broke the others")
    mon.sig("global", name, tuple(history))


def real(r, mon):
    """With the real backends, any order and any removal leaves working JSON as long as one is left."""
    b = B.JSONBackend()
    left = ["simplejson", "json", "ujson"]
    for _ in range(r.randrange(0, 6)):
        n = r.choice(("simplejson", "json", "ujson"))
        k = r.choice(("remove", "prefer", "load"))
        if k == "remove" and len(left) > 1:
            b.remove_backend(n)
            left = [x for x in left if x != n]
        elif k == "prefer" and n in left:
            b.set_preferred_backend(n)
        elif k == "load":
            check(b.load_backend(n) is True, "load_backend failed")
            left = left if n in left else [*left, n]
        v = r.choice((DOC, [2**70, "é "], {"x": [1.5e300, -0.0]}, "", 0))
        s = jsonpickle.encode(v, backend=b)
        check(stdjson.loads(s) == v and jsonpickle.decode(s, backend=b) == v, "value changed", value=v, text=s)
        got = outcome(lambda: jsonpickle.decode("{broken", backend=b))
        check(got[0] == "raise" and issubclass(got[1], ValueError), "broken JSON did not raise a ValueError", got=got)
        mon.event("encodes")
        mon.event("decodes", 2)
        mon.event("exceptions_expected")
        mon.sig("real", n, k, tuple(left))


SCENARIOS = [
    Scenario("histories", histories, 20000),
    Scenario("globally", globally, 2000),
    Scenario("real", real, 3000),
]
