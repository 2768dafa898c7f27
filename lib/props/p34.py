"""P34: the cost of encoding and decoding grows in proportion to the data."""

import collections
import dataclasses
import functools
import signal
import sys
import time

import jsonpickle
import numpy as np
import pandas as pd
import vpfix as F
from api import quiet
from core import Scenario, check

RULE = (
    "Families of graphs of growing size (wide, shared, cyclic, keyed, nested, failing, of many classes) are encoded and decoded in "
    "every mode at sizes n and 16 n, numpy and pandas values with their extensions likewise, and objects shared on every level of deep chains. Lines executed inside jsonpickle are counted with sys.monitoring and may grow 16 fold "
    "with 50 % tolerance; CPU time of one large run is compared with that of 16 small ones and may be 6 times that, confirmed three times. Distinct by family, "
    "mode and operation."
)
REQUIRED = ("lines_counted", "times_measured", "encodings_measured", "decodings_measured", "families", "shared_chains", "extensions_measured")
ASSUMPTIONS = ["CPU time of single runs varies by less than a factor of 6"]

TOOL = 4


class Lines:
    """Counts the lines that run in jsonpickle's modules."""

    def __enter__(self):
        self.n = 0
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif")
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        return self

    def line(self, code, no):
        if "/jsonpickle/" not in code.co_filename:
            return sys.monitoring.DISABLE
        self.n += 1

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


class Failing:
    def __getstate__(self):
        raise ValueError


class Propped:
    def __init__(self, a):
        self.a = a

    @property
    def twice(self):
        return [self.a]


@dataclasses.dataclass
class Call:
    """With a repr() that shows both members."""

    a: object
    b: object

    def __call__(self):
        return self.a


class Pair:
    def __init__(self, a, b):
        self._a, self._b = a, b

    @property
    def first(self):
        return self._a if isinstance(self._a, Pair) else None

    @property
    def second(self):
        return self._b if isinstance(self._b, Pair) else None


def ring(n):
    root = F.Plain()
    root.items = []
    for i in range(n):
        c = F.Plain()
        c.root, c.before = root, root.items[-1] if root.items else None
        root.items.append(c)
    return root


def attrs(n):
    o = F.Plain()
    for i in range(n):
        setattr(o, f"a{i}", i)
    return o


def deques(n):
    d = collections.deque()
    d.extend([i] for i in range(n))
    return d


def default(n):
    d = collections.defaultdict(list)
    for i in range(n):
        d[str(i)].append(i)
    return d


def shared(n):
    pool = [[i] for i in range(n // 4 or 1)]
    return pool + [pool[(i * 7) % len(pool)] for i in range(n)]


def exceptions(n):
    return [ValueError(i, [i]) for i in range(n)]


def unfinished(n):
    """References to an object that does not exist yet when they are read."""
    x = Args()
    x.v = [[x], {"x": x}] * (n // 4) + [x] * (n // 2)
    return x


class Args:
    def __new__(cls, *args):
        return object.__new__(cls)

    def __getnewargs__(self):
        return (self.v,)


FAMILIES = {
    "ints": lambda n: list(range(n)),
    "text": lambda n: ["é" * 5] * n,
    "long_text": lambda n: 'a"é' * n * 20,
    "bytes": lambda n: b"\xff\x00" * n * 20,
    "lists": lambda n: [[i] for i in range(n)],
    "dicts": lambda n: [{"a": i, "b": None} for i in range(n)],
    "keys": lambda n: {str(i): i for i in range(n)},
    "int_keys": lambda n: {i: [i] for i in range(n)},
    "tuple_keys": lambda n: {(i, "x"): i for i in range(n)},
    "object_keys": lambda n: {F.FrozenDC(i, "x"): i for i in range(n)},
    "tuples": lambda n: tuple((i,) for i in range(n)),
    "sets": lambda n: [set(range(n)), {i: {i} for i in map(str, range(n))}],
    "objects": lambda n: [F.DC(i, [i]) for i in range(n)],
    "slots": lambda n: [F.SlotsDC(i, i) for i in range(n)],
    "named": lambda n: [F.NT(i, [i]) for i in range(n)],
    "ring": ring,
    "attributes": attrs,
    "deque": deques,
    "deques": lambda n: [collections.deque([i]) for i in range(n)],
    "ordered": lambda n: collections.OrderedDict((str(i), [i]) for i in range(n)),
    "default": default,
    "defaults": lambda n: [collections.defaultdict(list, a=[i]) for i in range(n)],
    "counter": lambda n: collections.Counter(map(str, range(n))),
    "listsub": lambda n: F.ListSub([i] for i in range(n)),
    "listsubs": lambda n: [F.ListSub([i]) for i in range(n)],
    "dictsubs": lambda n: [F.DictSub(a=[i]) for i in range(n)],
    "shared": shared,
    "one_shared": lambda n: [[0]] * n,
    "exceptions": exceptions,
    "enums": lambda n: [F.Color.RED, F.Color.BLUE] * (n // 2),
    "types": lambda n: [F.Plain, int, F.module_function] * (n // 3),
    "complex": lambda n: [complex(i, 1) for i in range(n)],
    "failing": lambda n: [Failing() if i % 2 else [i] for i in range(n)],
    "lambdas": lambda n: [(lambda: 0) if i % 2 else [i] for i in range(n)],
    "properties": lambda n: [Propped([i]) for i in range(n)],
    "nested": lambda n: [[[[[[[[i]]]]]]] for i in range(n // 8)],
    "unfinished": unfinished,
    "iterator": lambda n: iter([[i] for i in range(n)]),
}
MODES = {
    "plain": ({}, {}),
    "simple": ({"unpicklable": False}, None),
    "no_refs": ({"make_refs": False}, {}),
    "keys": ({"keys": True}, {"keys": True}),
    "numeric": ({"numeric_keys": True}, {}),
    "base85": ({"use_base85": True}, {}),
    "limits": ({"max_depth": 50, "max_iter": 10**9}, {}),
    "warn": ({"warn": True}, {"on_missing": "warn"}),
    "safe": ({"fail_safe": lambda e: "failed"}, {"v1_decode": True}),
    "properties": ({"include_properties": True}, {}),
    "readonly": ({"handle_readonly": True}, {}),
    "missing": ({}, {"on_missing": "ignore", "missing": True}),
}


def applies(fam, mode):
    if fam == "failing":
        return mode == "safe"
    if mode in ("no_refs", "simple") and fam in ("ring", "unfinished"):
        return False
    if fam == "object_keys":
        return mode == "keys"
    if fam in ("attributes", "ring") and mode == "readonly":
        return False  # known finding
    return True


LONG = ("shared", "ring", "one_shared")


def measure(fn):
    t = time.process_time()
    fn()
    return time.process_time() - t


def lines(fn):
    with Lines() as c:
        fn()
    return c.n


def encoder(fam, mode, n):
    x = FAMILIES[fam](n)
    kw = MODES[mode][0]
    return lambda: jsonpickle.encode(x if fam != "iterator" else FAMILIES[fam](n), **kw)


def decoder(fam, mode, n):
    kw = dict(MODES[mode][1])
    j = encoder(fam, mode, n)()
    if kw.pop("missing", None):
        j = j.replace('"py/object": "vpfix.', '"py/object": "vpgone.')
    return lambda: jsonpickle.decode(j, **kw)


K = 16


def count(mon, make, fam, mode, what, n):
    small, large = make(fam, mode, n), make(fam, mode, n * K)
    lines(small)
    a, b = lines(small), lines(large)
    mon.event("lines_counted", a + b)
    check(b <= 1.5 * K * a + 2000, f"{what} {fam} ({mode}): {b} lines for {n * K} items, {a} for {n}")
    mon.sig("lines", what, fam, mode, n)


def clock(mon, make, fam, mode, what, n):
    """One large run against K small ones."""
    signal.setitimer(signal.ITIMER_PROF, 120)  # these take longer than other cases
    small, large = make(fam, mode, n), make(fam, mode, n * K)
    small()
    for _ in range(3):
        tb = measure(large)
        ta = measure(lambda: [small() for _ in range(K)]) if tb > 0.15 else 0
        if tb <= 6 * ta + 0.15:
            break
    else:
        check(False, f"{what} {fam} ({mode}): {tb:.3f} s for {n * K} items, {ta:.3f} s for {K} times {n} items")
    mon.event("times_measured")
    mon.sig("time", what, fam, mode, n)


def each_mode(r, mon, fam):
    n = r.randrange(20, 60)
    with quiet():
        for mode in MODES:
            if not applies(fam, mode):
                continue
            count(mon, encoder, fam, mode, "encode", n)
            mon.event("encodings_measured")
            if MODES[mode][1] is not None:
                count(mon, decoder, fam, mode, "decode", n)
                mon.event("decodings_measured")
    mon.event("families")


def timed(r, mon, fam):
    mode = r.choice([m for m in MODES if applies(fam, m)])
    n = 4000 if fam in LONG else 1000
    with quiet():
        clock(mon, encoder, fam, mode, "encode", n)
        if MODES[mode][1] is not None:
            clock(mon, decoder, fam, mode, "decode", n)


def views(n):
    a = np.arange(n + 5)
    return [a[i : i + 3] for i in range(n)]


EXTENSIONS = {
    "arrays": lambda n: [np.arange(i % 5) for i in range(n)],
    "array": lambda n: np.arange(n),
    "large_arrays": lambda n: [np.full(40, i) for i in range(n // 4)],
    "views": views,
    "scalars": lambda n: [np.float32(i) for i in range(n)],
    "object_array": lambda n: np.array([[i] if i % 2 else str(i) for i in range(n)] + [None], dtype=object),
    "dtypes": lambda n: [np.dtype("i4"), np.dtype([("a", "f8")])] * (n // 2),
    "series": lambda n: pd.Series(range(n)),
    "frame": lambda n: pd.DataFrame({"a": range(n), "b": [str(i) for i in range(n)]}),
    "object_frame": lambda n: pd.DataFrame({"a": pd.Series([[i] for i in range(n)], dtype=object)}),
    "index": lambda n: pd.Index(range(n)),
    "timestamps": lambda n: [pd.Timestamp(i) for i in range(n)],
}
SLOW = ("object_frame", "timestamps", "dtypes", "scalars", "arrays", "large_arrays")


def extensions(r, mon, fam):
    """The same with the numpy and pandas extensions."""

    def enc(fam, mode, n):
        x = EXTENSIONS[fam](n)
        return lambda: jsonpickle.encode(x, **MODES[mode][0])

    def dec(fam, mode, n):
        j = enc(fam, mode, n)()
        return lambda: jsonpickle.decode(j, **MODES[mode][1])

    mode = r.choice(("plain", "keys", "warn"))
    n = r.randrange(40, 80)
    import jsonpickle.ext.pandas as ext

    ext.register_handlers()
    try:
        with quiet():
            for make, what in ((enc, "encode"), (dec, "decode")):
                count(mon, make, fam, mode, what, n)
                clock(mon, make, fam, mode, what, 3000 if fam == "views" else 250 if fam in SLOW else 1000)
    finally:
        ext.unregister_handlers()
    mon.event("extensions_measured")


def chains(r, mon):
    """Objects shared on every level: cost follows the objects, not the paths."""
    make = {
        "list": lambda c: [c, c],
        "dict": lambda c: {"a": c, "b": c},
        "object": lambda c: Pair(c, c),
        "listsub": lambda c: F.ListSub([c, c]),
        "mixed": lambda c: [{"x": c}, Pair(c, (c,))],
        "callable": lambda c: Call(c, c),
        "partial": lambda c: functools.partial(Call, c, b=c),
        "dataclass": lambda c: F.DC(c, c),
        "deque": lambda c: collections.deque((c, c)),
        "dictsub": lambda c: F.DictSub(a=c, b=c),
        "ordered": lambda c: collections.OrderedDict(a=c, b=c),
        "default": lambda c: collections.defaultdict(list, a=c, b=c),
        "named": lambda c: [F.NT(c, c)],
        "slots": lambda c: F.SlotsDC(c, c),
        "exception": lambda c: ValueError(c, c),
    }
    name = r.choice(sorted(make))
    mode = r.choice(("plain", "keys", "warn", "safe", "properties", "readonly"))
    counts = {}
    for depth in (5, 30):
        x = [0]
        for _ in range(depth):
            x = make[name](x)
        with quiet():
            with Lines() as c:
                j = jsonpickle.encode(x, **MODES[mode][0])
            with Lines() as d:
                jsonpickle.decode(j, **MODES[mode][1])
        counts[depth] = c.n + d.n
    check(counts[30] <= 12 * counts[5], f"{name} chain ({mode}): {counts[30]} lines for 30 levels, {counts[5]} for 5")
    mon.event("shared_chains")
    mon.event("lines_counted", sum(counts.values()))
    mon.sig("chain", name, mode)


def _readonly():
    x = [FAMILIES["attributes"](n) for n in (60, 60 * K)]
    a, b = (measure(lambda o=o: [jsonpickle.encode(o, handle_readonly=True) for _ in range(3)]) for o in x)
    check(b <= 6 * K * a, "cost of handle_readonly")


SCENARIOS = [Scenario("chains", chains, 240, 1000)]
for _f in FAMILIES:
    SCENARIOS.append(Scenario("lines-" + _f, functools.partial(each_mode, fam=_f), 1, 10))
    SCENARIOS.append(Scenario("time-" + _f, functools.partial(timed, fam=_f), 2, 30))
for _f in EXTENSIONS:
    SCENARIOS.append(Scenario("ext-" + _f, functools.partial(extensions, fam=_f), 1, 6))
FINDINGS = {"readonly-members": _readonly}
