"""P18: numpy arrays, scalars and dtypes round trip exactly with the numpy extension."""

import bz2
import json
import zlib

import gen
import jsonpickle
import jsonpickle.ext.numpy as jn
import jsonpickle.handlers as H
import npgen
import numpy as np
import scipy.special
import vpfix as F
from api import decode, encode
from core import Scenario, check

RULE = (
    "Arrays of 28 scalar and 7 structured dtypes in either byte order, C and Fortran order, 0 to 4 dimensions with empty ones, "
    "read-only or not, with every combination of size threshold and compression; numpy scalars; dtypes; ufuncs; random generators; "
    "alone, nested and shared. Compared by dtype, shape, flags and bits. Distinct by dtype, shape, layout and settings."
)
REQUIRED = ("arrays_compared", "elements_compared", "binary_arrays", "text_arrays", "scalars", "dtypes", "shared_arrays", "generators", "plain_arrays", "lifecycles", "ufuncs")
ASSUMPTIONS = ["arrays of type numpy.ndarray itself", "units of datetime arrays are given"]

SETTINGS = [(t, c) for t in (0, 5, 16, None) for c in (zlib, bz2, None)]


class settings:
    def __init__(self, t=16, c=zlib):
        self.kw = dict(ndarray_mode="ignore", ndarray_size_threshold=t, ndarray_compression=c)

    def __enter__(self):
        jn.register_handlers(**self.kw)

    def __exit__(self, *a):
        jn.unregister_handlers()


def wrap(r, v):
    p = F.Plain()
    p.x = v
    return r.choice((("alone", v, lambda d: d), ("list", [[1], v], lambda d: d[1]), ("dict", {"a": {}, "v": v}, lambda d: d["v"]), ("attr", p, lambda d: d.x),
                     ("tuple", (v, 1), lambda d: d[0]), ("dataclass", F.DC([2], v), lambda d: d.b)))  # fmt: skip


def arrays(r, mon):
    t, c = r.choice(SETTINGS)
    a = npgen.array(r)
    where, doc, get = wrap(r, a)
    with settings(t, c):
        j = encode(mon, doc)
        d = decode(mon, j)
    b = get(d)
    npgen.same_array(mon, a, b, f"{a.dtype} {a.shape} threshold {t}")
    binary = t is not None and a.size > t
    mon.event("binary_arrays" if binary else "text_arrays")
    check(b.flags.owndata or b.base is not None, "array without memory")
    mon.sig("array", a.dtype.str, str(a.dtype)[:80], a.shape, a.flags.c_contiguous, a.flags.writeable, t, c is None, where)


def shared(r, mon):
    """Several arrays in one document, some of them shared."""
    t, c = r.choice(SETTINGS)
    arrs = [npgen.array(r) for _ in range(r.randrange(1, 4))]
    refs = [r.choice(arrs) for _ in range(r.randrange(2, 7))]
    extra = [1]
    doc = {"e": extra, "l": [r.choice((lambda a=a: a, lambda a=a: [a], lambda a=a: F.DC(a, extra)))() for a in refs], "e2": extra}
    with settings(t, c):
        j = encode(mon, doc)
        d = decode(mon, j)

    def unwrap(x):
        return x[0] if type(x) is list else x.a if isinstance(x, F.DC) else x

    got = [unwrap(x) for x in d["l"]]
    for i, (a, b) in enumerate(zip(refs, got)):
        npgen.same_array(mon, a, b, f"array {i} of {len(refs)}")
        for a2, b2 in zip(refs, got):
            check((a is a2) == (b is b2), "identity of arrays changed", document=j)
    check(d["e2"] is d["e"] and d["e"] == [1], "a reference after the arrays leads to the wrong object", document=j, got=d["e2"])
    mon.event("shared_arrays", len(refs) - len(set(map(id, refs))))
    mon.sig("shared", tuple([x is a for x in arrs].index(True) for a in refs), t, tuple(a.dtype.str for a in arrs))


def scalars(r, mon):
    v = npgen.scalar(r)
    where, doc, get = wrap(r, v)
    with settings():
        j = encode(mon, doc)
        d = decode(mon, j)
    b = get(d)
    check(type(b) is type(v) and b.dtype == v.dtype, f"{type(v).__name__} {v.dtype} became {type(b).__name__} {getattr(b, 'dtype', None)}", document=j)
    npgen.same_values(np.asarray(v), np.asarray(b), f"scalar {v!r}")
    mon.event("scalars")
    mon.sig("scalar", str(v.dtype), str(v)[:40], where)


def _ufuncs(m):
    return [v for v in vars(m).values() if isinstance(v, np.ufunc)]


UFUNCS = _ufuncs(np) + _ufuncs(scipy.special)
TYPES = [t for t in vars(np).values() if isinstance(t, type) and issubclass(t, (np.generic, np.ndarray))] + [np.dtype, np.ufunc, np.random.Generator, np.random.RandomState]


def dtypes(r, mon):
    d0 = npgen.dtype(r, obj=True)
    if r.random() < 0.2:
        d0 = np.dtype([("n", d0), ("m", "i2")])
    where, doc, get = wrap(r, d0)
    with settings():
        j = encode(mon, doc)
        d = decode(mon, j)
        got = get(d)
        check(isinstance(got, np.dtype) and got == d0 and got.str == d0.str and got.itemsize == d0.itemsize and got.fields == d0.fields, f"dtype {d0} became {got}", document=j)
        u = r.choice(UFUNCS)
        got = decode(mon, encode(mon, [u, {"u": u}]))
        check(got[0] is u and got[1]["u"] is u, "ufunc is not the same object", got=got)
        ty = r.choice(TYPES)
        check(decode(mon, encode(mon, {"t": ty}))["t"] is ty, "numpy type is not the same object", got=ty)
    mon.event("dtypes")
    mon.event("ufuncs")
    mon.sig("dtype", str(d0), where)


def generators(r, mon):
    seed = r.randrange(10**6)
    g = r.choice((np.random.RandomState, np.random.default_rng, lambda s: np.random.Generator(np.random.Philox(s)), lambda s: np.random.Generator(np.random.SFC64(s))))(seed)
    for _ in range(r.randrange(3)):
        g.normal()
    with settings(r.choice((0, 16, None))):
        j = encode(mon, {"g": g})
        b = decode(mon, j)["g"]
    check(type(b) is type(g), "other type", got=b)
    check(g.normal(size=5).tolist() == b.normal(size=5).tolist() and g.uniform(size=3).tolist() == b.uniform(size=3).tolist(), "the generator continues differently", document=j[:300])
    mon.event("generators")
    mon.sig("generator", type(g).__name__, seed)


def plain(r, mon):
    """unpicklable=False and threshold None: the values are readable JSON."""
    a = fill_plain(r)
    with settings(None):
        j = encode(mon, {"a": a}, unpicklable=False)
    got = json.loads(j)["a"]
    check(isinstance(got, dict) and got["values"] == a.tolist(), "the values are not readable", want=a.tolist(), got=got)
    check(not any(k.startswith("py/") for k in got), "tags in plain output", got=got)
    mon.event("plain_arrays")
    mon.sig("plain", a.dtype.str, a.shape)


def fill_plain(r):
    a = np.zeros(r.choice(((), (3,), (2, 3), (20,), (2, 2, 2))), r.choice(("i4", "f8", "?", "u1", "U3")))
    return npgen.fill(r, a) if a.dtype.kind != "f" else np.asarray(a + r.randrange(9) / 4)


KINDS = (np.zeros(2), np.float32(1), np.dtype("i4"), np.dtype("f4"), np.dtype("M8[s]"), np.dtype("V3"), np.datetime64(1, "s"), np.int8(1), np.sin, np.timedelta64(1, "s"))


def lifecycle(r, mon):
    """Registering and unregistering the handlers, in any order and number, and with other settings, always takes effect."""
    base = [H.get(type(k)) for k in KINDS]
    check(not any(base), "numpy handlers are registered already")
    done = []
    a = npgen.array(r, obj=False)
    try:
        for _ in range(r.randrange(1, 8)):
            k = r.choice(("register", "register", "unregister"))
            if k == "register":
                t, c = r.choice(SETTINGS)
                jn.register_handlers(ndarray_mode="ignore", ndarray_size_threshold=t, ndarray_compression=c)
                done.append((t, c))
            else:
                jn.unregister_handlers()
                done.append(None)
            got = [H.get(type(k)) is not None for k in KINDS]
            check(got == [done[-1] is not None] * len(KINDS), f"handlers after {done}: {got}")
            if done[-1]:
                j = encode(mon, [a])
                npgen.same_array(mon, a, decode(mon, j)[0], f"after {done}")
                t, c = done[-1]
                data = json.loads(j)[0]
                check((type(data["values"]) is str and "shape" in data) == (t is not None and a.size > t), "the last settings are not used", settings=done[-1], document=j)
            mon.event("lifecycles")
    finally:
        jn.unregister_handlers()
    mon.sig("life", tuple(d and (d[0], getattr(d[1], "__name__", None)) for d in done))


def _subclass():
    with settings():
        m = np.ma.array([1, 2], mask=[False, True])
        d = decode_(m)
        check(type(d) is type(m), "a masked array came back without its mask", got=d)


def decode_(v):
    return jsonpickle.decode(jsonpickle.encode(v))


FINDINGS = {"ndarray-subclasses": _subclass}

SCENARIOS = [
    Scenario("arrays", arrays, 16000),
    Scenario("shared", shared, 4000),
    Scenario("scalars", scalars, 8000),
    Scenario("dtypes", dtypes, 3000),
    Scenario("generators", generators, 400),
    Scenario("plain", plain, 800),
    Scenario("lifecycle", lifecycle, 600),
]
