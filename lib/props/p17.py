"""P17: values of standard library types keep their exact value and behaviour."""

import argparse
import collections
import datetime
import decimal
import fractions
import functools
import io
import ipaddress
import json
import operator
import os
import pathlib
import queue
import random
import re
import string
import threading
import time
import types
import urllib.parse
import uuid

import gen
import iso
import jsonpickle
import jsonpickle.ext.gmpy
import vpfix as F
from api import compare, decode, encode, roundtrip, warnings_seen
from core import Scenario, check
from jsonpickle.backend import JSONBackend

RULE = (
    "Random values of datetime, date, time (all fields, fold, fixed, named and own time zones), timedelta, Decimal, Fraction, UUID, "
    "compiled patterns (text and bytes, flags), arrays of every type code, paths, IP addresses and networks, containers of collections, "
    "partials, operators, random generators, locks, queues, files; each alone and in ten kinds of positions, with sharing. The decoded "
    "value is compared field by field and its behaviour probed. Distinct by type, position and value."
)
REQUIRED = ("values", "behaviours_probed", "handler_types", "iso_texts", "decimals_exact", "locks", "files_null", "queues", "shared_zones", "gmpy_values", "neighbours")
ASSUMPTIONS = ["attributes added to subclasses of datetime or Decimal are dropped by their own pickle support", "a queue comes back empty and an open text file as null, as documented"]


class DT(datetime.datetime):
    pass


class DA(datetime.date):
    pass


class TI(datetime.time):
    pass


class TD(datetime.timedelta):
    pass


class DE(decimal.Decimal):
    pass


class FR(fractions.Fraction):
    pass


class UU(uuid.UUID):
    pass


class TZ(datetime.tzinfo):
    def __init__(self, n=0):
        self.n = n

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.n)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return f"TZ{self.n}"


class InitTZ(datetime.tzinfo):
    """As the tzinfo documentation asks: arguments through __getinitargs__."""

    def __init__(self, n, name):
        self.n, self.name = n, name

    def __getinitargs__(self):
        return self.n, self.name

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.n)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return self.name


def zone(r):
    k = r.randrange(4)
    if k == 0:
        return TZ(r.randrange(-1000, 1000))
    if k == 1:
        return InitTZ(r.randrange(-1000, 1000), r.choice(("a", "", "é")))
    return gen.rtz(r)


def other(r):
    """Standard library values beyond gen.stdlib_value."""
    z = zone(r)
    return r.choice((
        lambda: datetime.datetime(2024, 3, 31, 2, 30, fold=r.randrange(2), tzinfo=z),
        lambda: datetime.time(2, 30, fold=r.randrange(2), tzinfo=z),
        lambda: DT(r.randrange(1, 9999), 1, 2, 3, 4, 5, r.randrange(10**6), tzinfo=z),
        lambda: DA(r.randrange(1, 9999), 12, 31),
        lambda: TI(r.randrange(24), 2, 3, 4, tzinfo=z),
        lambda: TD(r.randrange(-99, 99), r.randrange(86400), r.randrange(10**6)),
        lambda: DE(gen.rdecimal(r)),
        lambda: FR(gen.rint(r), r.randrange(1, 99)),
        lambda: UU(int=r.getrandbits(128)),
        lambda: r.choice((datetime.datetime.min, datetime.datetime.max, datetime.date.min, datetime.date.max, datetime.time.min, datetime.time.max, datetime.timedelta.min, datetime.timedelta.max)),
        lambda: string.Template(gen.rstr(r)),
        lambda: random.Random(r.randrange(1000)),
        lambda: operator.itemgetter(*r.choice(((1,), ("a", 2), (0, -1)))),
        lambda: operator.attrgetter(*r.choice((("real",), ("real", "imag")))),
        lambda: operator.methodcaller("split", r.choice((",", None))),
        lambda: functools.partial(int, "21", base=r.choice((3, 8, 36))),
        lambda: functools.partial(functools.partial(max, 3), 5),
        lambda: types.SimpleNamespace(**{gen.safe_name(r): gen.ratom(r)}),
        lambda: time.gmtime(r.randrange(10**9)),
        lambda: decimal.Context(prec=r.randrange(1, 50), rounding=r.choice((decimal.ROUND_UP, decimal.ROUND_FLOOR))),
        lambda: ipaddress.ip_interface(f"10.{r.randrange(256)}.0.1/{r.randrange(1, 31)}"),
        lambda: ipaddress.IPv6Network((r.getrandbits(64) << 64, 64)),
        lambda: pathlib.Path("/tmp") / gen.safe_name(r),
        lambda: urllib.parse.urlparse(f"http://h/{r.randrange(99)}?q={r.randrange(99)}#f"),
        lambda: urllib.parse.urlsplit(f"//h:{r.randrange(99)}/p"),
        lambda: argparse.Namespace(a=gen.ratom(r)),
        lambda: collections.deque([gen.ratom(r) for _ in range(r.randrange(5))], r.choice((None, 3, 10))),
        lambda: collections.OrderedDict((gen.safe_name(r), gen.ratom(r)) for _ in range(r.randrange(5))),
        lambda: collections.Counter(r.choice("abc") for _ in range(r.randrange(9))),
        lambda: collections.ChainMap({"a": 1}, {"a": 2, "b": [3]}),
        lambda: collections.defaultdict(r.choice((list, dict, int, set, F.Plain)), a=gen.ratom(r)),
        lambda: KeyError(gen.ratom(r)),
        lambda: OSError(2, "no", "file"),
        lambda: UnicodeDecodeError("utf-8", b"a\xff", 1, 2, "bad"),
        lambda: slice(gen.rint(r), None, 2),
        lambda: re.compile(r.choice(("a|b", "(x)(?P<y>z)")), r.choice((0, re.I, re.I | re.M | re.S | re.X, re.A))).flags,
    ))()  # fmt: skip


def value(r):
    return gen.stdlib_value(r) if r.random() < 0.6 else other(r)


def probe(mon, a, b, j):
    """Behaviour, beyond the state."""
    check(type(a) is type(b), f"{type(a)} became {type(b)}", document=j)
    n = 1
    if isinstance(a, (datetime.datetime, datetime.time)):
        check(a.isoformat() == b.isoformat() and a.fold == b.fold and a.utcoffset() == b.utcoffset() and a.tzname() == b.tzname(), "date behaves differently", want=a, got=b, document=j)
        if isinstance(a, datetime.datetime) and a.tzinfo is None and 1900 < a.year < 9000:
            check(a - b == datetime.timedelta(0) and a.timestamp() == b.timestamp(), "other instant", want=a, got=b)
    elif isinstance(a, re.Pattern):
        for s in ("", "ab", "A#B", "x", "é", "12\n3"):
            s = s.encode() if isinstance(a.pattern, bytes) else s
            check([m.span() for m in a.finditer(s)] == [m.span() for m in b.finditer(s)], "pattern matches differently", pattern=a, text=s)
        check(a.flags == b.flags and a.groupindex == b.groupindex and a.pattern == b.pattern, "pattern changed", want=a, got=b)
        n = 7
    elif isinstance(a, decimal.Decimal):
        check(a.as_tuple() == b.as_tuple(), "digits changed", want=a, got=b)
    elif isinstance(a, random.Random):
        s = a.getstate()
        check([a.random(), a.randrange(99), a.gauss(0, 1)] == [b.random(), b.randrange(99), b.gauss(0, 1)], "random generator continues differently")
        a.setstate(s)
        b.setstate(s)
    elif isinstance(a, (operator.itemgetter, operator.attrgetter, operator.methodcaller, functools.partial)):
        check(repr(a) == repr(b), "callable changed", want=a, got=b)
    elif isinstance(a, collections.deque):
        check(a.maxlen == b.maxlen, "maxlen changed", want=a.maxlen, got=b.maxlen)
    elif isinstance(a, collections.defaultdict):
        check(a.default_factory is b.default_factory, "default_factory changed", want=a.default_factory, got=b.default_factory)
    elif isinstance(a, (ipaddress._BaseNetwork, ipaddress._BaseAddress, pathlib.PurePath, uuid.UUID, fractions.Fraction, range)):
        check(a == b and hash(a) == hash(b) and str(a) == str(b), "value changed", want=a, got=b)
    else:
        n = 0
    mon.event("behaviours_probed", n)


def positions(v, w):
    p = F.Plain()
    p.x = v
    out = [("alone", v, lambda d: d), ("list", [v, w], lambda d: d[0]), ("dict", {"a": v, "b": [w]}, lambda d: d["a"]), ("attr", p, lambda d: d.x), ("tuple", (w, v), lambda d: d[1]),
           ("dataclass", F.DC(v, w), lambda d: d.a), ("namedtuple", F.NT(v, w), lambda d: d[0]), ("deque", collections.deque([v]), lambda d: d[0]),
           ("listsub", F.ListSub([v]), lambda d: d[0]), ("default", collections.defaultdict(list, k=v), lambda d: d["k"])]  # fmt: skip
    if not isinstance(v, decimal.Decimal) or not v.is_snan():
        try:
            hash(v)
        except TypeError:
            pass
        else:
            out.append(("set", {v}, lambda d: next(iter(d))))
    return out


def values(r, mon):
    v = value(r)
    w = v if r.random() < 0.5 else value(r)
    where, doc, get = r.choice(positions(v, w))
    if r.random() < 0.5:
        # objects around it that are used twice must still be found
        s, n = {"k": [1]}, [r.randrange(9)]
        j, d = roundtrip(mon, [n, doc, s, [n, s], doc, value(r), n])
        check(d[2] is d[3][1] and d[0] is d[3][0] is d[6], "objects next to the value are mixed up", document=j)
        d = d[1]
        mon.event("neighbours")
    else:
        j, d = roundtrip(mon, doc)
    probe(mon, v, get(d), j)
    mon.event("values")
    mon.event("handler_types", jsonpickle.handlers.get(type(v)) is not None)
    mon.sig("value", type(v).__name__, where, str(v)[:60])


def keys(r, mon):
    """As dict keys with keys=True."""
    ks = []
    for _ in range(r.randrange(1, 5)):
        v = value(r)
        try:
            hash(v)
        except (TypeError, ValueError):
            continue
        if isinstance(v, (Exception, decimal.Context, random.Random, operator.itemgetter, operator.attrgetter, operator.methodcaller, functools.partial, string.Template)) or v != v:
            continue
        ks.append(v)
    doc = {k: i for i, k in enumerate(ks)}
    j, d = roundtrip(mon, doc, {"keys": True}, {"keys": True})
    for a, b in zip(doc, d):
        probe(mon, a, b, j)
    mon.event("values", len(doc))
    mon.sig("keys", tuple(type(k).__name__ for k in doc))


def plain(r, mon):
    """unpicklable=False: dates are their ISO text and nothing else is needed to read the document."""
    v = r.choice((gen.rdatetime, gen.rdate, gen.rtime))(r)
    doc = r.choice((v, [v, 1], {"d": v}))
    j = encode(mon, doc, unpicklable=False)
    got = json.loads(j)
    want = v.isoformat()
    got = got if doc is v else got[0] if isinstance(doc, list) else got["d"]
    check(got == want, "not the ISO text", want=want, got=got)
    check(type(v).fromisoformat(got) == v, "the ISO text does not parse back", text=got)
    u = uuid.UUID(int=r.getrandbits(128))
    got = json.loads(encode(mon, [u], unpicklable=False))[0]
    check(got == {"hex": u.hex}, "UUID is not written by its hex digits", got=got)
    mon.event("iso_texts")
    mon.sig("plain", want)


def decimals(r, mon):
    """use_decimal with the documented simplejson settings keeps every digit."""
    b = JSONBackend()
    b.set_preferred_backend("simplejson")
    b.set_encoder_options("simplejson", use_decimal=True)
    b.set_decoder_options("simplejson", use_decimal=True)
    ds = [d for d in (gen.rdecimal(r) for _ in range(r.randrange(1, 6))) if d.is_finite() and str(d) != "-0"]
    doc = r.choice((ds, {"a": ds, "n": {"d": ds}}, [ds, {"x": ds[:1]}]))
    j = encode(mon, doc, unpicklable=r.random() < 0.5, use_decimal=True, backend=b)
    check("py/" not in j or "py/id" in j, "decimals were not left to the backend", document=j)
    d = decode(mon, j, backend=b)
    got = d if isinstance(d, list) and (not d or not isinstance(d[0], list)) else d["a"] if isinstance(d, dict) else d[0]
    # JSON does not tell 10 from a decimal 10: integral text comes back as an int, which has no negative zero
    check([str(decimal.Decimal(x)) for x in got] == [str(x) for x in ds], "digits changed", want=ds, got=got, document=j)
    mon.event("decimals_exact", len(ds))
    j, d = roundtrip(mon, ds)  # the default mode as well, with any backend
    mon.sig("dec", tuple(map(str, ds)))


def opaque(r, mon):
    """Locks, queues and files: what the handlers promise."""
    lock = threading.Lock()
    locked = r.random() < 0.5
    if locked:
        lock.acquire()
    path = os.devnull
    with open(path, encoding="utf-8") as f:
        q = queue.Queue()
        doc = [lock, {"l": lock}, q, f, [1]]
        with warnings_seen() as w:
            j = encode(mon, doc, warn=r.random() < 0.5)
    check(lock.locked() == locked, "encoding changed the lock")
    d = decode(mon, j)
    check(type(d[0]) is type(lock) and d[0].locked() == locked and d[0] is not lock, "lock state lost", document=j)
    check(d[1]["l"] is d[0], "shared lock duplicated", document=j)
    mon.event("locks")
    check(type(d[2]) is queue.Queue and d[2].empty(), "no usable queue", got=d[2])
    d[2].put(1)
    check(d[2].get(timeout=1) == 1, "the queue does not work")
    mon.event("queues")
    check(d[3] is None and d[4] == [1], "an open file was not written as null", got=d[3:], document=j)
    mon.event("files_null")
    mon.sig("opaque", locked, bool(w))


def zones(r, mon):
    """Dates that share one time zone object keep sharing it."""
    z = r.choice((TZ(60), InitTZ(90, "x"), TZ(-30)))
    a, b, t = datetime.datetime(2020, 1, 1, tzinfo=z), datetime.datetime(2021, 2, 3, 4, 5, 6, 7, tzinfo=z), datetime.time(1, 2, tzinfo=z)
    doc = r.choice(([a, b, t, z], {"a": a, "b": b, "t": t, "z": z}, F.DC(a, [b, t], z), [z, [b], [a], [t]]))
    j, d = roundtrip(mon, doc)
    found = []

    def walk(x):
        if isinstance(x, (datetime.datetime, datetime.time)):
            found.append(x.tzinfo)
        elif isinstance(x, datetime.tzinfo):
            found.append(x)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
        elif hasattr(x, "__dict__"):
            walk(list(vars(x).values()))

    walk(d)
    check(len(found) == 4 and all(x is found[0] for x in found), "the shared time zone was split", document=j)
    mon.event("shared_zones")
    mon.sig("zones", type(z).__name__, type(doc).__name__)


def gmpy(r, mon):
    import gmpy2

    jsonpickle.ext.gmpy.register_handlers()
    try:
        v = gmpy2.mpz(gen.rint(r) ** r.choice((1, 3)))
        doc = r.choice((v, [v, v, 1], {"a": v, "b": [v]}))
        j = encode(mon, doc)
        d = decode(mon, j)
        check(d == doc and repr(d) == repr(doc), "mpz changed", want=doc, got=d, document=j)
        mon.event("gmpy_values")
        mon.sig("gmpy", str(v)[:40])
    finally:
        jsonpickle.ext.gmpy.unregister_handlers()
    check(jsonpickle.handlers.get(gmpy2.mpz) is None, "the handler is still registered")


SCENARIOS = [
    Scenario("values", values, 40000),
    Scenario("keys", keys, 6000),
    Scenario("plain", plain, 6000),
    Scenario("decimals", decimals, 4000),
    Scenario("opaque", opaque, 400),
    Scenario("zones", zones, 400),
    Scenario("gmpy", gmpy, 1000),
]
