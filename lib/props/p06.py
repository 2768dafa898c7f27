"""P06: without keys=True, keys become predictable strings and no item is lost."""

import collections
import json

import gen
import iso
import vpfix as F
from api import compare, decode, encode, roundtrip
from core import Scenario, check

RULE = (
    "Seeded dictionaries (nested, shared, inside instances and in dict subclasses) with keys of every kind, encoded without "
    "keys=True; the decoded graph must equal the original with each key mapped by an independent model: strings stay, None "
    "becomes 'null', anything else its repr, numbers are left to the JSON writer with numeric_keys=True. Distinct by key "
    "types and shape."
)
REQUIRED = ("keys_coerced", "keys_kept", "numeric_keys", "nodes_compared")
ASSUMPTIONS = ["string keys equal to one of the library's reserved tag names are not used (they need keys=True)"]


class OddRepr:
    """Key object with a chosen repr."""

    def __init__(self, text, bad=False):
        self.text, self.bad = text, bad

    def __repr__(self):
        if self.bad:
            raise ValueError("no repr")
        return self.text

    def __str__(self):
        return "str:" + self.text

    def __hash__(self):
        return hash(self.text)

    def __eq__(self, o):
        return type(o) is OddRepr and (o.text, o.bad) == (self.text, self.bad)


def key(r):
    k = r.randrange(12)
    if k < 4:
        return gen.rkey(r)
    if k < 8:
        return gen.hashable_atom(r)
    if k == 8:
        return gen.hashable(r, 2)
    if k == 9:
        return OddRepr(gen.rkey(r), r.random() < 0.4)
    if k == 10:
        return r.choice((F.Color.RED, F.IntColor.ONE, F.NT(1, 2), int, (1, "a"), frozenset(), None, True, False, F.FrozenDC(1, 2), F.IntSub(5), F.StrSub(gen.rkey(r)), F.StrSub("str-sub"), F.StrColor.RED if hasattr(F.StrColor, "RED") else list(F.StrColor)[0]))
    return gen.stdlib_value(r) if r.random() < 0.3 else gen.rint(r)


def ok(k):
    try:
        hash(k)
    except TypeError:
        return False
    return not (isinstance(k, str) and k in gen.TAGS) and k == k


def model_key(k, numeric=False):
    if isinstance(k, str):
        return str.__getitem__(k, slice(None))
    if k is None:
        return "null"
    if numeric and isinstance(k, (int, float)):
        # what every JSON writer does with numbers as member names
        if isinstance(k, bool):
            return "true" if k else "false"
        if isinstance(k, int):
            return int.__repr__(k)
        return {"inf": "Infinity", "-inf": "-Infinity", "nan": "NaN"}.get(float.__repr__(k), float.__repr__(k))
    try:
        return repr(k)
    except Exception:
        return str(k)


def model(v, memo, numeric):
    """The same graph with converted keys; sharing is kept."""
    if type(v) in (list, dict, F.Plain, F.DC, F.DictSub):
        if id(v) in memo:
            return memo[id(v)][1]
        out = type(v).__new__(type(v))
        memo[id(v)] = (v, out)
        if type(v) is list:
            out.extend(model(x, memo, numeric) for x in v)
        elif isinstance(v, dict):
            for k, x in v.items():
                out[model_key(k, numeric)] = model(x, memo, numeric)
        else:
            for k, x in v.__dict__.items():
                out.__dict__[k] = model(x, memo, numeric)
        return out
    if type(v) is tuple:
        return tuple(model(x, memo, numeric) for x in v)
    return v


def rdict(r, depth, pool):
    out = {}
    for _ in range(r.randrange(0, 7)):
        k = key(r)
        if not ok(k) or any(model_key(k) == model_key(o) or model_key(k, True) == model_key(o, True) for o in out):
            continue
        out[k] = rvalue(r, depth - 1, pool)
    pool.append(out)
    return out


def rvalue(r, depth, pool):
    k = r.randrange(9)
    if pool and k == 0:
        return r.choice(pool)
    if depth <= 0 or k < 4:
        return gen.ratom(r)
    if k < 6:
        return rdict(r, depth, pool)
    if k == 6:
        return [rvalue(r, depth - 1, pool) for _ in range(r.randrange(0, 4))]
    if k == 7:
        o = F.Plain()
        o.d = rdict(r, depth - 1, pool)
        return o
    return (rvalue(r, depth - 1, pool), F.DC(rdict(r, depth - 1, pool)))


def _count(mon, v):
    for k in v:
        mon.event("keys_kept" if isinstance(k, str) else "keys_coerced")


def coerced(r, mon):
    pool = []
    v = [rdict(r, 3, pool), *pool[:2]]
    want = model(v, {}, False)
    j = encode(mon, v)
    compare(mon, want, decode(mon, j), j)
    for d in pool:
        _count(mon, d)
    mon.sig("coerced", tuple(type(k).__name__ for d in pool for k in d), iso.shape(v))
    mon.sample(j)


def numeric(r, mon):
    pool = []
    v = [rdict(r, 3, pool), *pool[:2]]
    for d in pool:
        k = r.choice((gen.rint(r), 1.5, 0, True, 1e300, -7))
        if not any(model_key(k, True) == model_key(o, True) for o in d):
            d[k] = r.choice(pool) if r.random() < 0.3 else 1
    want = model(v, {}, True)
    j = encode(mon, v, numeric_keys=True)
    compare(mon, want, decode(mon, j), j)
    mon.event("numeric_keys", sum(isinstance(k, (int, float)) for d in pool for k in d))
    mon.sig("numeric", tuple(type(k).__name__ for d in pool for k in d), iso.shape(v))


def subclasses(r, mon):
    """Instances and dict subclasses with non-string keys or attribute names."""
    base = {}
    for _ in range(r.randrange(1, 6)):
        k = key(r)
        if ok(k) and model_key(k) not in ("default_factory", "__dict__") and not any(model_key(k) == model_key(o) for o in base):
            base[k] = gen.ratom(r)
    _count(mon, base)
    want = {model_key(k): v for k, v in base.items()}
    tail = [1]
    d = decode(mon, encode(mon, [F.DictSub(base), tail, tail]))
    compare(mon, [F.DictSub(want), tail, tail], d)
    dd = collections.defaultdict(list, base)
    compare(mon, collections.defaultdict(list, want), decode(mon, encode(mon, dd)))
    plain = decode(mon, encode(mon, base, unpicklable=False))
    check(list(plain) == list(want), "keys of the plain form", want=list(want), got=list(plain))
    mon.sig("sub", tuple(type(k).__name__ for k in base), iso.shape(base))


def document_keys(r, mon):
    """Every member name in the document is a string; every item is present."""
    pool = []
    v = rdict(r, 2, pool)
    doc = json.loads(encode(mon, v))
    want = [model_key(k) for k in v]
    check(list(doc) == want, "member names", want=want, got=list(doc))
    _count(mon, v)
    mon.sig("names", tuple(want)[:8])


SCENARIOS = [
    Scenario("coerced", coerced, 10000),
    Scenario("numeric", numeric, 5000),
    Scenario("subclasses", subclasses, 5000),
    Scenario("document_keys", document_keys, 3000),
]
