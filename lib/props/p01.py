"""P01: builtin values survive a round trip exactly."""

import gen
import iso
from api import compare, decode, encode, flat_roundtrip, rand_format, roundtrip
from core import Scenario, check

RULE = (
    "Seeded nested values of the builtin types, plus sweeps over edge-case scalars, byte lengths, all code points and large "
    "or deep containers; every value is encoded and decoded by the real code and the two graphs are walked in lock step. "
    "A case counts as distinct by its structure (types, nesting, sizes) and options."
)
REQUIRED = ("nodes_compared", "documents_decoded", "scalar_positions", "code_points")
ASSUMPTIONS = [
    "strings contain no high surrogate directly followed by a low one (JSON cannot tell the pair from one character)",
    "dict keys are strings that are not reserved tags (see P05 for the others)",
    "nesting depth at most 100",
]


def random_builtin(r, mon):
    v = gen.builtin(r, depth=r.choice((1, 2, 3, 4, 5)), width=r.choice((2, 4, 7)))
    kw = rand_format(r)
    dec = {}
    if r.random() < 0.3:
        kw["keys"] = dec["keys"] = True
    j, d = roundtrip(mon, v, kw, dec)
    mon.sig(iso.shape(v), sorted(kw))
    mon.sample(j)
    flat_roundtrip(mon, v)


def scalars(r, mon):
    """Each edge-case scalar in every position."""
    pool = gen.INTS + [-i for i in gen.INTS] + gen.FLOATS + gen.STRS + [None, True, False, b"", b"\xff", b"a", (), [], {}, set(), bytearray(b"x")]
    x = r.choice(pool) if r.random() < 0.7 else gen.ratom(r)
    hashable = not isinstance(x, (list, dict, set, bytearray))
    forms = [x, [x], [[x]], (x,), {"k": x}, {"k": [x, x]}, [1, x, "s"], ((), (x, x)), {"a": {"b": {"c": x}}}]
    if hashable:
        forms += [{x}, frozenset([x]), [{x, "other"}], (frozenset([(x, 1)]),)]
    if isinstance(x, str) and x not in gen.TAGS:
        forms += [{x: 1}, {x: {x: [x]}}]
    kw = rand_format(r)
    for f in forms:
        roundtrip(mon, f, kw)
        mon.event("scalar_positions")
    mon.sig("scalar", type(x).__name__, repr(x)[:80])


def byte_lengths(r, mon):
    n = r.randrange(0, 400)
    data = bytes(r.getrandbits(8) for _ in range(n))
    for b in (data, bytes(n), b"\xff" * n, bytes(i & 255 for i in range(n))):
        for kw in ({}, {"use_base85": True}):
            roundtrip(mon, b, kw)
            roundtrip(mon, bytearray(b), kw)
            roundtrip(mon, [b, {"k": b}, (b, bytearray(b))], kw)
    mon.event("byte_strings", 4)
    mon.sig("bytes", n)


def code_points(r, mon):
    """All code points, in blocks of 512."""
    start = 512 * (r.randrange(0, 128) if r.random() < 0.6 else r.randrange(0, 0x110000 // 512))
    chars = [chr(c) for c in range(start, min(start + 512, 0x110000))]
    # keep surrogates apart
    s = "x".join(chars) if 0xD000 <= start < 0xE200 else "".join(chars)
    roundtrip(mon, s)
    roundtrip(mon, {s: s[::-1] if "x" in s else s})
    roundtrip(mon, [c for c in chars[:: r.randrange(1, 9)]])
    mon.event("code_points", len(chars))
    mon.sig("block", start)


def large(r, mon):
    k = r.randrange(12)
    n = r.choice((255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 20000))
    if k == 0:
        v = [r.randrange(10**6) for _ in range(n)]
    elif k == 1:
        v = {f"k{i}": i for i in range(n)}
    elif k == 2:
        v = tuple(str(i) for i in range(n))
    elif k == 3:
        v = {i * 7 for i in range(n)}
    elif k == 4:
        v = "".join(chr(32 + (i * 7) % 90) for i in range(n * 5))
    elif k == 5:
        v = bytes(i * 31 & 255 for i in range(n * 3))
    elif k == 6:
        v = [[i, [str(i)]] for i in range(n // 4)]
    elif k == 7:
        v = [{"id": i, "t": (i, i + 1), "n": None} for i in range(n // 8)]
    elif k == 8:
        v = frozenset(range(n))
    elif k == 9:
        # Python converts integers of up to 4300 digits
        v = [r.choice((1, -1)) * r.getrandbits(r.choice((n % 14000, r.randrange(14000)))) for _ in range(5)] + [10 ** r.randrange(4300), complex(n, -0.0)]
    elif k == 10:
        v = {"x".join([gen.rstr(r, 40)] * (n // 200)): gen.rfloat(r) for _ in range(20)}
        v = {k: x for k, x in v.items() if k not in gen.TAGS}
    else:
        v = gen.builtin(r, 3, 40)
    roundtrip(mon, v, rand_format(r))
    mon.event("large_values")
    mon.sig("large", k, n)


def deep(r, mon):
    depth = r.choice((10, 30, 50, 64, 80, 100))
    leaf = gen.ratom(r)
    v = leaf
    kinds = r.choice(("l", "d", "t", "ldt", "ll d"))
    for i in range(depth):
        c = kinds[i % len(kinds)]
        v = [v] if c == "l" else {"k": v} if c == "d" else (v,)
    roundtrip(mon, v)
    mon.event("deep_values")
    mon.sig("deep", depth, kinds)


def order(r, mon):
    """Key order and list order, including numeric-looking and unsorted keys."""
    keys = [gen.rkey(r) for _ in range(r.randrange(2, 30))] + [str(r.randrange(100)) for _ in range(5)] + ["b", "a", "B", "A", "10", "9"]
    r.shuffle(keys)
    v = {k: i for i, k in enumerate(keys)}
    j, d = roundtrip(mon, v, rand_format(r))
    check(list(d) == list(v), "order of dict keys changed", want=list(v), got=list(d))
    roundtrip(mon, [v, dict(reversed(list(v.items())))])
    mon.event("key_orders")
    mon.sig("order", tuple(keys))


def options_equiv(r, mon):
    """Formatting options never change the decoded value."""
    v = gen.builtin(r, 3)
    base = decode(mon, encode(mon, v))
    for kw in ({"indent": 3}, {"separators": (",", ":")}, {"use_base85": True}, {"indent": 0, "separators": (",", " : ")}):
        compare(mon, base, decode(mon, encode(mon, v, **kw)))
    mon.sig("opts", iso.shape(v))


SCENARIOS = [
    Scenario("random_builtin", random_builtin, 12000),
    Scenario("scalars", scalars, 2000),
    Scenario("byte_lengths", byte_lengths, 500),
    Scenario("code_points", code_points, 1500),
    Scenario("large", large, 400, 4000),
    Scenario("deep", deep, 300),
    Scenario("order", order, 1500),
    Scenario("options_equiv", options_equiv, 1500),
]
