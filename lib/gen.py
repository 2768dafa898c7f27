"""Seeded generators of values and object graphs."""

from __future__ import annotations

import array
import collections
import datetime
import decimal
import fractions
import functools
import gc
import ipaddress
import math
import os.path
import pathlib
import re
import struct
import sys
import types
import uuid
import zoneinfo

import vpfix as F

TAGS = (
    "py/bytes py/bytea py/b64 py/b85 py/function py/id py/initargs py/iterator py/mod py/newargs "
    "py/newargsex py/newobj py/object py/property py/reduce py/default_factory py/ref py/repr py/seq "
    "py/set py/state py/tuple py/type"
).split()

INTS = [0, 1, -1, 2, 7, 10, 127, 128, 255, 256, 2**31 - 1, 2**31, -(2**31), 2**32, 2**53 - 1, 2**53, 2**53 + 1,
        -(2**53) - 1, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64 - 1, 2**64, 2**64 + 1, 10**18, 10**19, 10**30,
        -(10**40), 2**200 + 1, 10**300, 2**1100 - 1]  # fmt: skip
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 0.5, 1e16, 1e15, 123456789.123456789, 1e-5, 1e-7, 1e22, 1e23, 2.0**53, 2.0**63,
          5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, -1.7976931348623157e308,
          math.pi, math.e, 1e100, 1e-100, 9007199254740993.0, 4.35, 0.1 + 0.2, 1.0000000000000002, float("inf"),
          float("-inf"), float("nan"), 1e300, 3.0, -17.0, 100.0]  # fmt: skip
STRS = ["", "a", " ", "0", "1", "-1", "1.5", "null", "true", "false", "None", "NaN", "Infinity", "[]", "{}", '{"py/id": 1}',
        '{"py/object": "os.system"}', "py/id", "py/object", "py/tuple", "py/ref", "json://", 'json://"x"', "json://[1]",
        'quote"quote', "back\\slash", "back\\\\slash\\", "line\nfeed\r\ttab", "\x00", "\x00\x01\x1f\x7f", "\u2028\u2029",
        "caf\u00e9", "\u00e9" * 3, "e\u0301", "\u4f60\u597d", "\U0001f600", "\U0010ffff", "\ud800", "\udfff\ud800", "a\ud83d",
        "\ufeff", "\ufffe", "/slash/", "</script>", "\\u0041", "\\ud83d\\ude00", "a" * 200, "\u00e9" * 300, "'", "''", "%s%d",
        "key with spaces", "__class__", "__dict__", "__reduce__", "default_factory", "builtins.int", "x.y", "\u0130\u0131",
        "\x85", "\xa0", "\u200b", "~", "ZGF0YQ==", "\t", "\n", "1e5", "0x10", "-0", "+1", " 1", "1 ", "\u0661"]  # fmt: skip


def rint(r):
    k = r.randrange(6)
    if k < 2:
        return r.choice(INTS)
    if k == 2:
        return r.randrange(-1000, 1000)
    if k == 3:
        return r.getrandbits(r.randrange(1, 70)) * r.choice((1, -1))
    if k == 4:
        return r.choice(INTS) + r.randrange(-2, 3)
    return r.getrandbits(r.randrange(64, 400)) * r.choice((1, -1))


def rfloat(r):
    k = r.randrange(5)
    if k < 2:
        return r.choice(FLOATS)
    if k == 2:
        return struct.unpack("<d", r.getrandbits(64).to_bytes(8, "little"))[0]
    if k == 3:
        return r.uniform(-1e6, 1e6)
    return r.choice((1, -1)) * r.random() * 10.0 ** r.randrange(-300, 300)


def rstr(r, maxlen=24):
    # JSON cannot tell a surrogate pair from the character it stands for
    return re.sub("[\ud800-\udbff](?=[\udc00-\udfff])", "", _rstr(r, maxlen))


def _rstr(r, maxlen):
    k = r.randrange(8)
    if k < 4:
        return r.choice(STRS)
    n = r.randrange(0, maxlen)
    if k == 4:
        return "".join(chr(r.randrange(32, 127)) for _ in range(n))
    if k == 5:
        return "".join(chr(r.choice((r.randrange(0, 0x300), r.randrange(0x2000, 0x2100), r.randrange(0x10000, 0x11000)))) for _ in range(n))
    if k == 6:
        return "".join(chr(r.randrange(0, 0x110000)) for _ in range(n))
    return r.choice(STRS) + r.choice(STRS)


def well_formed(s):
    try:
        s.encode("utf-8")
    except UnicodeEncodeError:
        return False
    return True


def rbytes(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([b"", b"\0", b"a", b"ab", b"abc", b"\xff", b"\xff\xfe", b"hello world", b"==", b"\n", b"\\x00", b"\r\n\0", b"+/", b"-_"])
    n = r.choice((1, 2, 3, 4, 5, 7, 8, 16, 31, 57, 58, 64, 76, 77, 100, 255, 300, 1000)) if k == 1 else r.randrange(0, 20)
    return bytes(r.getrandbits(8) for _ in range(n))


def ratom(r):
    k = r.randrange(10)
    if k == 0:
        return None
    if k == 1:
        return r.choice((True, False))
    if k < 5:
        return rint(r)
    if k < 7:
        return rfloat(r)
    return rstr(r)


def rkey(r):
    """A string dict key that needs no escaping."""
    while True:
        k = rstr(r, 10) if r.random() < 0.5 else r.choice("abcdefghijklmnopqrstuvwxyz") + str(r.randrange(50))
        if k not in TAGS:
            return k


def rname(r):
    """An attribute name."""
    k = r.randrange(12)
    if k == 0:
        return r.choice(("py", "id", "object", "state", "self", "cls", "items", "keys", "values", "get", "update", "append", "add"))
    if k == 1:
        return r.choice(("_private", "_A__mangled", "__dunder__", "UPPER", "camelCase", "with_underscore", "caf\u00e9", "a1", "data", "args", "seq"))
    if k == 2:
        return r.choice(("with space", "with-dash", "", "1", "a.b", "a/b", "\u4f60", "py/custom", "json", "class", "def", "None"))
    return r.choice("abcdefghijklmnopqrstuvwxyz") + r.choice(("", "", str(r.randrange(30))))


METHODS = ("items", "keys", "values", "get", "update", "append", "add")


def safe_name(r):
    """An attribute name that hides no method or field."""
    while True:
        n = rname(r)
        if n not in METHODS and n not in ("x", "y", "z", "args", "data", "built", "st", "a", "b", "c", "d", "v"):
            return n


def hashable_atom(r):
    k = r.randrange(8)
    if k == 0:
        return None
    if k == 1:
        return r.choice((True, False))
    if k < 4:
        return rint(r)
    if k == 4:
        f = rfloat(r)
        return 1.5 if f != f else f
    if k == 5:
        return rbytes(r)
    return rstr(r)


def hashable(r, depth=2):
    k = r.randrange(8)
    if depth <= 0 or k < 4:
        return hashable_atom(r)
    if k < 6:
        return tuple(hashable(r, depth - 1) for _ in range(r.randrange(0, 4)))
    if k == 6:
        return frozenset(hashable(r, depth - 1) for _ in range(r.randrange(0, 4)))
    return complex(r.randrange(-9, 9), r.randrange(-9, 9))


def builtin(r, depth=4, width=5):
    """Builtin values only, no sharing."""
    k = r.randrange(14)
    if depth <= 0 or k < 4:
        return ratom(r)
    n = r.randrange(0, width + 1)
    if k == 4:
        return rbytes(r)
    if k == 5:
        return bytearray(rbytes(r))
    if k < 8:
        return [builtin(r, depth - 1, width) for _ in range(n)]
    if k == 8:
        return tuple(builtin(r, depth - 1, width) for _ in range(n))
    if k < 11:
        return {rkey(r): builtin(r, depth - 1, width) for _ in range(n)}
    if k == 11:
        return {hashable(r) for _ in range(n)}
    if k == 12:
        return frozenset(hashable(r) for _ in range(n))
    return r.choice((complex(rfloat(r), rfloat(r)) if False else complex(r.uniform(-9, 9), r.choice((0.0, 1.5, -2.25))),
                     range(r.randrange(-5, 5), r.randrange(5, 20), r.randrange(1, 4)), Ellipsis, NotImplemented,
                     slice(None, r.randrange(9), None)))  # fmt: skip


def json_value(r, depth=4, width=5, key=rkey):
    """Values of plain JSON."""
    k = r.randrange(8)
    if depth <= 0 or k < 4:
        return ratom(r)
    n = r.randrange(0, width + 1)
    if k < 6:
        return [json_value(r, depth - 1, width, key) for _ in range(n)]
    return {key(r): json_value(r, depth - 1, width, key) for _ in range(n)}


ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia"]


def rtz(r):
    k = r.randrange(5)
    if k < 2:
        return None
    if k == 2:
        return datetime.timezone.utc
    if k == 3:
        m = r.randrange(-1439, 1440)
        td = datetime.timedelta(minutes=m, seconds=r.choice((0, 0, 30)) if abs(m) < 1439 else 0)
        return datetime.timezone(td, r.choice(("X", "", "caf\u00e9"))) if r.random() < 0.4 else datetime.timezone(td)
    return zoneinfo.ZoneInfo(r.choice(ZONES))


def rdatetime(r):
    y = r.choice((1, 4, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2020, 2024, 2038, 9998, 9999, r.randrange(2, 9999)))
    return datetime.datetime(y, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60),
                             r.choice((0, 1, 999999, r.randrange(1000000))), tzinfo=rtz(r), fold=r.randrange(2))  # fmt: skip


def rdate(r):
    return datetime.date(r.choice((1, 1600, 1970, 2000, 2024, 9999, r.randrange(1, 9999))), r.randrange(1, 13), r.randrange(1, 29))


def rtime(r):
    return datetime.time(r.randrange(24), r.randrange(60), r.randrange(60), r.choice((0, 1, 999999, r.randrange(1000000))),
                         tzinfo=rtz(r), fold=r.randrange(2))  # fmt: skip


def rdecimal(r):
    k = r.randrange(4)
    if k == 0:
        return decimal.Decimal(r.choice(("0", "-0", "0E+5", "1.10", "1.1", "Infinity", "-Infinity", "NaN", "sNaN", "-NaN123", "1E+1000", "1E-1000", "3.14159265358979323846264338327950288419716939937510")))
    return decimal.Decimal((r.randrange(2), tuple(r.randrange(10) for _ in range(r.randrange(1, 40))), r.randrange(-50, 50)))


TYPECODES = "bBhHiIlLqQfdu"


def rarray(r):
    tc = r.choice(TYPECODES)
    n = r.choice((0, 1, 2, 5, 17))
    if tc == "u":
        return array.array("u", "".join(c for c in rstr(r) if not 0xD800 <= ord(c) < 0xE000))
    if tc == "d":
        return array.array("d", [rfloat(r) for _ in range(n)])
    if tc == "f":
        return array.array("f", [r.choice((0.0, -0.0, 1.5, float("inf"), 1e-40, 3.4e38, 0.1, r.uniform(-9, 9))) for _ in range(n)])
    size = array.array(tc).itemsize * 8
    lo, hi = (0, 2**size - 1) if tc.isupper() else (-(2 ** (size - 1)), 2 ** (size - 1) - 1)
    return array.array(tc, [r.choice((lo, hi, 0, 1, r.randrange(lo, hi + 1))) for _ in range(n)])


def rregex(r):
    p, f = r.choice((("a.*b", re.I), ("", 0), ("^\\d+$", re.M | re.S), ("(?P<n>x)|y", 0), ("caf\u00e9 \\w", re.A), ("a # c\n b", re.X),
                     ("[\"\\\\]", 0), ("(?i:a)", 0), ("\n\t", 0)))  # fmt: skip
    if r.random() < 0.3:
        b = r.choice((b"a.*b", b"\\xff\xff", b"", b"[\x00-\x1f]+"))
        return re.compile(b, r.choice((0, re.I, re.M, re.S, re.X, re.A, re.L, re.L | re.I, re.A | re.S, re.I | re.M | re.X)))
    return re.compile(p, f if r.random() < 0.8 else r.choice((0, re.I, re.A, re.X, re.I | re.M | re.S | re.X | re.A, re.S | re.A)))


def stdlib_value(r):
    k = r.randrange(15)
    if k == 0:
        return rdatetime(r)
    if k == 1:
        return rdate(r)
    if k == 2:
        return rtime(r)
    if k == 3:
        return datetime.timedelta(r.randrange(-999999, 999999), r.randrange(86400), r.randrange(1000000))
    if k == 4:
        return rtz(r) or datetime.timezone.utc
    if k == 5:
        return rdecimal(r)
    if k == 6:
        return fractions.Fraction(rint(r), r.randrange(1, 10**6))
    if k == 7:
        return uuid.UUID(int=r.choice((0, 1, 2**128 - 1, r.getrandbits(128))))
    if k == 8:
        return rregex(r)
    if k == 9:
        return pathlib.PurePosixPath(*[r.choice(("a", "b c", "..", "caf\u00e9", "x.txt", "/", ".")) for _ in range(r.randrange(0, 4))])
    if k == 10:
        return r.choice((ipaddress.ip_address(r.getrandbits(32)), ipaddress.IPv6Address(r.getrandbits(128)), ipaddress.ip_network("10.0.0.0/8")))
    if k == 11:
        return rarray(r)
    if k == 12:
        return range(r.randrange(-100, 100), r.randrange(-100, 100), r.choice((1, 2, -1, -3)))
    if k == 13:
        return pathlib.PureWindowsPath("C:\\", "a", "b")
    return complex(r.uniform(-9, 9), r.uniform(-9, 9))


_OPAQUE = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, str, int, float, bytes)


def reachable(obj):
    seen, stack = {id(obj): obj}, [obj]
    while stack:
        for y in gc.get_referents(stack.pop()):
            if not isinstance(y, _OPAQUE) and id(y) not in seen:
                seen[id(y)] = y
                stack.append(y)
    return seen


def in_cycle(obj):
    """Can obj be reached from itself?"""
    seen, stack = set(), [obj]
    keep = []
    while stack:
        for y in gc.get_referents(stack.pop()):
            if y is obj:
                return True
            if not isinstance(y, _OPAQUE) and id(y) not in seen:
                seen.add(id(y))
                keep.append(y)
                stack.append(y)
    return False


HUGE = [False]


def huge(fn):
    """The scenario with graphs of many thousand objects."""

    @functools.wraps(fn)
    def run(r, mon):
        HUGE[0] = True
        try:
            fn(r, mon)
        finally:
            HUGE[0] = False
        mon.event("huge_graphs")

    return run


def side_by_side(r, make):
    """One value, or a list of many in scenarios under huge()."""
    if not HUGE[0]:
        return make()
    return [make() for _ in range(r.choice((200, 1000, 3000)))]


class Graph:
    """Random object graphs with sharing, cycles and many kinds of nodes."""

    def __init__(self, r, kinds=None, share=0.25, cycles=True, budget=40, stdlib=True, keyfn=rkey, fns=True, atom=ratom):
        self.r = r
        self.pool = []  # objects that may be referenced again
        self.mutable = []  # objects that can receive back references
        self.targets = []  # objects that may take part in cycles
        self.by_args = []  # objects whose contents are constructor arguments
        self.share = share
        self.cycles = cycles
        self.budget = budget
        self.stdlib = stdlib
        self.keyfn = keyfn
        self.fns = fns
        self.atom = atom
        self.kinds = list(kinds) if kinds else sorted(KINDS)
        # some graphs have a few containers with many members
        self.wide = r.random() < 0.04
        if self.wide:
            self.budget *= 3

    def make(self, depth=4):
        return self._huge(depth) if HUGE[0] else self._graph(depth)

    def _huge(self, depth):
        """Many graphs side by side, with references between them."""
        parts = self.pool, self.mutable, self.targets, self.by_args
        kept = [list(p) for p in parts]
        roots, far = [], []
        budget = self.budget
        for _ in range(self.r.choice((200, 1000, 3000))):
            self.budget = budget
            for p in parts:
                p.clear()
            roots.append(self._graph(depth))
            if self.share and self.targets and len(far) < 200:
                far.append(self.r.choice(self.targets))
            for p, k in zip(parts, kept):
                k.extend(p)
        for p, k in zip(parts, kept):
            p[:] = k
        roots.extend(self.r.sample(far, len(far)))
        return {f"k{i}": v for i, v in enumerate(roots)} if self.r.random() < 0.3 else roots

    def _graph(self, depth):
        before = {k: len(v) if isinstance(v, (list, dict)) else v for k, v in vars(self).items()}
        while True:
            root = self._make(depth)
            # no decoder can build a cycle through constructor arguments
            if not any(in_cycle(x) for x in self.by_args):
                return root
            for k, v in before.items():
                now = getattr(self, k)
                if isinstance(now, list):
                    del now[v:]
                elif isinstance(now, dict):
                    while len(now) > v:
                        now.popitem()
                else:
                    setattr(self, k, v)

    def _make(self, depth):
        root = self.value(depth)
        if self.cycles:
            for _ in range(self.r.randrange(0, 4)):
                self.link()
        return root

    def link(self):
        """Insert a reference to any known object into any mutable one."""
        if not self.mutable or not self.targets:
            return
        obj = self.r.choice(self.mutable)
        target = self.r.choice(self.targets)
        below = reachable(target)
        if any(id(x) in below and id(obj) in reachable(x) for x in self.by_args):
            return
        if isinstance(obj, (list, collections.deque, collections.UserList)):
            obj.append(target)
        elif isinstance(obj, (dict, collections.UserDict)):
            obj[self.keyfn(self.r)] = target
        elif hasattr(obj, "__dict__"):
            obj.__dict__[safe_name(self.r)] = target

    def keep(self, obj, mutable=True, target=True):
        """target=False: the contents are constructor arguments, so a cycle
        through the object cannot be built by any decoder."""
        self.pool.append(obj)
        (self.targets if target else self.by_args).append(obj)
        if mutable:
            self.mutable.append(obj)
        return obj

    def value(self, depth):
        r = self.r
        self.budget -= 1
        if self.pool and r.random() < self.share:
            return r.choice(self.pool)
        if depth <= 0 or self.budget <= 0 or r.random() < 0.25:
            return self.leaf()
        return KINDS[r.choice(self.kinds)](self, depth - 1)

    def leaf(self):
        r = self.r
        k = r.randrange(12)
        if k < 8:
            return self.atom(r)
        if k == 8:
            return rbytes(r)
        if k == 9 and self.stdlib:
            v = stdlib_value(r)
            return v
        if k == 10 and self.fns:
            return r.choice((F.Color.RED, F.Color.GREEN, F.Color.BLUE, F.IntColor.TWO, F.Perm.R | F.Perm.X, F.StrColor.B, F.IntPerm.W,
                             F.Plain, F.Outer.Inner, int, list, type(None), F.module_function, F.Outer.Inner.static, len, os.path.join,
                             math.sin, datetime.datetime, F.FrozenDC, dict, object, ValueError))  # fmt: skip
        return self.atom(r)

    def width(self, hi):
        if self.wide and self.r.random() < 0.2:
            return self.r.choice((9, 17, 33, 66, 101, 130))
        return self.r.randrange(0, hi)

    def values(self, depth, hi=4):
        return [self.value(depth) for _ in range(self.width(hi))]

    def attrs(self, obj, depth, hi=4, name=None):
        for _ in range(self.width(hi)):
            obj.__dict__[(name or safe_name)(self.r)] = self.value(depth)
        return obj


KINDS = {}


def kind(fn):
    KINDS[fn.__name__[2:]] = fn
    return fn


@kind
def k_list(g, d):
    out = g.keep([])
    out.extend(g.values(d, 5))
    return out


@kind
def k_list2(g, d):
    return k_list(g, d)


@kind
def k_dict(g, d):
    out = g.keep({})
    for v in g.values(d, 5):
        out[g.keyfn(g.r)] = v
    return out


@kind
def k_dict2(g, d):
    return k_dict(g, d)


@kind
def k_tuple(g, d):
    return tuple(g.values(d, 4))


@kind
def k_set(g, d):
    return {hashable(g.r) for _ in range(g.width(4))}


@kind
def k_frozenset(g, d):
    return frozenset(hashable(g.r) for _ in range(g.width(4)))


@kind
def k_objset(g, d):
    """Set of instances."""
    return {g.keep(F.ValueObj(i, None), False) for i in range(g.width(3))}


@kind
def k_plain(g, d):
    cls = g.r.choice((F.Plain, F.PlainChild, F.Outer.Inner, F.Outer.Inner.Deepest, F.WithMeta, F.Generic, F.ComputedProps))
    return g.attrs(g.keep(cls.__new__(cls)), d, name=rname)


@kind
def k_plain2(g, d):
    return k_plain(g, d)


@kind
def k_plainargs(g, d):
    o = g.keep(F.PlainArgs(1, 2, c=3))
    o.a, o.b, o.c = g.value(d), g.value(d), g.value(d)
    return o


@kind
def k_odd(g, d):
    """Instances with unusual truth value, equality or protocol methods."""
    cls = g.r.choice((F.AlwaysEqual, F.NeverEqual, F.RaisesOnCompare, F.Falsy, F.Sized0, F.CallableObj, F.WithProperty, F.Methods))
    o = g.keep(cls(None))
    val = g.value(d)
    setattr(o, "_v" if cls is F.WithProperty else "v", val)
    return o


@kind
def k_valueobj(g, d):
    o = g.keep(F.ValueObj(g.r.randrange(10**6)))
    o.extra = g.value(d)
    return o


@kind
def k_private(g, d):
    if g.r.random() < 0.5:
        return g.keep(F.WithPrivate(g.value(d)), False)
    return g.keep(F.WithPrivateChild(g.value(d), g.value(d)), False)


@kind
def k_slots(g, d):
    r = g.r
    k = r.randrange(9)
    if k == 0:
        o = g.keep(F.Slots(), False)
        o.a, o.b = g.value(d), g.value(d)
    elif k == 1:
        o = g.keep(F.SlotsChild(), False)
        o.a, o.c = g.value(d), g.value(d)
    elif k == 2:
        o = g.keep(F.SlotsStr(), False)
        o.only = g.value(d)
    elif k == 3:
        o = g.keep(F.SlotsRedeclared(), False)
        o.a, o.b, o.d = g.value(d), g.value(d), g.value(d)
    elif k == 4:
        o = g.keep(F.SlotsPrivate(g.value(d), g.value(d)), False)
    elif k == 5:
        o = g.keep(F.SlotsPrivateChild(g.value(d), g.value(d), g.value(d), g.value(d)), False)
    elif k == 6:
        o = g.keep(F._Underscored(g.value(d)), False)
    elif k == 7:
        o = g.keep(F.SlotsWeak(), False)
        o.a = g.value(d)
    else:
        o = g.keep(r.choice((F.SlotsAndDict, F.SlotsWithDict))())
        o.a = g.value(d)
        o.zz = g.value(d)
    return o


@kind
def k_dataclass(g, d):
    k = g.r.randrange(5)
    if k == 0:
        return g.keep(F.DC(g.value(d), g.value(d), g.values(d, 3)))
    if k == 1:
        return g.keep(F.FrozenDC(g.value(d), g.value(d)), False)
    if k == 2:
        return g.keep(F.SlotsDC(g.value(d), g.value(d)), False)
    if k == 3:
        return g.keep(F.FrozenSlotsDC(g.value(d), g.value(d)), False)
    return g.keep(F.DCChild(g.value(d), g.value(d), [], g.value(d)))


@kind
def k_namedtuple(g, d):
    k = g.r.randrange(3)
    if k == 0:
        return g.keep(F.NT(g.value(d), g.value(d)), False, False)
    if k == 1:
        return g.keep(F.Point(g.value(d), g.value(d), g.value(d)), False, False)
    return g.attrs(g.keep(F.NTSub(g.value(d), g.value(d)), False, False), d, 2)


@kind
def k_tuplesub(g, d):
    if g.r.random() < 0.5:
        return g.keep(F.TupleSubSlots(g.values(d, 4)), False, False)
    return g.attrs(g.keep(F.TupleSub(g.values(d, 4)), False, False), d, 3)


@kind
def k_listsub(g, d):
    o = g.keep(F.ListSub())
    g.attrs(o, d, 3)
    o.extend(g.values(d, 4))
    return o


@kind
def k_setsub(g, d):
    o = g.keep(F.SetSub(hashable(g.r) for _ in range(g.width(4))), False)
    return g.attrs(o, d, 3)


@kind
def k_frozensetsub(g, d):
    return g.keep(F.FrozenSetSub(hashable(g.r) for _ in range(g.width(4))), False)


def subkey(g):
    """Keys for dict subclasses."""
    while True:
        k = g.keyfn(g.r)
        if k not in ("__dict__", "default_factory"):
            return k


@kind
def k_dictsub(g, d):
    o = g.keep(F.DictSub(), False)
    for v in g.values(d, 4):
        o[subkey(g)] = v
    return g.attrs(o, d, 3)


@kind
def k_ordered(g, d):
    o = g.keep(g.r.choice((collections.OrderedDict, F.OrderedSub))(), False)
    for v in g.values(d, 4):
        o[subkey(g)] = v
    if type(o) is F.OrderedSub:
        g.attrs(o, d, 2)
    return o


def _zero():
    return 0


@kind
def k_default(g, d):
    fac = g.r.choice((None, int, list, dict, F.Plain, lambda: 0, lambda: [], lambda: {"k": 1}, collections.OrderedDict))
    o = g.keep(g.r.choice((collections.defaultdict, F.DefaultSub))(fac), False)
    for v in g.values(d, 4):
        o[subkey(g)] = v
    if type(o) is F.DefaultSub:
        g.attrs(o, d, 2)
    return o


@kind
def k_counter(g, d):
    o = g.keep(collections.Counter({subkey(g): g.r.randrange(-5, 9) for _ in range(g.width(4))}), False)
    return o


@kind
def k_deque(g, d):
    o = g.keep(collections.deque(maxlen=g.r.choice((None, None, 6, 9))))
    o.extend(g.values(d, 4))
    return o


@kind
def k_userdict(g, d):
    if g.r.random() < 0.5:
        o = g.keep(g.r.choice((collections.UserDict, F.UDict))())
        for v in g.values(d, 4):
            o[g.keyfn(g.r)] = v
    else:
        o = g.keep(g.r.choice((collections.UserList, F.UList))())
        o.extend(g.values(d, 4))
    return o


@kind
def k_chainmap(g, d):
    return g.keep(collections.ChainMap(*[{g.keyfn(g.r): g.value(d - 1)} for _ in range(g.r.randrange(1, 3))]), False)


@kind
def k_namespace(g, d):
    return g.attrs(g.keep(types.SimpleNamespace()), d)


@kind
def k_scalarsub(g, d):
    r = g.r
    k = r.randrange(5)
    if k == 0:
        return g.keep(F.IntSub(rint(r)), False)
    if k == 1:
        return g.keep(F.StrSub(rstr(r)), False)
    if k == 2:
        return g.keep(F.FloatSub(rfloat(r)), False)
    if k == 3:
        return g.keep(F.BytesSub(rbytes(r)), False)
    return g.keep(F.ByteArraySub(rbytes(r)), False)


@kind
def k_exception(g, d):
    k = g.r.randrange(4)
    if k == 0:
        return g.attrs(g.keep(g.r.choice((ValueError, KeyError, RuntimeError, Exception))(*g.values(d, 3)), True, False), d, 2)
    if k == 1:
        return g.keep(F.CustomError(g.r.randrange(99), g.value(d)), True, False)
    if k == 2:
        return g.keep(StopIteration(g.value(d)), False, False)
    return g.keep(ZeroDivisionError(), False, False)


@kind
def k_partial(g, d):
    return g.keep(functools.partial(F.module_function, *g.values(d, 3), **{"k": g.value(d)}), False)


@kind
def k_node(g, d):
    """Tree with parent links."""
    root = g.keep(F.Node("root"))
    for i in range(g.width(4)):
        c = g.keep(F.Node(f"c{i}"))
        c.parent = root
        root.children.append(c)
        if g.r.random() < 0.4:
            c.extra = g.value(d)
    return root


@kind
def k_getset(g, d):
    o = g.keep(F.GetStateAny(None), False)
    o.st = g.r.choice(([g.value(d), 1], {"x": g.value(d)}, (g.value(d), {"y": 1}), "text", 5, [g.value(d)], ("t", 1)))
    o.calls = 1
    return o


@kind
def k_reduce(g, d):
    r = g.r
    k = r.randrange(5)
    if k == 0:
        return g.keep(F.Reduce2(*g.values(d, 3)), False, False)
    if k == 1:
        o = g.keep(F.Reduce3())
        o.built = ()
        o.v = g.value(d)
        return o
    if k == 2:
        o = g.keep(F.Reduce3Set())
        o.built = ()
        o.v = g.value(d)
        return o
    if k == 3:
        o = g.keep(F.Reduce4(), False)
        o.items.extend(g.values(d, 4))
        return o
    o = g.keep(F.Reduce5(), False)
    for v in g.values(d, 4):
        o[hashable_atom(r)] = v
    return o


def cyclic_paths():
    return sys.getrecursionlimit()
