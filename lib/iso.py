"""Oracle: are two object graphs the same graph?

Independent of jsonpickle.  Walks both graphs in lock step and demands the same
types, the same contents (floats bit for bit, order included) and, for objects
whose identity matters, a one-to-one correspondence between the objects of both
sides.
"""

from __future__ import annotations

import array
import collections
import datetime
import decimal
import enum
import fractions
import functools
import io
import ipaddress
import pathlib
import random
import re
import struct
import types
import uuid
import zoneinfo

from core import Violation

ATOMS = (type(None), bool, int, str, bytes, complex, range, type(Ellipsis), type(NotImplemented))
BY_IS = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)
# builtin values without an identity of their own in the document
VALUES = (
    datetime.datetime,
    datetime.date,
    datetime.time,
    datetime.timedelta,
    datetime.timezone,
    zoneinfo.ZoneInfo,
    decimal.Decimal,
    fractions.Fraction,
    uuid.UUID,
    re.Pattern,
    pathlib.PurePath,
    ipaddress.IPv4Address,
    ipaddress.IPv6Address,
    ipaddress.IPv4Network,
    slice,
)
_LEAKS = {"_Proxy", "_IDProxy"}


def float_key(f):
    return "nan" if f != f else struct.pack(">d", f)


def canon(x):
    """Sort key for members of sets."""
    t = type(x)
    name = f"{t.__module__}.{t.__qualname__}"
    if isinstance(x, enum.Enum):
        return (name, str(x))
    if isinstance(x, float):
        return (name, repr(float_key(x)))
    if isinstance(x, (tuple, list)):
        return (name, repr([canon(v) for v in x]), canon_attrs(x))
    if isinstance(x, (set, frozenset)):
        return (name, repr(sorted((canon(v) for v in x), key=repr)))
    if isinstance(x, (int, str, bytes, complex, range, type(None)) + VALUES):
        return (name, ascii(x))
    if hasattr(x, "uid"):
        return (name, ascii(x.uid))
    if hasattr(x, "__dataclass_fields__"):
        return (name, repr([canon(getattr(x, f)) for f in x.__dataclass_fields__]))
    if isinstance(x, BY_IS):
        return (name, getattr(x, "__qualname__", repr(x)))
    return (name, "")


def canon_attrs(x):
    return ascii(sorted(getattr(x, "__dict__", {})))


def slot_state(obj):
    out = {}
    for cls in type(obj).__mro__:
        slots = cls.__dict__.get("__slots__", ())
        for n in (slots,) if isinstance(slots, str) else tuple(slots):
            if n in ("__dict__", "__weakref__"):
                continue
            if n.startswith("__") and not n.endswith("__"):
                n = f"_{cls.__name__.lstrip('_')}{n}"
            d = cls.__dict__.get(n)
            if d is None:
                continue
            try:
                # the descriptor itself, so that every class's own slot is read
                out[f"{cls.__name__}:{n}"] = d.__get__(obj, type(obj))
            except AttributeError:
                pass
    return out


class Compare:
    def __init__(self, ident=True, order=True, what="decoded"):
        self.ident = ident
        self.order = order
        self.what = what
        self.fwd = {}
        self.bwd = {}
        self.keep = []
        self.pairs = set()
        self.visited = 0
        self.shared = 0

    def fail(self, path, why, a, b):
        from core import short

        raise Violation(f"{self.what} graph differs at {path or 'the root'}: {why}", original=short(a), got=short(b))

    def run(self, a, b):
        stack = [("", a, b)]
        while stack:
            path, x, y = stack.pop()
            kids = self.step(path, x, y)
            if kids:
                stack.extend(reversed(kids))
        return self

    def track(self, path, a, b):
        """Returns True when this pair was already walked."""
        key = (id(a), id(b))
        if self.ident:
            fa, fb = self.fwd.get(id(a)), self.bwd.get(id(b))
            if fa is not None and fa is not b:
                self.fail(path, "one object became several", a, b)
            if fb is not None and fb is not a:
                self.fail(path, "several objects became one", a, b)
            if fa is not None:
                self.shared += 1
                return True
            self.fwd[id(a)] = b
            self.bwd[id(b)] = a
            self.keep.append((a, b))
            return False
        if key in self.pairs:
            return True
        self.pairs.add(key)
        self.keep.append((a, b))
        return False

    def step(self, path, a, b):
        self.visited += 1
        ta, tb = type(a), type(b)
        if tb.__name__ in _LEAKS:
            self.fail(path, "an internal placeholder leaked", a, b)
        if ta is not tb:
            self.fail(path, f"type {ta.__module__}.{ta.__qualname__} became {tb.__module__}.{tb.__qualname__}", a, b)
        if ta in ATOMS:
            if a != b:
                self.fail(path, "value changed", a, b)
            return None
        if ta is float:
            if float_key(a) != float_key(b):
                self.fail(path, "float changed", a, b)
            return None
        if isinstance(a, enum.Enum) or isinstance(a, BY_IS):
            if a is not b:
                self.fail(path, "not the same singleton", a, b)
            return None
        if ta is bytearray:
            if a != b:
                self.fail(path, "bytes changed", a, b)
            return None
        if isinstance(a, VALUES):
            return self.values(path, a, b)
        if ta in (tuple,):
            key = (id(a), id(b))
            if key in self.pairs:
                return None
            self.pairs.add(key)
            self.keep.append((a, b))
            return self.sequence(path, a, b)
        if ta in (set, frozenset):
            key = (id(a), id(b))
            if key in self.pairs:
                return None
            self.pairs.add(key)
            self.keep.append((a, b))
            return self.sets(path, a, b)
        if ta in (types.MethodType,):
            if a.__func__ is not b.__func__:
                self.fail(path, "bound method of another function", a, b)
            return [(path + ".__self__", a.__self__, b.__self__)]

        if self.track(path, a, b):
            return None
        if ta is list:
            return self.sequence(path, a, b)
        if ta is dict:
            return self.mapping(path, a, b)
        return self.instance(path, a, b)

    def values(self, path, a, b):
        if isinstance(a, datetime.datetime):
            ka = (a.replace(tzinfo=None), a.fold)
            kb = (b.replace(tzinfo=None), b.fold)
        elif isinstance(a, datetime.time):
            ka = (a.replace(tzinfo=None), a.fold)
            kb = (b.replace(tzinfo=None), b.fold)
        elif isinstance(a, decimal.Decimal):
            ka, kb = a.as_tuple(), b.as_tuple()
        elif isinstance(a, re.Pattern):
            ka, kb = (a.pattern, a.flags), (b.pattern, b.flags)
            if type(a.pattern) is not type(b.pattern):
                self.fail(path, "pattern type changed", a, b)
        elif isinstance(a, datetime.timezone):
            ka, kb = a.__getinitargs__(), b.__getinitargs__()
        elif isinstance(a, zoneinfo.ZoneInfo):
            ka, kb = a.key, b.key
        elif isinstance(a, slice):
            return [
                (path + ".start", a.start, b.start),
                (path + ".stop", a.stop, b.stop),
                (path + ".step", a.step, b.step),
            ]
        else:
            ka, kb = a, b
        if ka != kb or repr(ka) != repr(kb):
            self.fail(path, "value changed", a, b)
        kids = []
        if isinstance(a, (datetime.datetime, datetime.time)):
            kids.append((path + ".tzinfo", a.tzinfo, b.tzinfo))
        if isinstance(a, pathlib.PurePath):
            return kids  # __dict__/slots only hold caches
        if hasattr(a, "__dict__") and type(a).__module__ not in ("fractions",):
            kids.append((path + ".__dict__", dict(a.__dict__), dict(b.__dict__)))
        return kids

    def sequence(self, path, a, b):
        ia, ib = list(_iter(a)), list(_iter(b))
        if len(ia) != len(ib):
            self.fail(path, f"length {len(ia)} became {len(ib)}", a, b)
        return [(f"{path}[{i}]", x, y) for i, (x, y) in enumerate(zip(ia, ib))]

    def sets(self, path, a, b):
        if len(a) != len(b):
            self.fail(path, f"size {len(a)} became {len(b)}", a, b)
        sa = sorted(a, key=lambda v: repr(canon(v)))
        sb = sorted(b, key=lambda v: repr(canon(v)))
        return [(f"{path}{{{i}}}", x, y) for i, (x, y) in enumerate(zip(sa, sb))]

    def mapping(self, path, a, b):
        ia, ib = list(_items(a)), list(_items(b))
        if len(ia) != len(ib):
            ka, kb = [k for k, _ in ia], [k for k, _ in ib]
            self.fail(path, f"{len(ia)} keys became {len(ib)}", ka, kb)
        if not self.order:
            ia.sort(key=lambda kv: repr(canon(kv[0])))
            ib.sort(key=lambda kv: repr(canon(kv[0])))
        kids = []
        for i, ((ka, va), (kb, vb)) in enumerate(zip(ia, ib)):
            kids.append((f"{path}.keys()[{i}]", ka, kb))
            kids.append((f"{path}[{ascii(ka)[:40] if isinstance(ka, (str, int)) else i}]", va, vb))
        return kids

    def instance(self, path, a, b):
        kids = []
        if isinstance(a, collections.OrderedDict):
            order, self.order = self.order, True
            kids += self.mapping(path, a, b)
            self.order = order
        elif isinstance(a, dict):
            kids += self.mapping(path, a, b)
        elif isinstance(a, (list, tuple, collections.deque)):
            kids += self.sequence(path, a, b)
        elif isinstance(a, (set, frozenset)):
            kids += self.sets(path, a, b)
        elif isinstance(a, bool):
            pass
        elif isinstance(a, float):
            if float_key(float(a)) != float_key(float(b)):
                self.fail(path, "value changed", a, b)
        elif isinstance(a, complex):
            kids += [(path + ".real", a.real, b.real), (path + ".imag", a.imag, b.imag)]
        elif isinstance(a, (io.StringIO, io.BytesIO)):
            kids += [(path + ".getvalue()", a.getvalue(), b.getvalue()), (path + ".tell()", a.tell(), b.tell())]
        elif isinstance(a, random.Random):
            kids += [(path + ".getstate()", random.Random.getstate(a), random.Random.getstate(b))]
        elif isinstance(a, int):
            if int(a) != int(b):
                self.fail(path, "value changed", a, b)
        elif isinstance(a, str):
            if str.__str__(a) != str.__str__(b):
                self.fail(path, "value changed", a, b)
        elif isinstance(a, (bytes, bytearray)):
            if bytes(a) != bytes(b):
                self.fail(path, "value changed", a, b)
        elif isinstance(a, array.array):
            if a.typecode != b.typecode or (list(map(float_key, a)) != list(map(float_key, b)) if a.typecode in "fd" else a.tobytes() != b.tobytes()):
                self.fail(path, "array changed", a, b)
        elif isinstance(a, functools.partial):
            kids += [
                (path + ".func", a.func, b.func),
                (path + ".args", a.args, b.args),
                (path + ".keywords", a.keywords, b.keywords),
            ]
        elif isinstance(a, BaseException):
            kids.append((path + ".args", a.args, b.args))
        if isinstance(a, collections.deque) and a.maxlen != b.maxlen:
            self.fail(path, "maxlen changed", a.maxlen, b.maxlen)
        if isinstance(a, collections.defaultdict):
            fa, fb = a.default_factory, b.default_factory
            if fa is None or isinstance(fa, BY_IS) and getattr(fa, "__name__", "") != "<lambda>" and isinstance(fa, type):
                kids.append((path + ".default_factory", fa, fb))
            elif not callable(fb):
                self.fail(path, "default_factory is not callable any more", fa, fb)
            elif fa is not a:
                # factories that are not types come back as equivalent callables
                kids.append((path + ".default_factory()", fa(), fb()))
        if hasattr(a, "__dict__") and not isinstance(a, functools.partial):
            da, db = a.__dict__, getattr(b, "__dict__", None)
            if not isinstance(a, dict) or da is not a:
                ka, kb = sorted(da, key=repr), sorted(db, key=repr)
                if ka != kb:
                    self.fail(path, "attribute names changed", ka, kb)
                kids += [(f"{path}.{k}", da[k], db[k]) for k in da]
        sa, sb = slot_state(a), slot_state(b)
        if list(sa) != list(sb):
            self.fail(path, "set of filled slots changed", list(sa), list(sb))
        kids += [(f"{path}.{k}", sa[k], sb[k]) for k in sa]
        return kids


def _iter(x):
    for base in (list, tuple):
        if isinstance(x, base):
            return base.__iter__(x)
    return iter(x)


def _items(d):
    return dict.items(d) if not isinstance(d, collections.OrderedDict) else collections.OrderedDict.items(d)


def same(a, b, **kw):
    """Raise Violation unless a and b are the same graph; returns the walker."""
    return Compare(**kw).run(a, b)


def differs(a, b, **kw):
    try:
        same(a, b, **kw)
    except Violation as e:
        return str(e)
    return None


def shape(obj, limit=400):
    """A signature of a graph's types, structure and sharing, for counting."""
    seen, out, stack = {}, [], [obj]
    keep = []
    while stack and len(out) < limit:
        x = stack.pop()
        t = type(x)
        if t in ATOMS or t is float:
            out.append(t.__name__[0])
            continue
        if id(x) in seen:
            out.append(f"@{seen[id(x)]}")
            continue
        seen[id(x)] = len(seen)
        keep.append(x)
        out.append(t.__name__)
        if isinstance(x, dict):
            out.append(str(len(x)))
            for k, v in _items(x):
                stack += [k, v]
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            out.append(str(len(x)))
            stack += list(x)
        if hasattr(x, "__dict__") and not isinstance(x, BY_IS):
            stack += list(vars(x).values())
        stack += list(slot_state(x).values()) if not isinstance(x, BY_IS) else []
    return "/".join(out)
