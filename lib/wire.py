"""The document format, written down a second time.

An encoder for the documented tags that shares no code with jsonpickle, used
as the reference for what stored documents look like.  Objects are numbered
from 0 in the order in which they are met: lists, dicts and instances get a
number before their contents, everything else none.
"""

import base64
import collections
import datetime
import enum
import json
import types
import uuid

RESERVED = {"py/" + t for t in ("bytes bytea function id initargs iterator mod newargs newargsex newobj object property reduce default_factory ref repr seq set state tuple type b64 b85".split())}


def name(o):
    module = o.__module__ or "builtins"
    return f"{module}.{getattr(o, '__qualname__', o.__name__)}"


class Writer:
    def __init__(self, keys=False, number_dicts=True, b85=False):
        self.ids = {}
        self.alive = []
        self.keys = keys
        self.number_dicts = number_dicts
        self.b85 = b85

    def number(self, o):
        """None when new, otherwise the reference."""
        if id(o) in self.ids:
            return {"py/id": self.ids[id(o)]}
        self.alive.append(o)
        self.ids[id(o)] = len(self.ids)
        return None

    def write(self, o):
        t = type(o)
        if o is None or t in (bool, int, float, str):
            return o
        if t is bytes:
            return {"py/b85": base64.b85encode(o).decode()} if self.b85 else {"py/b64": base64.b64encode(o).decode()}
        if t is bytearray:
            return {"py/bytea": self.write(bytes(o))}
        if t is tuple:
            return {"py/tuple": [self.write(v) for v in o]}
        if t is set:
            return {"py/set": [self.write(v) for v in o]}
        if isinstance(o, type):
            return {"py/type": name(o)}
        if t in (types.FunctionType, types.BuiltinFunctionType):
            return {"py/function": name(o)}
        if t is dict and not self.number_dicts:
            return self.mapping(o, {})
        ref = self.number(o)
        if ref is not None:
            return ref
        if t is list:
            return [self.write(v) for v in o]
        if t is dict:
            return self.mapping(o, {})
        return self.instance(o)

    def mapping(self, o, out):
        if not self.keys:
            for k, v in o.items():
                assert type(k) is str and k not in RESERVED
                out[k] = self.write(v)
            return out
        for k, v in o.items():
            if type(k) is str:
                if k.startswith("json://") or k in RESERVED:
                    k = "json://" + json.dumps(k)
                out[k] = self.write(v)
        for k, v in o.items():
            if type(k) is not str:
                k = "json://" + json.dumps(self.write(k))
                out[k] = self.write(v)
        return out

    def instance(self, o):
        t = type(o)
        getattr(o, "__dict__", None)  # exceptions only reduce it once it was looked at
        if isinstance(o, (datetime.datetime, datetime.date, datetime.time)) and not isinstance(o, enum.Enum):
            state = o.__reduce_ex__(4 if getattr(o, "fold", 0) else 2)
            args = [base64.b64encode(a).decode() if type(a) is bytes else self.write(a) for a in state[1]]
            return {"py/object": name(t), "__reduce__": [{"py/type": name(t)}, args]}
        if t is uuid.UUID:
            return {"py/object": "uuid.UUID", "hex": o.hex}
        if (t.__reduce__ is not object.__reduce__ or t.__reduce_ex__ is not object.__reduce_ex__) and not isinstance(o, (set, collections.defaultdict)):
            return self.reduced(o.__reduce_ex__(2))
        out = {"py/object": name(t)}
        if isinstance(o, tuple) and hasattr(t, "_fields"):
            out["py/newargs"] = self.write(tuple(o))
            out["py/seq"] = [self.write(v) for v in o]
            return out
        if hasattr(t, "__getnewargs__"):
            out["py/newargs"] = self.write(o.__getnewargs__())
        if "__getstate__" in dir(t) and t.__getstate__ is not object.__getstate__:
            out["py/state"] = self.write(o.__getstate__())
            return out
        if isinstance(o, dict):
            factory = getattr(o, "default_factory", None)
            self.mapping(o, out)
            if factory is not None:
                out["py/default_factory" if "default_factory" in out else "default_factory"] = {"py/type": name(factory)}
            if hasattr(o, "__dict__") and (o or vars(o)):
                self.number(vars(o))
                out["__dict__"] = self.mapping(vars(o), {})
            return out
        self.attributes(o, out)
        if isinstance(o, (list, set)):
            out["py/seq"] = [self.write(v) for v in o]
        return out

    def attributes(self, o, out):
        if hasattr(o, "__dict__"):
            self.mapping(vars(o), out)
        names = {}
        for c in type(o).__mro__:
            slots = c.__dict__.get("__slots__", ())
            for s in (slots,) if type(slots) is str else slots:
                private = s.startswith("__") and not s.endswith("__")
                mangled = f"_{c.__name__.lstrip('_')}{s}" if private else s
                names.setdefault(s if c is type(o) else mangled, mangled)
        for k, attr in names.items():
            if hasattr(o, attr):
                out[k] = self.write(getattr(o, attr))

    def reduced(self, rv):
        rv = list(rv) + [None] * (6 - len(rv))
        if getattr(rv[0], "__name__", "") == "__newobj__":
            rv[0] = "py/newobj"
        for i in (3, 4):
            if rv[i] is not None:
                rv[i] = tuple(rv[i])
        out = [self.write(v) for v in rv]
        while len(out) > 2 and out[-1] is None:
            out.pop()
        return {"py/reduce": out}


def write(o, **kw):
    return Writer(**kw).write(o)
