"""P21: plain JSON decodes to plain data, and nothing else happens."""

import json
import sys

import audit
import gen
import iso
import jsonpickle
from api import compare, decode
from core import Scenario, check
from jsonpickle import tags
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random JSON documents without jsonpickle tags as keys, with keys and texts that look like tags, module names, code, dunder names "
    "and references; decoded with every combination of decode options and as data through Unpickler.restore. The result must be the "
    "data itself, freshly built, while an audit hook watches for imports, compilation, execution and file or process events. "
    "Distinct by structure and options."
)
REQUIRED = ("documents", "near_tags", "audited_calls", "restored", "nodes_compared", "big_documents", "texts_untouched", "reencoded")
ASSUMPTIONS = ["keys are not among jsonpickle's own tags; with keys=True they do not start with json://"]

DISPATCH = ("py/tuple", "py/set", "py/b64", "py/b85", "py/bytea", "py/id", "py/iterator", "py/object", "py/type", "py/reduce", "py/function", "py/mod", "py/repr")
NEAR = ["py/", "py", "/py", "PY/OBJECT", "Py/object", " py/object", "py/object ", "py//object", "py/objects", "py/obj", "py/obect", "py/Object", "py\\/object", "py/tuples", "tuple", "py/ids",
        "py/sets", "py/b", "py/b6", "py/b64_", "py/b32", "py/byte", "py/call", "py/exec", "py/eval", "py/import", "py/dict", "py/list", "py/int", "py/class", "py/enum", "py/datetime", "py/ordereddict",
        "__dict__", "__class__", "__reduce__", "__init__", "__module__", "default_factory", "py/default_factor", "json:", "json:/", "JSON://", "json", "$ref", "@type", "id", "type", "object", "",
        "\u0000py/object", "py/object\n", "py/objectx", "py​/object", "ｐy/object", "py/re", "py/rep", "py/seqs", "py/stat", "py/new", "py/module", "py/ini", "value", "values", "base", "dtype"]  # fmt: skip
PASSIVE = ("py/state", "py/seq", "py/newargs", "py/newargsex", "py/initargs", "py/newobj", "py/property", "py/bytes", "py/ref", "py/default_factory")
TEXTS = ["py/object", "py/id", "builtins.eval", "os.system", "vpnomod.Thing", "os/os.getcwd()", "__import__('os')", "json://1", 'json://{"py/object": "vpnomod.T"}', "vpnomod", "null", "NaN", "1", "true",
         '{"py/object": "vpnomod.T"}', "py/tuple", "lambda: 0", "eval('1')"]  # fmt: skip


def key(r, keys, mon):
    k = r.random()
    if k < 0.35:
        mon.event("near_tags")
        return r.choice(NEAR)
    if k < 0.45:
        mon.event("near_tags")
        return r.choice(PASSIVE)
    if k < 0.5 and not keys:
        return r.choice(("json://1", 'json://"a"', 'json://{"py/object": "vpnomod.T"}', "json://"))
    if k < 0.6:
        t = r.choice(DISPATCH)
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice("x/ \té.0P") + t[i:]
        return t
    while True:
        s = gen.rkey(r)
        if s not in DISPATCH and not (keys and s.startswith("json://")):
            return s


def value(r, depth, keys, mon):
    k = r.random()
    if depth == 0 or k < 0.3:
        if r.random() < 0.4:
            return r.choice(TEXTS)
        return r.choice((None, True, False, 0, -1, r.randrange(10**20), gen.rfloat(r), gen.rstr(r), 1e300, -0.0))
    if k < 0.6:
        return [value(r, depth - 1, keys, mon) for _ in range(r.randrange(0, 5))]
    return {key(r, keys, mon): value(r, depth - 1, keys, mon) for _ in range(r.randrange(0, 5))}


def fresh(a, b, seen, what):
    """b repeats no container of its own and none of a."""
    stack = [b]
    while stack:
        x = stack.pop()
        if type(x) in (list, dict):
            check(id(x) not in seen, f"{what}: a container occurs twice or is shared with the input", value=x)
            seen.add(id(x))
            stack.extend(x if type(x) is list else x.values())
    return seen


def containers(a):
    out, stack = set(), [a]
    while stack:
        x = stack.pop()
        if type(x) in (list, dict):
            out.add(id(x))
            stack.extend(x if type(x) is list else x.values())
    return out


def documents(r, mon):
    kw = {}
    if r.random() < 0.4:
        kw["keys"] = True
    if r.random() < 0.3:
        kw["safe"] = r.choice((True, False))
    if r.random() < 0.2:
        kw["v1_decode"] = True
    if r.random() < 0.3:
        kw["on_missing"] = r.choice(("ignore", "warn", "error"))
    if r.random() < 0.2:
        kw["handle_readonly"] = True
    v = value(r, r.choice((0, 2, 4, 6)), kw.get("keys"), mon)
    s = json.dumps(v, ensure_ascii=r.random() < 0.5)
    want = json.loads(s)
    before = set(sys.modules)
    with audit.watching() as log:
        got = decode(mon, s, **kw)
    check(not log, f"decoding plain JSON caused {log[:3]}", document=s, options=kw)
    check(set(sys.modules) == before, "decoding plain JSON imported modules", document=s)
    mon.event("audited_calls")
    compare(mon, want, got, s)
    fresh(None, got, set(), "decoded data")
    mon.event("documents")
    if len(s) > 400:
        mon.event("big_documents")
    mon.sig("doc", iso.shape(want), tuple(sorted(kw.items())))
    data = json.loads(s)
    u = Unpickler(**{k: v for k, v in kw.items()})
    with audit.watching() as log:
        got = u.restore(data)
    check(not log, f"restoring plain data caused {log[:3]}", data=data)
    compare(mon, want, got, s)
    compare(mon, want, data, s)
    fresh(None, got, containers(data), "restored data")
    mon.event("restored")


def texts(r, mon):
    """Any text decodes to itself, at the top and inside containers."""
    t = r.choice(TEXTS) if r.random() < 0.5 else gen.rstr(r, 40)
    if r.random() < 0.3:
        t = r.choice(("py/", "json://", "py/object ", '{"py/id": 1}')) + t
    for v in (t, [t], {"a": t}, [[{"b": [t]}]]):
        with audit.watching() as log:
            j = jsonpickle.encode(v)
            d = decode(mon, j, keys=r.random() < 0.5)
        check(not log, f"text {t!r} caused {log[:2]}")
        check(d == v and type(d) is type(v), "text changed", want=v, got=d)
        check(j == json.dumps(v), "plain data is not written as plain JSON", want=json.dumps(v), got=j)
        mon.event("texts_untouched")
    mon.sig("text", t)


def reencode(r, mon):
    """Plain data (no tag keys) is encoded as what json writes, whatever the options that keep structure."""
    v = value(r, 4, True, mon)
    s = json.dumps(v)
    v = json.loads(s)

    def passive(x):
        if type(x) is dict:
            return any(k in tags.RESERVED or k in ("py/b64", "py/b85") for k in x) or any(map(passive, x.values()))
        return type(x) is list and any(map(passive, x))

    if passive(v):
        return
    kw = {}
    if r.random() < 0.3:
        kw["unpicklable"] = False
    if r.random() < 0.3:
        kw["make_refs"] = False
    if r.random() < 0.3:
        kw["keys"] = True
    j = jsonpickle.encode(v, **kw)
    check(j == s, "plain data is not written as plain JSON", want=s, got=j, options=kw)
    f = Pickler(**kw).flatten(v)
    compare(mon, json.loads(s), f)
    mon.event("reencoded")
    mon.sig("re", iso.shape(v), tuple(kw))


SCENARIOS = [Scenario("documents", documents, 24000), Scenario("texts", texts, 6000), Scenario("reencode", reencode, 8000)]
