"""P23: damaged documents fail cleanly, and damage in one place does not spread."""

import json

import gen
import iso
import jsonpickle
import vpfix as F
from api import compare, decode, encode, quiet
from core import Scenario, check
from jsonpickle.unpickler import Unpickler

RULE = (
    "Valid documents of random graphs with (a) tags whose payload is of the wrong kind put in random places, where each must become "
    "its documented empty value while the rest, references included, decodes as without it; (b) random structural mutations (keys "
    "and values removed, exchanged, duplicated, retyped, wrong ids) and (c) cut or altered text, where decoding must end with a value "
    "or an ordinary exception within a CPU budget and must not disturb the next call. Distinct by damage and shape."
)
REQUIRED = ("damaged_payloads", "mutants", "mutants_decoded", "mutants_refused", "texts_cut", "followups", "nodes_compared", "references_past_damage", "references_to_damage")
ASSUMPTIONS = ["numbers in mutated documents are small, so that no class is asked for a huge object"]

JUNK = ("", 0, 1, True, False, None, [], {})


def damaged(r):
    """(node, test of the decoded value)"""
    k = r.choice(("b64", "b85", "set", "tuple", "iterator", "id", "type", "function", "bytea", "setn", "tuplen", "members"))
    if k == "b64":
        return {"py/b64": r.choice(("", "x", "!", "\udc00", 0, 1, True, False, None, [], {}, "abc", "a===", 1.5))}, lambda v: v == b"" and type(v) is bytes
    if k == "b85":
        return {"py/b85": r.choice(("", "/", "\udc00", 1, True, None, [], {}, "a b", '"""""', "é"))}, lambda v: v == b"" and type(v) is bytes
    if k == "bytea":
        return {"py/bytea": {r.choice(("py/b64", "py/b85")): r.choice((None, 1, [], ""))}}, lambda v: v == bytearray() and type(v) is bytearray
    if k == "members":
        # sets cannot have such members
        bad = r.choice(({"py/set": []}, {"py/set": [1]}, {"py/bytea": {"py/b64": "AA=="}}, {"py/tuple": [{"py/set": []}]}))
        members = [r.choice((1, "x", None, {"py/tuple": [1]})) for _ in range(r.randrange(0, 3))]
        members.insert(r.randrange(len(members) + 1), bad)
        return {"py/set": members}, lambda v: v == set() and type(v) is set
    if k in ("set", "setn"):
        return {"py/set": r.choice(JUNK + (1.5, -3))}, lambda v: v == set() and type(v) is set
    if k in ("tuple", "tuplen"):
        return {"py/tuple": r.choice(JUNK + (1.5, -3))}, lambda v: v == () and type(v) is tuple
    if k == "iterator":
        return {"py/iterator": r.choice((0, 1, None, True, 1.5))}, lambda v: list(v) == []
    if k == "id":
        return {"py/id": r.choice(("", "x", [], {}, None, "1", "0"))}, lambda v: v is None
    if k == "type":
        n = {"py/type": r.choice(("vpnone.T", "", "x", "builtins.nothing", ".", "vpfix.Plain.nothing", "a..b"))}
        return n, lambda v: v == n
    n = {"py/function": r.choice(("vpnone.f", "", "x", "builtins.nothing", ".", "vpfix.nothing"))}
    return n, lambda v: v is None


def numbered(r):
    """The same for things that are numbered like a list."""
    if r.random() < 0.3:
        return {"py/iterator": r.choice((0, 1, None, True, 1.5))}, lambda v: list(v) == []
    f = r.choice((1, None, True, "x", "", {"py/function": "vpnone.f"}, {"py/type": "vpnone.T"}, {"py/tuple": []}, 2.5))
    args = r.choice(({"py/tuple": []}, {"py/tuple": [1]}, None, 1, "x"))
    return {"py/reduce": r.choice((0, 1, None, True, 1.5, [], "", [f], [f, args], [f, args], [f, args, None], [f, args, None, None, None]))}, lambda v: v == [] and type(v) is list


def payloads(r, mon):
    while True:
        g = gen.Graph(r, share=0.3, budget=r.choice((4, 12, 25)))
        parts = [g.value(3) for _ in range(r.randrange(2, 5))]
        if not any(gen.in_cycle(x) for x in g.by_args):
            break
    holes = []
    if r.random() < 0.4:
        # empty lists, to be replaced by things that are numbered like them
        for _ in range(r.randrange(1, 3)):
            parts.insert(r.randrange(len(parts) + 1), [])
        for x in [x for x in parts if type(x) is list and not x and not any(x is y for y in g.pool)]:
            if r.random() < 0.4:
                parts.append(x)  # a reference to it
        holes = [i for i, x in enumerate(parts) if type(x) is list and not x and not any(x is y for y in [*g.pool, *parts[:i]])]
    # the damaged nodes become items of the outer list or of a dict in it
    f = json.loads(encode(mon, parts))
    check(type(f) is list, "generator")
    want = decode(mon, json.dumps(f))
    tests = []
    for i in holes:
        if f[i] == [] and r.random() < 0.7:
            f[i], ok = numbered(r)
            tests.append((i, f[i], ok))
            for k in [k for k, x in enumerate(parts) if x is parts[i] and k != i]:
                tests.append((k, f[k], lambda v, i=i: v is got[at[i]] or v == [] and "py/iterator" in f[at[i]]))
                want[k] = tests
                mon.event("references_to_damage")
            want[i] = tests  # left out below
    want = [x for x in want if x is not tests]
    mon.event("numbered_damage", len(tests))
    at = list(range(len(f)))
    for _ in range(r.randrange(0 if tests else 1, 4)):
        node, ok = damaged(r)
        i = r.randrange(len(f) + 1)
        if "py/iterator" in node:
            i = len(f)  # an iterator is numbered like a list
        f.insert(i, node)
        tests = [(j + (j >= i), n, t) for j, n, t in tests]
        at = [j + (j >= i) for j in at]
        tests.append((i, node, ok))
    j = json.dumps(f)
    got = decode(mon, j)
    check(type(got) is list and len(got) == len(f), "the outer list changed", document=j, got=got)
    for i, node, ok in tests:
        check(ok(got[i]), f"damaged {node} became {got[i]!r}", document=j)
        mon.event("damaged_payloads")
    rest = [v for n, v in enumerate(got) if n not in {i for i, _, _ in tests}]
    if '"py/id"' in j:
        mon.event("references_past_damage")
    compare(mon, want, rest, j)
    mon.sig("payload", tuple(str(n) for _, n, _ in tests), iso.shape(want, 30))


KINDS = ("list", "dict", "tuple", "set", "plain", "slots", "dataclass", "namedtuple", "listsub", "setsub", "dictsub", "ordered", "default", "node", "getset", "private")
PROBE = [1, {"a": (2, {3})}, F.DC([4], "x")]


def small(v):
    """Replace numbers by small ones."""
    if type(v) is dict:
        return {k: small(x) for k, x in v.items()}
    if type(v) is list:
        return [small(x) for x in v]
    if type(v) in (int, float) and type(v) is not bool:
        return 3 if v != v or abs(v) > 50 else v
    return v


def nodes(doc):
    out, stack = [], [((), doc)]
    while stack:
        path, x = stack.pop()
        out.append((path, x))
        if type(x) is dict:
            stack.extend((path + (k,), v) for k, v in x.items())
        elif type(x) is list:
            stack.extend((path + (i,), v) for i, v in enumerate(x))
    return out


def put(doc, path, v):
    if not path:
        return v
    x = doc
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = v
    return doc


def mutate(r, doc):
    """One random damage; returns (name, doc) which the caller must copy."""
    ns = nodes(doc)
    path, x = r.choice(ns)
    k = r.choice(("junk", "junk", "drop", "swap", "rename", "id", "dup", "wrap", "tag", "class", "copy"))
    if k == "junk":
        return k, put(doc, path, r.choice(JUNK + ("x", -1, 1.5, [[]], {"a": 1}, "py/object")))
    if k == "drop" and path:
        p = doc
        for s in path[:-1]:
            p = p[s]
        del p[path[-1]]
        return k, doc
    if k in ("swap", "copy"):
        p2, y = r.choice(ns)
        y = json.loads(json.dumps(y))
        if k == "swap" and p2[: len(path)] != path and path[: len(p2)] != p2:
            put(doc, p2, json.loads(json.dumps(x)))
        return k, put(doc, path, y)
    tags = [(p, n, key) for p, n in ns if type(n) is dict for key in n if key.startswith("py/")]
    if k == "rename" and tags:
        p, n, key = r.choice(tags)
        new = r.choice(("py/tuple", "py/set", "py/b64", "py/b85", "py/bytea", "py/id", "py/iterator", "py/type", "py/state", "py/seq", "py/newargs", "py/newargsex", "py/initargs", "py/function", "x", "py/reduce", "py/object", "py/repr", "py/mod"))
        return k, put(doc, p, {(new if q == key else q): v for q, v in n.items()})
    if k == "id":
        return k, put(doc, path, {"py/id": r.choice((0, 1, 2, 5, 30, -1, "0", None, 1.5, True))})
    if k == "dup" and type(x) is dict and x:
        a, b = r.choice(list(x)), r.choice(list(x))
        x[a] = json.loads(json.dumps(x[b]))
        return k, doc
    if k == "wrap":
        return k, put(doc, path, {r.choice(("py/tuple", "py/set", "py/iterator", "py/b64", "py/reduce", "py/bytea", "py/state", "py/object", "py/type", "py/function", "py/id", "py/repr", "py/mod")): x})
    if k == "tag" and type(x) is dict:
        x[r.choice(("py/seq", "py/state", "py/newargs", "py/newargsex", "py/initargs", "py/object", "default_factory", "__dict__", "py/default_factory", "py/set", "py/tuple"))] = r.choice(
            JUNK + ([1], {"a": 1}, {"py/tuple": [1, 2]}, [[1], {}], "vpfix.Plain", {"py/type": "builtins.list"}))
        return k, doc
    if k == "class" and tags:
        p, n, key = r.choice(tags)
        n[key] = r.choice(("vpfix.Plain", "vpfix.DC", "vpfix.Frozen", "builtins.object", "builtins.list", "builtins.dict", "builtins.int", "builtins.NoneType", "vpnone.X", "vpfix", "", "collections.OrderedDict",
                           "datetime.date", "fractions.Fraction", "builtins.type", "vpfix.Color", "builtins.str", "builtins.len", 5, None, ["x"]))  # fmt: skip
        return k, doc
    return "junk", put(doc, path, r.choice(JUNK))


def mutants(r, mon):
    kw = {"keys": True} if r.random() < 0.4 else {}
    g = gen.Graph(r, share=0.3, budget=r.choice((3, 8, 20)), kinds=list(KINDS), stdlib=False)
    doc = small(json.loads(encode(mon, g.make(4), **kw)))
    names = []
    for _ in range(r.choice((1, 1, 2, 4))):
        try:
            n, doc = mutate(r, doc)
            doc = json.loads(json.dumps(doc))
        except (KeyError, IndexError, TypeError):
            continue
        names.append(n)
    j = json.dumps(doc)
    dec = dict(kw)
    if r.random() < 0.2:
        dec["v1_decode"] = True
    if r.random() < 0.2:
        dec["on_missing"] = r.choice(("warn", "ignore", "error"))
    u = Unpickler(**dec)
    with quiet():
        try:
            if r.random() < 0.7:
                decode(mon, j, **dec)
            else:
                u.restore(json.loads(j))
            mon.event("mutants_decoded")
        except Exception:
            mon.event("mutants_refused")
        except jsonpickle.errors.ClassNotFoundError:
            check(dec.get("on_missing") == "error", "missing class raised without being asked to", document=j)
            mon.event("mutants_refused")
        except BaseException as e:
            check(False, f"decoding a damaged document raised {type(e).__name__}", document=j)
    mon.event("mutants")
    # the next calls are not affected
    compare(mon, PROBE, decode(mon, encode(mon, PROBE)))
    compare(mon, PROBE, u.restore(json.loads(encode(mon, PROBE))))
    mon.event("followups")
    mon.sig("mutant", tuple(names), iso.shape(doc, 40))


def texts(r, mon):
    """Cut or altered text: the backend's error or a value."""
    g = gen.Graph(r, share=0.2, budget=6, kinds=list(KINDS), stdlib=False)
    j = json.dumps(small(json.loads(encode(mon, [g.make(3)]))))
    k = r.choice(("cut", "cut", "cut", "flip", "insert", "empty"))
    i = r.randrange(len(j))
    t = {"cut": j[:i], "flip": j[:i] + r.choice('"{}[]:,0xé\\ ') + j[i + 1 :], "insert": j[:i] + r.choice('"{}[]:,0xé\\ ') + j[i:], "empty": r.choice(("", " ", "\n", "{", "]", "nul", "'a'", "\x00", "[1,]", '{"a"}', "{1: 2}"))}[k]
    with quiet():
        try:
            decode(mon, t)
            check(k not in ("cut", "empty"), "cut text was decoded", document=t)
        except ValueError:
            mon.event("texts_cut")
        except Exception as e:
            check(k not in ("cut", "empty"), f"cut text raised {type(e).__name__}: {e}", document=t)
    compare(mon, PROBE, decode(mon, encode(mon, PROBE)))
    mon.event("followups")
    mon.sig("text", k, t[:60])


SCENARIOS = [Scenario("payloads", payloads, 9000), Scenario("mutants", mutants, 20000), Scenario("texts", texts, 6000)]
