"""P22: decoding imports and calls only what tags in the document name, and evaluates no text."""

import collections
import importlib.abc
import importlib.machinery
import json
import sys
import types
import warnings

import audit
import gen
import jsonpickle
from api import decode
from core import Scenario, check
from jsonpickle.unpickler import Unpickler

RULE = (
    "Random documents mixing tags that name classes, functions, modules and repr expressions in recording fake modules (existing or "
    "missing, nested, in packages) with the same names as ordinary keys, texts and attribute values. A model predicts every import, "
    "construction and call; the fakes, an import finder and an audit hook report what happened. Distinct by tag structure."
)
REQUIRED = ("documents", "imports_seen", "constructions", "calls", "repr_texts", "types_loaded", "functions_loaded", "missing_names", "overridden", "audited_calls", "unsafe_evals")
ASSUMPTIONS = ["__reduce__ output is trusted: a py/reduce tag names the function that is to be called"]

LOG = []
TREE = {
    "vpm_a": ("Cls", "Other", "func", "value", "Outer", "boom"),
    "vpm_b": ("Cls", "func", "Outer", "boom"),
    "vpm_p": ("Cls", "func", "boom"),
    "vpm_p.sub": ("Cls", "func", "value", "Outer", "boom"),
    "vpm_p.sub.deep": ("Cls", "func", "boom"),
    "vpm_err": None,
}


def make(module, name):
    full = f"{module}.{name}"
    if name == "value":
        return 42
    if name in ("func", "boom"):

        def fn(*a, **k):
            LOG.append(("call", full))
            return ["result", *a]

        fn.__module__, fn.__qualname__, fn.__name__ = module, name, name
        return fn

    def new(cls, *a, **k):
        LOG.append(("new", f"{cls.__module__}.{cls.__qualname__}"))
        return object.__new__(cls)

    def init(self, *a, **k):
        LOG.append(("init", full))

    def build(qual):
        return type(qual.split(".")[-1], (), {"__module__": module, "__qualname__": qual, "__new__": new, "__init__": init, "method": lambda self: LOG.append(("method", full)), "klass": 5})

    cls = build(name)
    if name == "Outer":
        cls.Inner = build("Outer.Inner")
    return cls


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if not name.startswith("vpm_"):
            return None
        LOG.append(("import", name))
        if name not in TREE:
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=name in ("vpm_p", "vpm_p.sub"))

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        names = TREE[module.__name__]
        if names is None:
            raise ImportError("broken module")
        for n in names:
            setattr(module, n, make(module.__name__, n))


class fakes:
    def __enter__(self):
        self.finder = Finder()
        sys.meta_path.insert(0, self.finder)
        clear()
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.finder)
        clear()


def clear():
    for n in [n for n in sys.modules if n.startswith("vpm_")]:
        del sys.modules[n]
    del LOG[:]


MODULES = list(TREE) + ["vpm_none", "vpm_p.none", "vpm_none.x", "vpm_a.x"]
QUALS = {"cls": ("Cls", "Other", "Outer", "Outer.Inner"), "func": ("func",), "bad": ("None_", "Outer.None_", "func.x", "value.y")}


def exists(module, qual):
    """Whether module.qual resolves, and how."""
    if TREE.get(module) is None:
        return False
    top = qual.split(".")[0]
    return top in TREE[module] and qual in ("Cls", "Other", "Outer", "Outer.Inner", "func", "boom", "value")


def attempts(name):
    """Modules that loading a class of this dotted name may try to import."""
    parts = name.split(".")[:-1]
    return {".".join(parts[:i]) for i in range(1, len(parts) + 1)}


class Doc:
    def __init__(self, r, mon, classes):
        self.r, self.mon, self.classes = r, mon, classes
        self.allowed = set()  # imports
        self.calls = collections.Counter()  # predicted constructions and calls
        self.expect = []  # (path in document, check)

    def name(self, kind):
        r = self.r
        m = r.choice(MODULES)
        q = r.choice(QUALS[kind] if r.random() < 0.8 else QUALS["bad"])
        return m, q, f"{m}.{q}"

    def overridden(self, full):
        return full in self.classes or full.rsplit(".", 1)[-1] in self.classes

    def touch(self, full):
        if not self.overridden(full):
            self.allowed |= attempts(full)

    def node(self, depth):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.2:
            return self.noise()
        if k < 0.35:
            return [self.node(depth - 1) for _ in range(r.randrange(4))]
        if k < 0.5:
            keys = {self.plain_key() for _ in range(r.randrange(4))}
            return {k: self.node(depth - 1) for k in sorted(keys)}
        return r.choice((self.object, self.object, self.type, self.function, self.reduce, self.repr, self.mod, self.repr))(depth - 1)

    def plain_key(self):
        return self.r.choice(("a", "b", "vpm_b.Cls", "vpm_a.func", "vpm_p.sub.deep", "vpm_a/vpm_a.boom()", "py/objec", gen.safe_name(self.r)))

    def noise(self):
        return self.r.choice((None, 1, "vpm_a.Cls", "vpm_b", "vpm_a/vpm_a.boom()", "py/object", "vpm_a.boom()", 'vpm_a.__class__', "__import__('vpm_b')", 1.5, True))

    def object(self, depth):
        m, q, full = self.name("cls")
        self.touch(full)
        d = {"py/object": full}
        good = self.overridden(full) or (exists(m, q) and q[0].isupper())
        if exists(m, q) and not q[0].isupper():
            # a function or value in place of a class: leave that to the robustness check
            return {"x": full}
        if good:
            for k in self.r.sample(("x", "y", "zz", "vpm_b"), self.r.randrange(3)):
                d[k] = self.node(depth) if depth > 0 else self.noise()
            if not self.overridden(full):
                self.calls["new", full] += 1
            self.mon.event("constructions")
        else:
            self.mon.event("missing_names")
            d["x"] = self.noise()
        return d

    def type(self, depth):
        m, q, full = self.name(self.r.choice(("cls", "cls", "func")))
        self.touch(full)
        self.mon.event("types_loaded", exists(m, q))
        return {"py/type": full}

    def function(self, depth):
        # what it names is never called, not even when it is a class
        m, q, full = self.name(self.r.choice(("func", "func", "cls")))
        self.touch(full)
        self.mon.event("functions_loaded", exists(m, q))
        return {"py/function": full}

    def reduce(self, depth):
        m = self.r.choice([m for m in TREE if TREE[m]])
        full = f"{m}.func"
        self.touch(full)
        if not self.overridden(full):
            self.calls["call", full] += 1
        else:
            return {"y": full}
        self.mon.event("calls")
        args = [self.node(max(depth - 1, 0)) for _ in range(self.r.randrange(3))]
        return {"py/reduce": [{"py/function": full}, {"py/tuple": args}]}

    def repr(self, depth):
        r = self.r
        m = r.choice([m for m in MODULES if m != "vpm_err"])
        top = m.split(".")[0]
        text = r.choice((f"{top}.boom()", f"{m}.boom()", f"{m}.value", f"{m}.Cls", "__import__('vpm_b')", "1+1", f"{m}.Cls()", f"{m}.boom", "[].append(1)", f"({m}.boom())", f"{m}.Cls.method", "x.y.z", "os.system('true')",
                         f"{m}.Outer.Inner()", f"{m}", f"vpm_b.boom() or {m}.value"))  # fmt: skip
        parts = m.split(".")
        self.allowed |= {".".join(parts[:i]) for i in range(1, len(parts) + 1)}
        self.mon.event("repr_texts")
        return {"py/repr": f"{m}/{text}"}

    def mod(self, depth):
        m = self.r.choice([m for m in MODULES if m != "vpm_err"])
        parts = m.split(".")
        self.allowed |= {".".join(parts[:i]) for i in range(1, len(parts) + 1)}
        return {"py/mod": f"{m}/{self.r.choice((m, m + '.boom()', 'os'))}"}


class Local:
    pass


def documents(r, mon):
    classes = {}
    if r.random() < 0.3:
        for m in r.sample(MODULES, 2):
            classes[f"{m}.Cls"] = Local
        if r.random() < 0.3:
            classes["Other"] = Local
        mon.event("overridden")
    doc = Doc(r, mon, classes)
    d = doc.node(r.choice((1, 2, 3, 4)))
    s = json.dumps(d)
    kw = {"classes": classes} if classes else {}
    if r.random() < 0.2:
        kw["safe"] = True
    if r.random() < 0.2:
        kw["keys"] = True
    if r.random() < 0.2:
        kw["on_missing"] = "ignore"
    with fakes():
        with audit.watching() as log:
            if r.random() < 0.8:
                decode(mon, s, **kw)
            else:
                c = kw.pop("classes", None)
                Unpickler(**kw).restore(json.loads(s), classes=c)
        seen = list(LOG)
    mon.event("audited_calls")
    imports = {n for k, n in seen if k == "import"}
    mon.event("imports_seen", len(imports))
    check(imports <= doc.allowed, f"modules were imported that no tag names: {sorted(imports - doc.allowed)}", document=s, options=kw)
    calls = collections.Counter(x for x in seen if x[0] != "import")
    check(calls == doc.calls, f"calls differ: unexpected {sorted((calls - doc.calls).elements())[:4]}, missing {sorted((doc.calls - calls).elements())[:4]}", document=s)
    for e, a in log:
        ok = e == "import" and a[2:].split("'")[0].startswith("vpm_")
        check(ok, f"decoding caused {e} {a}", document=s)
    mon.event("documents")
    mon.sig("doc", tuple(sorted(doc.allowed)), tuple(sorted(doc.calls.items())), len(s))


def reprs(r, mon):
    """py/repr: by default only a name is looked up; with safe=False the text is evaluated."""
    n = r.randrange(1, 50)
    cases = [
        ("datetime/datetime.timedelta(%d)" % n, lambda v: v == __import__("datetime").timedelta(n)),
        ("fractions/fractions.Fraction(%d, 7)" % n, lambda v: v == __import__("fractions").Fraction(n, 7)),
        ("collections/collections.OrderedDict([(1, %d)])" % n, lambda v: v == {1: n}),
        ("vpm_a/vpm_a.boom()", lambda v: v == ["result"]),
        ("vpm_a/vpm_a.boom(%d)" % n, lambda v: v == ["result", n]),
    ]
    text, good = r.choice(cases)
    where = r.choice((lambda x: x, lambda x: [x], lambda x: {"a": x}, lambda x: {"py/tuple": [x]}))
    s = json.dumps(where({"py/repr": text}))

    def get(v):
        while type(v) in (list, tuple, dict) and len(v) == 1 and v != ["result"]:
            v = v[0] if type(v) is not dict else v.get("a", v.get(1) and None)
        return v

    with fakes():
        with audit.watching() as log:
            got = decode(mon, s)
        check(not [e for e in log if e[0] != "import"], f"py/repr was evaluated: {log[:3]}", document=s)
        check(not [x for x in LOG if x[0] != "import"], f"py/repr called {LOG}", document=s)
        clear()
        bare = decode(mon, json.dumps({"py/repr": text}))
        check(bare is None, "py/repr with a call gives something by default", document=s, got=bare)
        clear()
        with audit.watching() as log:
            v = decode(mon, json.dumps({"py/repr": text}), safe=False)
        check(good(v), "py/repr with safe=False is not evaluated", document=s, got=v)
        check([e for e in log if e[0] in ("compile", "exec")], "no evaluation observed", document=s)
    mon.event("unsafe_evals")
    mon.sig("repr", text, s)


SCENARIOS = [Scenario("documents", documents, 24000), Scenario("reprs", reprs, 2000)]
