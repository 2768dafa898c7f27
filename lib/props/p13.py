"""P13: calls that run at the same time, or inside one another, do not influence each other."""

import array
import datetime
import decimal
import fractions
import os
import random
import re
import sys
import threading

import gen
import iso
import jsonpickle
import jsonpickle.handlers as H
import vpfix as F
from api import compare, decode, encode, quiet
from core import Scenario, Violation, check
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

RULE = (
    "Graphs whose hooks (__getstate__, __setstate__, __getnewargs__, __new__, __reduce__, append, __setitem__, __setattr__, "
    "handlers, iterators) report to the monitor. Nested: complete calls, some failing, run inside the hooks. Threads: 2..4 calls "
    "interleaved under a seeded scheduler that switches at hooks or at any line of jsonpickle, with whole calls run while another one is held at one line (all "
    "lines equally likely), or free-running with a tiny switch interval. Every result is compared with the one obtained alone. Distinct by switch sequence and graph shape."
)
REQUIRED = ("nested_encodes", "nested_decodes", "nested_failures", "hook_switches", "line_switches", "free_calls", "shared_calls", "preemptions")
ASSUMPTIONS = ["objects being encoded are not modified meanwhile", "handlers are registered as classes"]

_local = threading.local()


def tick(point):
    cb = getattr(_local, "cb", None)
    if cb is not None:
        cb(point)


class HookState:
    def __getstate__(self):
        tick("getstate")
        return dict(self.__dict__)

    def __setstate__(self, st):
        tick("setstate")
        self.__dict__.update(st)


class HookNew:
    def __new__(cls, a):
        tick("new")
        o = object.__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        tick("getnewargs")
        return (self.a,)


def rebuild(a):
    tick("rebuild")
    o = object.__new__(HookReduce)
    o.a = a
    return o


class HookReduce:
    def __reduce__(self):
        tick("reduce")
        return rebuild, (self.a,), {k: v for k, v in self.__dict__.items() if k != "a"}


class HookList(list):
    def append(self, x):
        tick("append")
        list.append(self, x)


class HookDict(dict):
    def __setitem__(self, k, v):
        tick("setitem")
        dict.__setitem__(self, k, v)


class HookAttr:
    def __setattr__(self, k, v):
        tick("setattr")
        object.__setattr__(self, k, v)


class HookHandled:
    def __init__(self, a):
        self.a = a


class HandledHandler(H.BaseHandler):
    def flatten(self, obj, data):
        tick("flatten")
        data["a"] = self.context.flatten(obj.a, reset=False)
        tick("flatten2")
        data["b"] = self.context.flatten([obj.a], reset=False)
        return data

    def restore(self, data):
        tick("restore")
        a = self.context.restore(data["a"], reset=False)
        tick("restore2")
        b = self.context.restore(data["b"], reset=False)
        check(type(a) is type(b[0]), "a handler's two views of one value differ", first=a, second=b)
        return HookHandled(a)


H.register(HookHandled, HandledHandler)


@gen.kind
def k_hookstate(g, d):
    return g.attrs(g.keep(HookState()), d)


@gen.kind
def k_hooknew(g, d):
    return g.keep(HookNew(g.value(d - 1)), mutable=False, target=False)


@gen.kind
def k_hookcycle(g, d):
    """Built from an argument that leads back to the object."""
    box = g.r.choice(([], {}))
    o = HookNew(box)
    g.pool.append(o)
    s = HookState()
    s.before = g.leaf()
    for x in (s, o if g.cycles else 1, g.leaf(), HookList([g.leaf()])):
        box.append(x) if isinstance(box, list) else box.__setitem__(f"k{len(box)}", x)
    return o


@gen.kind
def k_hookreduce(g, d):
    o = object.__new__(HookReduce)
    o.a = g.leaf()
    return g.attrs(g.keep(o), d)


@gen.kind
def k_hooklist(g, d):
    o = HookList()
    for v in g.values(d):
        o.append(v)
    return g.keep(o, mutable=False)


@gen.kind
def k_hookdict(g, d):
    o = HookDict()
    for v in g.values(d):
        o[gen.safe_name(g.r)] = v
    return g.keep(o, mutable=False)


@gen.kind
def k_hookattr(g, d):
    return g.attrs(g.keep(HookAttr()), d)


@gen.kind
def k_hookhandled(g, d):
    return g.keep(HookHandled(g.leaf()), mutable=False)


class Zone(datetime.tzinfo):
    def __init__(self, n=0):
        self.n, self.names = n, ["z"]

    def utcoffset(self, dt):
        return datetime.timedelta(minutes=self.n)


@gen.kind
def k_handled(g, d):
    """Values with a handler of jsonpickle's own, around objects that are numbered."""
    r = g.r
    k = r.randrange(6)
    if k == 0:
        v = array.array("i", [r.randrange(9) for _ in range(r.randrange(3))])
    elif k == 1:
        v = datetime.datetime(2020, 1, r.randrange(1, 28), tzinfo=Zone(r.randrange(60)))
    elif k == 2:
        v = re.compile(r.choice((b"a+", "a+", b"x")))
    elif k == 3:
        v = threading.Lock()
        return [g.value(d - 1), g.leaf()]
    elif k == 4:
        v = decimal.Decimal(r.randrange(99))
    else:
        v = fractions.Fraction(r.randrange(9), 7)
    g.keep(v, mutable=False)
    return [v, g.value(d - 1), g.value(d - 1)]


HOOKED = ("hookcycle", "hookstate", "hooknew", "hookreduce", "hooklist", "hookdict", "hookattr", "hookhandled")
KINDS = HOOKED * 2 + ("list", "dict", "plain", "dataclass", "slots", "tuple", "getset") + ("handled",) * 3


def graph(r, budget=12, **kw):
    for _ in range(10):
        v = gen.Graph(r, kinds=KINDS, budget=budget, **kw).make(4)
        if type(v).__module__ == __name__ or type(v) in (list, dict, tuple) and len(v) > 1:
            break
    return v


class Raises:
    def __getstate__(self):
        raise RuntimeError("x")


ENC = ({}, {}, {"keys": True}, {"unpicklable": False}, {"make_refs": False}, {"use_base85": True}, {"indent": 1}, {"separators": (",", ":")},
       {"keys": True, "indent": 0}, {"max_depth": 3}, {"max_iter": 2}, {"warn": True}, {"numeric_keys": True}, {"handler_context": "x"})  # fmt: skip


def job(r, budget=12):
    """(kind, input, expected, options)"""
    kw = r.choice(ENC)
    v = graph(r, budget, share=0.3)
    if "make_refs" in kw:
        v = graph(r, budget, share=0, cycles=False)
    encode_warm(v, kw)
    j = jsonpickle.encode(v, **kw)
    if r.random() < 0.5 or "unpicklable" in kw or "max_depth" in kw:
        return "encode", v, j, kw
    dec = {"keys": True} if "keys" in kw else {}
    if r.random() < 0.2:
        dec["classes"] = {"vpfix.DC": F.Plain}
    return "decode", j, jsonpickle.decode(j, **dec), dec


def encode_warm(v, kw):
    jsonpickle.encode(v, **kw)  # paths and networks cache their text


def run(j):
    kind, arg, want, kw = j
    return jsonpickle.encode(arg, **kw) if kind == "encode" else jsonpickle.decode(arg, **kw)


def judge(mon, j, got, what):
    kind, arg, want, kw = j
    if kind == "encode":
        check(got == want, f"{what}: encode gave another document", want=want, got=got)
        mon.event("document_chars", len(want))
    else:
        try:
            compare(mon, want, got, arg, what=f"{what}: decoded graph")
        except Violation:
            raise


def nested(r, mon):
    """Whole calls inside the hooks of another call."""
    outer = job(r, 10)
    pool = [job(r, 5) for _ in range(3)]
    fired = []

    def cb(point):
        if r.random() < 0.5 or len(fired) > 30:
            return
        depth = getattr(_local, "depth", 0)
        if depth > 1:
            return
        _local.depth = depth + 1
        try:
            k = r.randrange(5)
            fired.append((point, k))
            if k == 0:
                try:
                    jsonpickle.encode([{"a": [1]}, Raises()])
                except RuntimeError:
                    mon.event("nested_failures")
                return
            if k == 1:
                try:
                    jsonpickle.decode('[[1], {"py/object": "vpfix.DC", "py/reduce": [{"py/type": "vpfix.DC"}, {"py/tuple": [1,2,3,4,5]}]}]')
                except TypeError:
                    mon.event("nested_failures")
                return
            j = r.choice(pool)
            judge(mon, j, run(j), f"call inside {point}")
            mon.event(f"nested_{j[0]}s")
        finally:
            _local.depth = depth

    _local.cb = cb
    try:
        got = run(outer)
    finally:
        _local.cb = None
    judge(mon, outer, got, f"call with others inside its hooks {fired}")
    if fired:
        mon.sig("nested", tuple(fired))


BLOCKED_S = 2.0  # after this long a thread is taken to wait for another one


class Sched:
    """Runs one thread at a time; hands over where the threads allow it."""

    def __init__(self, r, fns):
        self.r = r
        self.main = threading.Semaphore(0)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.live = set(range(len(fns)))
        self.trace = []
        self.loose = False
        self.results = [None] * len(fns)
        self.errors = [None] * len(fns)
        self.threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]

    def _body(self, i, f):
        self.sems[i].acquire()
        try:
            self.results[i] = f(i)
        except BaseException as e:  # noqa
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.live.discard(i)
            self.main.release()

    def switch(self, i):
        if self.loose:
            return
        self.main.release()
        self.sems[i].acquire()

    def run(self):
        for t in self.threads:
            t.start()
        while self.live:
            i = self.r.choice(sorted(self.live))
            self.trace.append(i)
            self.sems[i].release()
            if not self.main.acquire(timeout=BLOCKED_S):
                # it waits for another thread, for instance for a lock: let all of them run
                self.loose = True
                for s in self.sems:
                    s.release()
                break
        for t in self.threads:
            t.join()


def _finish(r, mon, s, jobs, what, name):
    s.run()
    n = sum(a != b for a, b in zip(s.trace, s.trace[1:]))
    for i, js in enumerate(jobs):
        if s.errors[i] is not None:
            e = s.errors[i]
            raise Violation(f"{what}: thread {i} raised {type(e).__name__}: {e}", jobs=[j[0] for j in js])
        for j, got in zip(js, s.results[i]):
            judge(mon, j, got, what)
    mon.event(name, n)
    mon.sig(name, tuple(s.trace))


def _jobs(r, n, budget):
    shared = job(r, budget) if r.random() < 0.3 else None
    return [[job(r, budget) if shared is None or r.random() < 0.3 else shared for _ in range(r.choice((1, 2)))] for _ in range(n)], shared


def at_hooks(r, mon):
    jobs, shared = _jobs(r, r.choice((2, 2, 3, 4)), 12)

    def body(i):
        _local.cb = lambda point: s.switch(i)
        try:
            return [run(j) for j in jobs[i]]
        finally:
            _local.cb = None

    s = Sched(r, [body] * len(jobs))
    _finish(r, mon, s, jobs, "calls interleaved at hooks", "hook_switches")
    if shared:
        mon.event("shared_calls")


def at_lines(r, mon):
    jobs, shared = _jobs(r, r.choice((2, 2, 3)), 6)
    p = r.choice((0.005, 0.02, 0.1))

    def body(i):
        rr = random.Random(f"{seed}/{i}")

        def local(frame, event, arg):
            if event == "line" and rr.random() < p:
                s.switch(i)
            return local

        def tr(frame, event, arg):
            if "jsonpickle" in frame.f_code.co_filename:
                return local

        sys.settrace(tr)
        try:
            return [run(j) for j in jobs[i]]
        finally:
            sys.settrace(None)

    seed = r.random()
    s = Sched(r, [body] * len(jobs))
    _finish(r, mon, s, jobs, "calls interleaved at lines", "line_switches")
    if shared:
        mon.event("shared_calls")


PKG = os.path.dirname(jsonpickle.__file__)


def _traced(fn, on_line):
    """Run fn; on_line is called before every line of jsonpickle."""

    def local(frame, event, arg):
        if event == "line":
            on_line((frame.f_code.co_filename, frame.f_lineno))
        return local

    def tr(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return local

    old = sys.gettrace()
    sys.settrace(tr)
    try:
        return fn()
    finally:
        sys.settrace(old)


def preempt(r, mon):
    """One call stopped at one line while other calls run from start to end in another thread; every line is as likely."""
    a, others = job(r, 5), [job(r, 5) for _ in range(r.choice((1, 1, 2)))]
    if r.random() < 0.3:
        others[0] = a
    lines = []
    _traced(lambda: run(a), lines.append)
    target = r.choice(sorted(set(lines)))
    at = r.choice([i for i, x in enumerate(lines) if x == target])
    n, results, threads = [0], [], []

    def body():
        try:
            results.append([run(j) for j in others])
        except BaseException as e:  # noqa
            results.append(e)

    def on_line(x):
        n[0] += 1
        if n[0] == at + 1:
            t = threading.Thread(target=body, daemon=True)
            threads.append(t)
            t.start()
            t.join(BLOCKED_S)

    what = f"another call ran while this one was at line {target[1]} of {os.path.basename(target[0])}"
    try:
        got = _traced(lambda: run(a), on_line)
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__}: {e}", job=a[0], others=[j[0] for j in others]) from e
    judge(mon, a, got, what)
    for t in threads:
        t.join()
    for res in results:
        if isinstance(res, BaseException):
            raise Violation(f"{what}: the other raised {type(res).__name__}: {res}", job=a[0], others=[j[0] for j in others])
        for j, got in zip(others, res):
            judge(mon, j, got, what + ", checking the other")
    mon.event("preemptions", len(threads))
    mon.sig("preempt", os.path.basename(target[0]), target[1], a[0], tuple(j[0] for j in others))


def free(r, mon):
    """Preemptive threads with a tiny switch interval."""
    n = r.choice((2, 4, 8))
    jobs = [[job(r, 12) for _ in range(10)] for _ in range(n)]
    if r.random() < 0.5:
        jobs = [jobs[0]] * n
        mon.event("shared_calls")
    res, err = [None] * n, []
    go = threading.Barrier(n)

    def body(i):
        go.wait()
        try:
            res[i] = [run(j) for j in jobs[i]]
        except BaseException as e:  # noqa
            err.append(f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    check(not err, f"parallel calls raised: {err[:3]}")
    for i in range(n):
        for j, got in zip(jobs[i], res[i]):
            judge(mon, j, got, "parallel calls")
            mon.event("free_calls")


def contexts(r, mon):
    """Several Picklers and Unpicklers driven step by step, interleaved."""
    objs = [graph(r, 8, share=0.3) for _ in range(3)]
    ps = [Pickler() for _ in objs]
    us = [Unpickler() for _ in objs]
    want = [Pickler().flatten(o) for o in objs]
    flats = [[] for _ in objs]
    order = []

    def cb(point):
        k = r.randrange(3)
        if getattr(_local, "depth", 0) or r.random() < 0.5:
            return
        _local.depth = 1
        busy.add(k)
        try:
            if k not in using:
                order.append(k)
                check(repr(ps[k].flatten(objs[k])) == repr(want[k]), "interleaved contexts: flatten gave something else", want=want[k])
                mon.event("nested_encodes")
        finally:
            _local.depth = 0

    for k in range(3):
        using, busy = {k}, set()
        _local.cb = cb
        try:
            flats[k] = ps[k].flatten(objs[k])
            got = us[k].restore(flats[k])
        finally:
            _local.cb = None
        check(repr(flats[k]) == repr(want[k]), "interleaved contexts: flatten gave something else", want=want[k], got=flats[k])
        compare(mon, Unpickler().restore(want[k]), got, what="interleaved contexts:")
    mon.sig("contexts", tuple(order))


def _singleton_handler():
    """Finding: a handler registered as an instance has one context for all calls."""

    class T:
        def __init__(self, a):
            self.a = a

        def __getstate__(self):
            jsonpickle.encode(K())
            return {"a": self.a}

    class K:
        pass

    class KH(H.BaseHandler):
        def flatten(self, obj, data):
            ctx = self.context
            if hasattr(obj, "inner"):
                ctx.flatten(obj.inner, reset=False)
                seen.append(self.context is ctx)
            return data

        def restore(self, data):
            return K()

    seen = []
    H.register(K, KH(None))
    try:
        k = K()
        k.inner = T([1])
        jsonpickle.encode(k)
    finally:
        H.unregister(K)
    check(seen == [True], "the handler's context was replaced while it was working", same_context=seen)


FINDINGS = {"handler-instance-shares-context": _singleton_handler}

SCENARIOS = [
    Scenario("nested", nested, 10000),
    Scenario("at_hooks", at_hooks, 4000),
    Scenario("at_lines", at_lines, 2000),
    Scenario("preempt", preempt, 6000),
    Scenario("free", free, 240),
    Scenario("contexts", contexts, 3000),
]
