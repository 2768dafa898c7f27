"""Runner shared by all checks.

A property module (lib/props/<id>.py) defines

    SCENARIOS: list[Scenario]    workloads; each case gets its own seeded rng
    RULE: str                    how cases are made and what counts as non-trivial
    REQUIRED: tuple[str, ...]    events that must have been observed at least once
    FINDINGS: dict[str, fn]      probes for the entries of known_findings.txt

A scenario function receives (rng, mon) and drives the real code.  It raises
Violation when a monitor sees the property broken.  Cases are split over
forked workers; a worker that dies or makes no progress is itself a violation
by the case it was running.
"""

from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # a copy only while developing
OUT = os.environ.get("VERIF_OUT", VERIF)
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # smaller only while developing
CASE_CPU_S = 20  # CPU seconds one case may burn before it counts as stuck
WALL_S = {"quick": 700, "thorough": 10000}
SETTLED_S = 60  # how long to go on for more detail once there is a violation


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Stuck(BaseException):
    pass


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, jobs=None):
        self.name = name
        self.fn = fn
        # without an own thorough count, the count given is a fourth of the quick one
        self.quick = quick if thorough is not None else quick * 4
        self.thorough = thorough if thorough is not None else quick * 40
        self.jobs = jobs

    def count(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return max(1, int(n * SCALE))


class Mon:
    """What the monitors of one worker observed."""

    def __init__(self):
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = {}
        self.scenario = ""
        self.last = None  # the document encoded last, for samples
        self.case = set()  # what sig() got in the current case
        self.ran = collections.Counter()

    def begin(self):
        self.ran[self.scenario] += 1
        self.case.clear()
        self.last = None

    def end(self):
        """A case counts once, as the set of situations it contained."""
        if self.case:
            self.sigs.add(hashlib.blake2b(b"".join(sorted(self.case)), digest_size=8).digest())

    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """Record a distinct, non-trivial situation that a monitor judged."""
        text = repr(parts)
        h = hashlib.blake2b(text.encode("utf-8", "replace"), digest_size=8)
        self.case.add(h.digest())
        if len(self.samples.get(self.scenario, ())) < 2:
            self.sample(f"{text[:200]} {self.last or ''}")
        self.last = None

    def sample(self, text):
        got = self.samples.setdefault(self.scenario, [])
        if len(got) < 2:
            got.append(str(text)[:400])


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


def short(x, n=600):
    try:
        s = repr(x)
    except BaseException as e:  # noqa
        s = f"<repr failed: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def case_rng(seed, prop, scenario, index):
    return random.Random(f"{seed}/{prop}/{scenario}/{index}")


def _on_timer(signum, frame):
    raise Stuck()


def run_case(fn, rng, mon):
    """Returns None or a dict describing the violation."""
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        fn(rng, mon)
        return None
    except Violation as e:
        return {"kind": "violation", "msg": e.msg, "detail": {k: short(v, 3000) for k, v in e.detail.items()}}
    except Stuck:
        return {"kind": "stuck", "msg": f"no result after {CASE_CPU_S} s of CPU time", "detail": {}}
    except MemoryError:
        return {"kind": "memory", "msg": "memory exhausted", "detail": {}}
    except BaseException as e:  # noqa: anything that escapes is unexpected
        return {
            "kind": "exception",
            "msg": f"unexpected {type(e).__name__}: {short(str(e), 300)}",
            "detail": {"traceback": traceback.format_exc(limit=-14)[-5000:]},
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _settled(found, seconds=SETTLED_S):
    """Whether some worker found a violation a while ago."""
    try:
        return time.time() - os.stat(found).st_mtime > seconds
    except FileNotFoundError:
        return False


def _worker(prop, scenarios, tier, seed, shard, shards, out, progress, found):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mon = Mon()
    violations = []
    slow = 0
    for sc in scenarios:
        mon.scenario = sc.name
        bad = 0
        for i in range(sc.count(tier)):
            # spread cases over shards; scenarios start at different shards
            if (i + len(sc.name)) % shards != shard:
                continue
            os.pwrite(progress, f"{sc.name} {i}".ljust(120).encode(), 0)
            mon.begin()
            v = run_case(sc.fn, case_rng(seed, prop, sc.name, i), mon)
            mon.end()
            if v is not None:
                v.update(scenario=sc.name, index=i)
                violations.append(v)
                try:
                    with open(found, "x", encoding="ascii") as f:
                        json.dump(v, f)
                except FileExistsError:
                    pass
                bad += 1
                if bad >= 3:
                    break
                if v["kind"] in ("stuck", "memory"):
                    slow += 1
                    break
        if slow or _settled(found):
            break  # runaway code: the verdict is settled, do not burn through the rest
    with open(out, "wb") as f:
        pickle.dump((mon.events, mon.sigs, mon.samples, violations, mon.ran), f)


def run_scenarios(prop, scenarios, tier, seed, jobs):
    tmp = tempfile.mkdtemp(prefix="vp-run-")
    found = os.path.join(tmp, "found")
    pids = {}
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for s in range(jobs):
            out = os.path.join(tmp, f"{s}.out")
            prog = os.path.join(tmp, f"{s}.prog")
            fd = os.open(prog, os.O_RDWR | os.O_CREAT)
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.setpgid(0, 0)
                    _worker(prop, scenarios, tier, seed, s, jobs, out, fd, found)
                    code = 0
                except BaseException:  # noqa
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(fd)
            pids[pid] = (s, out, prog)
        events, sigs, samples = collections.Counter(), set(), {}
        violations, ran = [], collections.Counter()
        deadline = time.monotonic() + WALL_S[tier]
        pending = dict(pids)
        errors = []
        while pending:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > deadline or _settled(found, 2 * SETTLED_S):
                    for p in pending:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                    for p in list(pending):
                        os.waitpid(p, 0)
                    if os.path.exists(found):
                        with open(found, encoding="ascii") as f:
                            first = json.load(f)
                        if first not in violations:
                            violations.append(first)
                    errors.append("wall-clock limit reached; undecided")
                    break
                time.sleep(0.02)
                continue
            if pid not in pending:
                continue
            s, out, prog = pending.pop(pid)
            if status == 0 and os.path.exists(out):
                with open(out, "rb") as f:
                    ev, sg, sm, vi, n = pickle.load(f)
                events.update(ev)
                sigs |= sg
                for k, v in sm.items():
                    samples.setdefault(k, []).extend(v)
                violations.extend(vi)
                ran.update(n)
            elif os.WIFSIGNALED(status):
                name, _, idx = open(prog).read().strip().partition(" ")
                violations.append(
                    {
                        "kind": "crash",
                        "msg": f"process died with signal {os.WTERMSIG(status)}",
                        "detail": {},
                        "scenario": name,
                        "index": int(idx or 0),
                    }
                )
            else:
                errors.append(f"worker {s} failed with status {status}")
        return events, sigs, samples, violations, ran, errors
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_findings(prop):
    """Entries of known_findings.txt for this property: {key: text}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                key, _, text = line.split(" ", 2)[2].partition(" ")
                out[key.removeprefix("key=")] = text
    return out


def verify_target():
    import jsonpickle

    path = os.path.abspath(jsonpickle.__file__)
    if not path.startswith(REPO + "/"):
        print(f"jsonpickle was imported from {path}, not from {REPO}", file=sys.stderr)
        sys.exit(2)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scenario", help="only this scenario (debugging; writes no evidence)")
    ap.add_argument("--index", type=int, help="only this case of --scenario")
    ap.add_argument("--replay", help="re-run the case stored in this file")
    args = ap.parse_args(argv)
    start = time.monotonic()
    verify_target()
    mod = importlib.import_module(f"props.{args.property.lower()}")
    prop = args.property
    scenarios = mod.SCENARIOS

    if args.replay:
        rec = json.load(open(args.replay, encoding="utf-8"))
        args.seed, args.scenario, args.index = rec["seed"], rec["scenario"], rec["index"]
    if args.scenario and args.index is not None:
        sc = next(s for s in scenarios if s.name == args.scenario)
        v = run_case(sc.fn, case_rng(args.seed, prop, sc.name, args.index), Mon())
        if v is None:
            print("case passes")
            return 0
        print(v["kind"], v["msg"])
        for k, t in v["detail"].items():
            print(f"  {k}: {t}")
        print(f"VIOLATION property={prop} replay={args.replay or 'inline'}")
        return 1
    if args.scenario:
        scenarios = [s for s in scenarios if s.name == args.scenario]

    events, sigs, samples, violations, ran, errors = run_scenarios(
        prop, scenarios, args.tier, args.seed, args.jobs
    )

    # Known findings: each entry is one specific input with its own probe.
    known = load_findings(prop)
    for key, probe in getattr(mod, "FINDINGS", {}).items():
        if key not in known:
            v = run_case(lambda rng, mon, p=probe: p(), None, Mon())
            if v is not None:
                v.update(scenario="finding:" + key, index=0)
                violations.append(v)
            continue
        v = run_case(lambda rng, mon, p=probe: p(), None, Mon())
        if v is not None:
            print(f"KNOWN-FINDING: property={prop} {known[key]}")

    required = getattr(mod, "REQUIRED", ())
    missing = [] if args.scenario else [e for e in required if not events.get(e)]

    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    shown = 0
    for v in violations:
        if shown >= 10:
            break
        shown += 1
        path = os.path.join(OUT, "replays", f"{prop}-{v['scenario'].replace(':', '_')}-{v['index']}.json")
        rec = {"property": prop, "tier": args.tier, "seed": args.seed, **v}
        with open(path, "w", encoding="utf-8") as f:
            json.dump(rec, f, indent=1)
        print(f"  [{v['scenario']} #{v['index']}] {v['kind']}: {v['msg']}".encode("ascii", "backslashreplace").decode())
        for k, t in list(v["detail"].items())[:4]:
            print(f"      {k}: {t[:800]}".encode("ascii", "backslashreplace").decode())
        print(f"VIOLATION property={prop} replay={path}")

    if not args.scenario:
        flat = [{"scenario": k, "case": c} for k, v in sorted(samples.items()) for c in v[:2]]
        ev = {
            "property": prop,
            "tier": args.tier,
            "seed": args.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(ran.values()),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": flat[:16] or ["no sample recorded"],
                "observed_events": dict(sorted(events.items())),
                "scenarios": dict(sorted(ran.items())),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "violations": len(violations),
            "wall_s": round(time.monotonic() - start, 3),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)

    print(
        f"{prop} {args.tier} seed={args.seed}: {sum(ran.values())} cases, {len(sigs)} distinct, "
        f"{sum(n for k, n in events.items() if k != 'document_chars')} events, {len(violations)} violations, {time.monotonic() - start:.1f}s"
    )
    if violations:
        return 1
    if errors:
        print("error: " + "; ".join(errors), file=sys.stderr)
        return 2
    if missing:
        print(f"inconclusive: never observed {missing}", file=sys.stderr)
        return 2
    return 0
