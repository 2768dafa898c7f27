#!/usr/bin/env python3
"""Runs planted bugs against the tests, their demonstration and the checks.

usage: bugs.py [--jobs N] [--no-tests] [--all-checks] [--save] [ID ...]

Works on copies of /repo under a temporary directory, several at a time.
Development aid only; no registered check uses it.
"""

import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(work, env, tmp):
    xml = os.path.join(tmp, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "--continue-on-collection-errors",
        "-o", "junit_family=xunit2", f"--junitxml={xml}", "jsonpickle", "tests"], work, env)  # fmt: skip
    out = os.path.join(tmp, "out.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{xml}"], work, env)
    passed = set(json.load(open(out))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def one(bug, args):
    d = os.path.join(SEEDED, bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="vp-bug-")
    try:
        work = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
        env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", RUFF_NO_CACHE="true",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PATH="/opt/venv/bin:" + os.environ["PATH"], VERIF_REPO=work,
                   VERIF_OUT=tmp)  # fmt: skip
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], work, env, 300)
        p = subprocess.run(["git", "-C", work, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            return bug, meta["property"], "PATCH FAILS " + p.stderr.strip(), "", ""
        rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], work, env, 300)
        demo = "demo ok" if rc0 == 0 and rc1 != 0 else f"DEMO BAD clean={rc0} patched={rc1} {o0[-300:]} {o1[-300:]}"
        broken = [] if args.no_tests else tests(work, env, tmp)
        t = "tests ok" if not broken else f"TESTS FAIL {broken[:3]}"
        todo = [meta["property"]]
        if args.all_checks:
            todo = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
        res = []
        for c in todo:
            rc, out = sh([PY, "run.py", c, "--tier", args.tier, "--seed", str(args.seed), "--jobs", "4"], ROOT, env)
            caught = rc == 1 and f"VIOLATION property={c} " in out
            if caught:
                first = next((x.strip() for x in out.splitlines() if x.startswith("  [")), "")
                res.append(f"{c} caught {first[:150]}")
            elif c == meta["property"]:
                res.append(f"{c} MISSED rc={rc} {out[-200:] if rc else ''}")
        return bug, meta["property"], demo, t, "; ".join(res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--all-checks", action="store_true")
ap.add_argument("--save", action="store_true", help="record the outcome in tools/catches.json")
ap.add_argument("--property")
ap.add_argument("--dir", default=SEEDED)
args = ap.parse_args()
SEEDED = os.path.abspath(args.dir)
ids = args.ids or sorted(os.listdir(SEEDED))
if args.property:
    ids = [i for i in ids if json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"] == args.property]
with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
    for row in ex.map(lambda b: one(b, args), ids):
        print(" | ".join(row))
        sys.stdout.flush()
        if args.save:
            path = os.path.join(ROOT, "tools", "catches.json")
            table = json.load(open(path)) if os.path.exists(path) else {}
            table[row[0]] = [w.split()[0] for w in row[4].split("; ") if " caught" in w]
            table = {k: v for k, v in sorted(table.items()) if os.path.isdir(os.path.join(SEEDED, k))}
            with open(path, "w") as f:
                json.dump(table, f, indent=1)
                f.write("\n")
