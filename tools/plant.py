#!/usr/bin/env python3
"""Turns bug specifications into seeded/<id>/ directories.

usage: plant.py SPECS.py [DIR]   where SPECS.py defines BUGS, a list of dicts with
id, property, needs, breaks, edits [(file, old, new), ...] and demo (Python).
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(bug):
    tmp = tempfile.mkdtemp(prefix="vp-plant-")
    try:
        work = os.path.join(tmp, "r")
        subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
        for name, old, new in bug["edits"]:
            path = os.path.join(work, name)
            text = open(path, encoding="utf-8").read()
            if text.count(old) != 1:
                print(f"{bug['id']}: {text.count(old)} matches in {name} for:\n{old}")
                return
            with open(path, "w", encoding="utf-8") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", work, "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    out = os.path.join(sys.argv[2] if len(sys.argv) > 2 else os.path.join(ROOT, "seeded"), bug["id"])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "patch.diff"), "w", encoding="utf-8") as f:
        f.write(diff)
    with open(os.path.join(out, "demo.py"), "w", encoding="utf-8") as f:
        f.write(bug["demo"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w", encoding="utf-8") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    meta = {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}
    with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as f:
        json.dump(meta, f, indent=1)
        f.write("\n")


for b in runpy.run_path(sys.argv[1])["BUGS"]:
    plant(b)
    print("planted", b["id"])
