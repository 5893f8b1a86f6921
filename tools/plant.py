"""
Plant bugs: python3 tools/plant.py SEEDS.py [id ...]

SEEDS.py defines SEEDS = [{id, property, edits: [(file, old, new)], demo, needs, breaks}].  Each is
made in a scratch copy of /repo; it is kept in seeded/<id>/ when the tests still pass with it and
the demonstration passes without it and fails with it.  Then the property's check is run.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=1500)


def copy(tmp, name):
    d = os.path.join(tmp, name)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def one(s):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        d = copy(tmp, "repo")
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s, f"edit of {f} matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        out = os.path.join(VERIF, "seeded", s["id"])
        stage = os.path.join(tmp, "stage")
        os.makedirs(stage)
        open(stage + "/demo.sh", "w").write(DEMO)
        open(stage + "/demo.py", "w").write(s["demo"].strip() + "\n")
        os.chmod(stage + "/demo.sh", 0o755)
        open(stage + "/patch.diff", "w").write(sh(["git", "diff"], d).stdout)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(stage + "/meta.json", "w"), indent=1)
        a = sh(["bash", stage + "/demo.sh"], "/repo")
        if a.returncode:
            return s, "demo fails on the unchanged tree: " + a.stderr[-600:]
        b = sh(["bash", stage + "/demo.sh"], d)
        if not b.returncode:
            return s, "demo passes with the change"
        t = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], d,
               PYTHONPATH=d)
        if t.returncode:
            return s, "tests fail: " + t.stdout[-600:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        return s, check(s["property"], d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, d):
    if not os.path.exists(f"{VERIF}/harness/checks/{prop.lower()}.py"):
        return "KEPT (no check yet)"
    r = sh(["bash", VERIF + "/bin/check", prop], VERIF, VERIF_REPO=d)
    m = re.search(r"VIOLATION property=.*\n.*", r.stdout)
    return {0: "KEPT, MISSED", 1: "KEPT, caught: " + (m.group(0).splitlines()[1][:150] if m else "?")
            }.get(r.returncode, "KEPT, ERROR " + r.stderr[-400:])


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    seeds = [s for s in seeds if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for s, res in ex.map(one, seeds):
            print(f"{s['id']} {s['property']}: {res}", flush=True)
