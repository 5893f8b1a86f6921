"""
Run the checks against all planted bugs again: python3 tools/recheck.py [id ...]

Each patch is applied to a scratch copy of /repo; the check of its property is run there.
"""
import concurrent.futures
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import VERIF, check, copy, sh  # noqa: E402


def one(i):
    tmp = tempfile.mkdtemp(prefix="recheck-")
    try:
        d = copy(tmp, "repo")
        src = os.path.join(VERIF, "seeded", i)
        r = sh(["git", "apply", src + "/patch.diff"], d)
        if r.returncode:
            return i, "?", "does not apply: " + r.stderr[-200:]
        p = json.load(open(src + "/meta.json"))["property"]
        return i, p, check(p, d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, p, res in ex.map(one, ids):
            print(i, p, res, flush=True)
