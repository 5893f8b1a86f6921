"""Entry point: run the check of one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from vp import core, obs  # noqa: E402,F401


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    sys.exit(ctx.main(lambda: importlib.import_module("checks." + prop.lower()).run(ctx)))


if __name__ == "__main__":
    main()
