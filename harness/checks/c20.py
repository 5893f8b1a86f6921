"""C20: switching the unit definitions takes effect completely or not at all."""
import os
import tempfile
from pathlib import Path

from vp.core import Graph, replay

from gemd.units import parse_units, convert_units, get_base_units, change_definitions_file
from gemd.entity.value import NominalReal
from gemd.entity.bounds import RealBounds

CFG = "SPECIFICATION Spec\nINVARIANTS InvFresh\n"
PROBES = ["m", "meter", "metre", "zed", "only1", "only2", "inch", "zorkmid"]
F1 = {1: "meter = [length] = m\nsecond = [time] = s\nzed = 2 * meter\nonly1 = 7 * meter\n",
      2: "meter = [length] = m\nsecond = [time] = s\nzed = 3 * meter\ninch = 4 * meter\n"}


class World:
    def __init__(self, scratch, rng):
        self.rng = rng
        self.dir = Path(tempfile.mkdtemp(dir=scratch))
        self.cwd = self.dir / "work"
        self.cwd.mkdir()
        (self.dir / "two" / "inner").mkdir(parents=True)
        self.files = {"F1": self.dir / "one.txt", "F2": self.dir / "two" / "main file.txt",
                      "missing": self.dir / "nowhere.txt", "malformed": self.dir / "bad.txt",
                      "broken_import": self.dir / "broken.txt", "directory": self.dir / "two",
                      "unbalanced": self.dir / "unbalanced.txt"}
        self.files["F1"].write_text(F1[1])
        self.files["F2"].write_text("metre = [length] = m\n@import inner/more.txt\n"
                                    "zed = 5 * metre\nonly2 = 2 * three\n")
        (self.dir / "two" / "inner" / "more.txt").write_text("three = 3 * metre\n")
        self.files["malformed"].write_text("meter = [length] = m\nzed = 9 * meter\nthis is not a definition\n")
        self.files["broken_import"].write_text("meter = [length] = m\n@import not_there.txt\n")
        self.files["unbalanced"].write_text("meter = [length] = m\nzed = 8 * (meter\n")
        for n, p in list(self.files.items()):
            (self.dir / ("ln_" + n)).symlink_to(p)
        self.old, self.home = os.getcwd(), os.environ.get("HOME")
        os.environ["HOME"] = str(self.dir)
        os.chdir(self.cwd)
        change_definitions_file()
        self.s = {"cur": "default", "ver": 1, "f1": 1}

    def apply(self, op):
        if op["op"] == "edit":
            self.files["F1"].write_text(F1[op["v"]])
            self.s["f1"] = op["v"]
            return "ok"
        to = op["to"]
        if to == "default":
            args = self.rng.choice([(), (None,)])
        else:
            p, via = self.files[to], op["via"]
            args = (self.rng.choice([str(p), f"~/{p.relative_to(self.dir)}"]) if via == "absolute" else os.path.relpath(p, self.cwd)
                    if via == "relative" else p if via == "path" else str(self.dir / ("ln_" + to)),)
            if via == "link" and to in ("F2", "broken_import"):
                args = (str(p),)
        try:
            change_definitions_file(*args)
        except Exception:
            return "rejected"
        self.s["cur"] = to
        self.s["ver"] = self.s["f1"] if to == "F1" else 1
        return "ok"

    def project(self):
        v = {}
        base = None
        for p in PROBES:
            try:
                name = parse_units(p)
                if f"{parse_units(p, return_unit=True)}" != name:
                    name += " (as a unit differs)"
            except Exception:
                v[p] = {"name": "", "fac": 0}
                try:
                    get_base_units(p)
                    v[p] = {"name": "", "fac": "base units known"}
                except Exception:
                    pass
                try:
                    NominalReal(1, p)
                    v[p] = {"name": "", "fac": "accepted by a value"}
                except Exception:
                    pass
                continue
            base = f"{get_base_units('m')[0]}"
            fac = convert_units(1.0, p, base)
            u, ratio, off = get_base_units(p)
            ok = abs(ratio - fac) < 1e-12 and off == 0 and f"{u}" == base
            x = NominalReal(1, p)
            ok = ok and x.units == name and RealBounds(fac - .001, fac + .001, base).contains(x) \
                and not RealBounds(fac + .001, fac + 1, base).contains(x)
            v[p] = {"name": name, "fac": round(fac * 10000) if ok else "inconsistent"}
        st = {"s": dict(self.s), "v": v}
        if Path.cwd() != self.cwd:
            st["cwd"] = str(Path.cwd())
            os.chdir(self.cwd)
        return st

    def close(self):
        os.chdir(self.old)
        os.environ.pop("HOME")
        if self.home is not None:
            os.environ["HOME"] = self.home
        change_definitions_file()


def run(ctx):
    edges = list(ctx.tlc("Definitions", CFG).lines("EDGE"))
    g = Graph(edges, edges[0]["from"])
    ctx.sample({"transitions": g.n, "op": edges[-1]["op"]})
    for _ in range(5 if ctx.thorough else 1):
        replay(ctx, g, lambda: World(ctx.scratch, ctx.rng), "definitions", max_len=100)
    ctx.coverage["exhaustive"] = True
