"""C13: values and bounds are well-formed whenever they exist."""
from collections import UserString
from vp.boundsreal import INTS, content
from vp.core import Graph, replay
from vp.obs import attempt

from gemd.units import parse_units
from gemd.entity.bounds import (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger,
                               UniformInteger, NominalCategorical, DiscreteCategorical,
                               NominalComposition, EmpiricalFormula, Smiles, InChI)

CFG = ("SPECIFICATION Spec\nCONSTANTS MaxRank = {n} Integral = {i} HasUnits = {u}\n"
       "INVARIANTS InvWell InvReach\n")
UNIT = {"u": ["kg", "kilogram"], "v": ["m/s^2", "meter / second ** 2"], "none": [None],
        "unknown": ["JOULE", "not_a_unit", "kgg"], "malformed": ["m**", "m//", "(m", "kg $"]}
REALS = [[0, 1, 2, 3], [-1e308, -.5, 5e-324, 1e308], [1.0, 1.0000000000000002, 2, 1e22]]
BADS = {"none": [None], "nan": [float("nan")], "inf": [float("inf")], "neginf": [float("-inf")],
        "text": ["one", "1", ""], "list": [[1], (1, 2), {}]}


class World:
    """One interval object; checked says whether its endpoint setters check."""

    def __init__(self, cls, ranks, rng):
        self.cls, self.ranks, self.rng = cls, ranks, rng
        self.units = cls in (RealBounds, UniformReal)
        self.unit = "u"
        self.x = self.make(ranks[0], ranks[-1], "kg")

    def make(self, lo, hi, u):
        if not self.units:
            return self.cls(lo, hi)
        return self.cls(lo, hi, u)

    def end(self, x):
        if "r" in x:
            v = self.ranks[x["r"]]
            if not self.units and abs(v) < 2 ** 53 and self.rng.random() < .3:
                v = float(v)
            return v
        if x["bad"] == "frac":
            return self.rng.choice([0.5, self.ranks[0] + .25 if abs(self.ranks[0]) < 1000 else .25,
                                    1.0000000000000002, 1e-300, -5e-324, 2.9999999999999996, 1e15 + .5])
        return self.rng.choice(BADS[x["bad"]])

    def apply(self, op):
        rng = self.rng

        def do():
            o = op["op"]
            if o == "lower":
                self.x.lower_bound = self.end(op["x"])
            elif o == "upper":
                self.x.upper_bound = self.end(op["x"])
            else:
                u = rng.choice(UNIT[op["u"]])
                if o == "units":
                    setattr(self.x, "default_units" if self.cls is RealBounds else "units", u)
                else:
                    self.x = self.make(self.end(op["x"]), self.end(op["y"]), u)
        return attempt(do)[0]

    def project(self):
        x = self.x

        def rank(v):
            want = int if not self.units else (float if self.cls is RealBounds else (int, float))
            if not isinstance(v, want):
                return f"?{v!r}"
            return next((i for i, r in enumerate(self.ranks) if r == v), f"?{v!r}")
        u = "u"
        if self.units:
            s = x.default_units if self.cls is RealBounds else x.units
            u = next((n for n in "uv" if s == parse_units(UNIT[n][0])), f"?{s}")
        return {"lo": rank(x.lower_bound), "hi": rank(x.upper_bound), "u": u}


def intervals(ctx):
    n = 3
    for integral, units, classes in ((True, False, (IntegerBounds, UniformInteger)),
                                     (False, True, (RealBounds, UniformReal))):
        r = ctx.tlc("Interval", CFG.format(n=n, i=str(integral).upper(), u=str(units).upper()))
        edges = list(r.lines("EDGE"))
        for cls in classes:
            es = edges
            if cls is UniformReal:   # its endpoints are checked together, on construction only
                es = [e for e in edges if e["op"]["op"] == "units"
                      or e["op"]["op"] == "construct"
                      and not any(x.get("bad") in ("inf", "neginf", "text", "list")
                                  for x in (e["op"]["x"], e["op"]["y"]))]
            g = Graph(es, edges[0]["from"])
            ctx.sample({"class": cls.__name__, "transitions": g.n, "op": es[-1]["op"]})
            maps = [m[:4] for m in INTS] if integral else REALS
            for m in maps:
                replay(ctx, g, lambda: World(cls, m, ctx.rng), f"{cls.__name__} {m}", max_len=2000)


def tight(bounds_cls, value, labels):
    """Does the value count as exactly these labels, for containment and for merging?"""
    labels = set(labels)
    full = bounds_cls(labels)
    if full.contains(value) is not True:
        return f"is not within {sorted(labels)}"
    for c in labels:
        if bounds_cls(labels - {c}).contains(value) is not False:
            return f"is within {sorted(labels - {c})}"
    for b in (bounds_cls(), bounds_cls(["other"])):
        got = b.union(value)
        got = got.categories if bounds_cls is CategoricalBounds else got.components
        want = labels | ({"other"} if b.contains(bounds_cls(["other"])) else set())
        if set(got) != want:
            return f"merges to {sorted(got)}, expected {sorted(want)}"
    return None


class Cell:
    """A class with one content field, given by construction or by assignment."""

    def __init__(self, ctx, cls, field, good):
        self.ctx, self.cls, self.field, self.good = ctx, cls, field, good

    def check(self, given, ok, stored, row, then=None):
        """Both routes: refused with nothing changed, or stored as expected."""
        for route in ("construct", "assign"):
            self.ctx.rows += 1
            x = self.cls(self.good)
            before = content(x)
            if route == "construct":
                out, got = attempt(lambda: self.cls(given))
                x = x if out == "rejected" else got
            else:
                out, _ = attempt(lambda: setattr(x, self.field, given))
            name = f"{self.cls.__name__}.{self.field} = {given!r} ({route})"
            if (out != "rejected") != ok:
                self.ctx.violation(f"{name}: {out}, the model says "
                                   f"{'accepted' if ok else 'refused'}", row)
            elif out == "warned":
                self.ctx.violation(f"{name}: warned about well-formed content", row)
            elif not ok:
                if content(x) != before:
                    self.ctx.violation(f"{name}: refused, but changed {before} into {content(x)}",
                                       row)
            else:
                v = getattr(x, self.field)
                if v != stored or type(v) is not type(stored):
                    self.ctx.violation(f"{name}: stored as {v!r}, expected {stored!r}", row)
                elif then is not None:
                    err = then(x)
                    if err:
                        self.ctx.violation(f"{name}: {err}", row)


def contents(ctx):
    rows = ctx.table("Content")
    rng = ctx.rng
    disc = Cell(ctx, DiscreteCategorical, "probabilities", "z")
    cat = Cell(ctx, CategoricalBounds, "categories", ["z"])
    comp = Cell(ctx, CompositionBounds, "components", ["z"])
    form = Cell(ctx, EmpiricalFormula, "formula", "Xe")
    inchi = Cell(ctx, InChI, "inchi", "InChI=1S/He")
    for i, row in enumerate(rows):
        if i % 700 == 0:
            ctx.sample(row)
        k, ok, labels = row["kind"], row["ok"], row["labels"]
        if k == "probabilities":
            d = {c: w / 10 for c, w in row["pairs"]}
            c = rng.choice(sorted(d))
            if row["twist"] == "key":
                d[rng.choice([1, None, ("a",), UserString("u")])] = d.pop(c)
            else:
                d[c] += {"no": 0, "tiny": rng.choice([1e-15, -1e-15]),
                         "off": rng.choice([1e-4, -1e-4, .03]), "nan": float("nan")}[row["twist"]]
            disc.check(d, ok, dict(d), row, lambda x: tight(CategoricalBounds, x, labels))
        elif k == "labels":
            q = [rng.choice([1, None, 2.5, ("a",), b"a", UserString("u")]) if e == "nonstring" else e
                 for e in row["items"]]
            for cell, b in ((cat, CategoricalBounds), (comp, CompositionBounds)):
                cell.check({"list": list, "tuple": tuple, "set": set}[row["shape"]](q), ok,
                           set(labels), row, lambda x: tight(b, x, labels))
        elif k == "formula":
            f = "".join(s + rng.choice(["", "2", "0.5", "10"]) for s in row["syms"])
            if len(row["syms"]) > 1 and rng.random() < .3:
                f = f"({f}){rng.choice(['', '2', '3'])}"
            form.check(f, ok, f, row, lambda x: tight(CompositionBounds, x, labels))
        else:
            inchi.check(row["given"], ok, row["stored"], row, lambda x: None if
                        MolecularStructureBounds().contains(x) is True else "not within bounds")
    # content of the wrong type
    for cell, bad in ((disc, [3, ["a"], ("a", 1.0), {"a"}, .5]), (cat, ["abc", 3, {"a": 1}, .5]),
                      (comp, ["abc", 3, {"a": 1}, .5]), (form, [3, ["Na"], {"Na": 1}, b"Na", "Xx", UserString("Na")]),
                      (inchi, [3, ["x"], b"1S/", {}, UserString("InChI=1S/x")]),
                      (Cell(ctx, Smiles, "smiles", "C"), [3, ["C"], b"C", {}, UserString("C")]),
                      (Cell(ctx, NominalCategorical, "category", "c"), [3, ["c"], b"c", {}, UserString("c")]),
                      (Cell(ctx, NominalComposition, "quantities", {"z": 1}),
                       ["ab", 3, {"a"}, ["a", "b"], [1]]),
                      (Cell(ctx, NominalInteger, "nominal", 5),
                       [1.5, "1", None, float("nan"), float("inf"), [1], 3.0000000000000004, 1e-12,
                        -5e-324, 0.9999999999999999, 1e15 + .5, "", {}, float("-inf")])):
        for b in bad:
            cell.check(b, False, None, {"wrong type": repr(b)})
    # content that is kept as it is
    disc.check("only", True, {"only": 1.0}, "a lone category",
               lambda x: tight(CategoricalBounds, x, ["only"]))
    for s in ("C1CC=1", "", " x ", "[NH4+]"):
        Cell(ctx, Smiles, "smiles", "C").check(s, True, s, "smiles")
    for s in ("red", "Red", " red ", "", "\u00e9"):
        Cell(ctx, NominalCategorical, "category", "c").check(
            s, True, s, "category", lambda x: tight(CategoricalBounds, x, [s]))
    for q, st in (({"a": 1.5, "B": 2}, {"a": 1.5, "B": 2}), ([["a", 1], ["b", 2.5]],
                                                            {"a": 1, "b": 2.5}), (None, {}), ([("a", 1), ["b", 0]], {"a": 1, "b": 0}),
                  ({"a": 0}, {"a": 0}), ([["a", 1], ["a", 2]], {"a": 2}), ([], {}), ({"": 1, " a ": 2}, {"": 1, " a ": 2})):
        Cell(ctx, NominalComposition, "quantities", {"z": 1}).check(
            q, True, st, "quantities", lambda x: tight(CompositionBounds, x, st) if all(st.values()) else None)
    for v in (0, -3, 2 ** 53 + 1, 10 ** 25, 4.0):
        Cell(ctx, NominalInteger, "nominal", 5).check(
            v, True, int(v), "integer", lambda x: None if all(
                IntegerBounds(int(v) + a, int(v) + b).contains(x) is (a <= 0 <= b)
                for a, b in ((0, 0), (1, 1), (-1, -1), (-1, 1))) else "counts as something else")


def reals(ctx):
    """Values over the reals: their unit is always one that parses; their number is kept."""
    rng = ctx.rng
    make = {NominalReal: lambda v, u: NominalReal(v, u),
            NormalReal: lambda v, u: NormalReal(v, .5, u),
            UniformReal: lambda v, u: UniformReal(v, v + 1, u)}
    field = {NominalReal: "nominal", NormalReal: "mean", UniformReal: "lower_bound"}
    for cls, mk in make.items():
        for v in (0, 1.5, -2, 1e300, 5e-324, .1):
            for tag, spell in UNIT.items():
                for u in spell:
                    good = tag in "uv"
                    x = mk(1, "s")
                    before = content(x)
                    for route in ("construct", "assign"):
                        ctx.rows += 1
                        if route == "construct":
                            out, y = attempt(lambda: mk(v, u))
                        else:
                            y = mk(v, "s")
                            before = content(y)
                            out, _ = attempt(lambda: setattr(y, "units", u))
                        name = f"{cls.__name__}({v}, {u!r}) ({route})"
                        if (out != "rejected") != good:
                            ctx.violation(f"{name}: {out}")
                        elif good:
                            if y.units != parse_units(UNIT[tag][0]) or getattr(y, field[cls]) != v:
                                ctx.violation(f"{name}: holds {content(y)}")
                            hi = y.upper_bound if cls is UniformReal else v
                            if RealBounds(v, hi, u).contains(y) is not True or (
                                    abs(v) < 1e6 and (
                                        RealBounds(v + .5, hi + 1, u).contains(y)
                                        or RealBounds(v - 1, hi - .5, u).contains(y))):
                                ctx.violation(f"{name}: does not count as its range")
                        elif route == "assign" and content(y) != before:
                            ctx.violation(f"{name}: refused but changed to {content(y)}")
    for bad in (None, "1", [1], {}, "x"):
        ctx.rows += 1
        if attempt(lambda: NominalReal(bad, "m"))[0] != "rejected":
            ctx.violation(f"NominalReal({bad!r}) was accepted")


def run(ctx):
    intervals(ctx)
    contents(ctx)
    reals(ctx)
    ctx.coverage["exhaustive"] = True
    ctx.assumptions.append("non-finite numbers in nominal, normal and uniform reals, and values "
                           "with no content, are left open: the classes do not check them")
