"""Concrete bounds and values for the items of spec/Bounds.tla."""
from gemd.entity.bounds import (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger,
                               UniformInteger, NominalCategorical, DiscreteCategorical,
                               NominalComposition, EmpiricalFormula, Smiles, InChI)

UNITS = {"m": ["m", "meter", "metre"], "cm": ["cm", "centimeter", "centimetre"],
         "mm": ["mm", "millimeter"], "inch": ["inch", "in"], "K": ["K", "kelvin"],
         "degC": ["degC", "celsius", "degree_Celsius"], "degF": ["degF", "fahrenheit"],
         "none": ["", "dimensionless"], "percent": ["percent", "%"], "ppm": ["ppm"],
         "count": ["count"], "radian": ["radian", "rad"], "degree": ["degree", "deg"],
         "bit": ["bit"], "byte": ["byte"], "g": ["g", "gram"], "kg": ["kg", "kilogram"],
         "mole": ["mol", "mole"], "speed": ["m/s", "meter / second", "m s^-1"],
         "kmh": ["km/hour", "kilometer / hour"]}
# monotone maps from ranks 0..4 to integers
INTS = [[-2, -1, 0, 1, 2], [0, 1, 10, 100, 1000],
        [2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 53 + 3],
        [-10 ** 30, -10 ** 30 + 1, 0, 10 ** 18, 10 ** 18 + 1]]
# monotone maps from ranks to reals, in one unit
REALS = [[-2.5, -0.0, 1e-300, 1.5, 1e300], [1.0, 1.0000000000000002, 2, 3, 3.0000000000000004],
         [-1.7976931348623157e308, -5e-324, 0, 5e-324, 1.7976931348623157e308],
         [0.1, 0.2, 0.30000000000000004, 0.7, 0.1 + 0.7]]
# the model's labels as other labels: lookalikes, and large disjoint blocks
LABELS = [{"Na": ["x"], "Cl": ["X"], "O": ["x "]}, {"Na": [""], "Cl": ["\u00e9"], "O": ["e\u0301"]},
          {c: [f"{c}-{i}" for i in range(n)] for c, n in (("Na", 70), ("Cl", 150), ("O", 300))}]


class Realiser:
    def __init__(self, rng, ints=None, reals=None, labels=None):
        self.rng, self.ints, self.reals, self.map = rng, ints or INTS[0], reals, labels

    def labels(self, s):
        """The labels that stand for a set of labels of the model, in some order."""
        s = [y for c in s for y in self.map[c]] if self.map else list(s)
        self.rng.shuffle(s)
        return s

    def num(self, n):
        """A number of the model; ranks when self.reals is given."""
        if self.reals is not None:
            return self.reals[n]
        return self.rng.choice([n, float(n)])

    def bounds(self, x):
        k, r = x["k"], self.rng
        if k == "real":
            return RealBounds(self.num(x["lo"]), self.num(x["hi"]), r.choice(UNITS[x["u"]]))
        if k == "int":
            return IntegerBounds(self.ints[x["lo"]], self.ints[x["hi"]])
        if k == "mol":
            return MolecularStructureBounds()
        s = self.labels(x["s"])
        c = CategoricalBounds if k == "cat" else CompositionBounds
        return c(r.choice([list, tuple, set])(s) if s or r.random() < .5 else None)

    def values(self, x):
        """Every kind of value that counts as this item."""
        k, r = x["k"], self.rng
        if k == "real":
            lo, hi, u = self.num(x["lo"]), self.num(x["hi"]), UNITS[x["u"]]
            yield UniformReal(lo, hi, r.choice(u))
            if x["lo"] == x["hi"]:
                yield NominalReal(lo, r.choice(u))
                yield NormalReal(lo, r.choice([0, .5, 100.]), r.choice(u))
        elif k == "int":
            yield UniformInteger(self.ints[x["lo"]], self.ints[x["hi"]])
            if x["lo"] == x["hi"]:
                yield NominalInteger(self.ints[x["lo"]])
        elif k == "cat":
            s = self.labels(sorted(x["s"]))
            if len(s) == 1:
                yield NominalCategorical(s[0])
                yield DiscreteCategorical(s[0])
            if s:
                p = {c: 1 / 2 ** (i + 1) for i, c in enumerate(s)}
                p[s[-1]] *= 2
                yield DiscreteCategorical(p)
        elif k == "comp":
            s = self.labels(sorted(x["s"]))
            q = [[c, r.choice([1, 2.5, 7])] for c in s]
            yield NominalComposition(r.choice([q, dict(q)]))
            if s and not self.map:
                yield EmpiricalFormula("".join(c + r.choice(["", "2", "13", "0.5"]) for c in s))
        else:
            yield Smiles("C1CC=1")
            yield InChI("InChI=1S/CH4/h1H4")

    def all(self, x):
        yield self.bounds(x)
        yield from self.values(x)


def content(o):
    """Everything public that a bounds or value holds."""
    fields = ("lower_bound", "upper_bound", "default_units", "units", "nominal", "mean", "std",
              "categories", "components", "category", "probabilities", "quantities", "formula",
              "smiles", "inchi")
    res = {"class": type(o).__name__}
    for f in fields:
        if hasattr(o, f):
            v = getattr(o, f)
            if isinstance(v, (set, frozenset)):
                v = tuple(sorted(v))
            elif isinstance(v, dict):
                v = tuple(v.items())
            res[f] = (type(v).__name__, repr(v))
    return res
