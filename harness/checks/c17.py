"""C17: ingredient quantities stay physically sensible at the level in force."""
from vp.boundsreal import content
from vp.core import Graph, replay
from vp.obs import attempt

from gemd.entity.object import IngredientSpec, IngredientRun
from gemd.entity.bounds import RealBounds
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger,
                               NominalCategorical, UniformInteger)
from gemd.entity.bounds_validation import (get_validation_level, set_validation_level,
                                           WarningLevel)

CFG = "SPECIFICATION Spec\nCONSTANT Absolute = {a}\nINVARIANTS InvRejected InvFatal\n"
FIELDS = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
UNITS = {"one": "", "pct": "%", "gkg": "g/kg", "kg": "kg", "L": "liter", "mol": "mol",
         "rad": "rad", "cnt": "count"}
ALT = {"": "dimensionless", "%": "percent", "g/kg": "gram/kilogram", "liter": "cm^3",
       "kg": "gram", "mol": "millimole", "rad": "degree", "count": "count"}
# the model's points as extreme numbers: order, zero and (for fractions of one) one are kept
FAR = {-3000: -1.7e308, -2000: -1e300, -1000: -5e-324, -1: -5e-324, 0: 0., 1: 5e-324, 1000: 1.0,
       1001: 1.0000000000000002, 2000: 1e40, 2500: 1.7976931348623157e308, 9000: 1.7e308}


class World:
    def __init__(self, cls, field, rng, alt, far):
        self.far = far
        self.cls, self.field, self.rng, self.alt = cls, field, rng, alt
        set_validation_level(WarningLevel.WARNING)
        self.mine, self.last, self.made = {}, {}, None
        self.others = {f: (NominalReal(.25, "") if f != "absolute_quantity" else
                           NominalReal(2, "g")) for f in FIELDS if f != field}
        self.x = self.make()

    def make(self, **kw):
        kw = dict(self.others, **kw)
        return self.cls("i", **kw) if self.cls is IngredientSpec else self.cls(**kw)

    def val(self, v):
        u = v["u"]
        if u == "nothing":
            return None
        if u == "junk":
            return self.rng.choice([NominalInteger(1), NominalCategorical("a"), .5, "0.5", 0,
                                    UniformInteger(0, 1), RealBounds(0, 1, ""), [], "",
                                    False])
        key = (v["lo"], v["hi"], u)
        if key in self.last and self.rng.random() < .4:     # the very value given before, perhaps at another level
            return self.last[key]
        lo, hi, unit = v["lo"] / 1000, v["hi"] / 1000, UNITS[u]
        if self.far and u not in ("pct", "gkg"):
            lo, hi = (FAR.get(n, n / 1000) for n in (v["lo"], v["hi"]))
        if self.alt and not self.far and u not in ("pct", "gkg"):
            unit = ALT[unit]      # another unit of the same dimension: the verdict is the same
        if lo != hi:
            x = UniformReal(lo, hi, unit)
        else:
            x = self.rng.choice([lambda: NominalReal(lo, unit), lambda: UniformReal(lo, lo, unit),
                                 lambda: NormalReal(lo, 0.01, unit)])()
        self.mine[id(x)] = (x, v, content(x))
        self.last[key] = self.made = x
        return x

    def apply(self, op):
        def do():
            if op["op"] == "level":
                set_validation_level(op["l"])
            elif op["op"] == "assign":
                setattr(self.x, self.field, self.val(op["v"]))
            else:
                self.x = self.make(**{self.field: self.val(op["v"])})
        return attempt(do)[0]

    def project(self):
        cur = getattr(self.x, self.field)
        st = {"lvl": int(get_validation_level()),
              "cur": {"lo": 0, "hi": 0, "u": "nothing"} if cur is None else
              self.mine[id(cur)][1] if id(cur) in self.mine else "?"}
        near = [self.mine[id(x)] for x in (cur, self.made) if id(x) in self.mine]
        if any(content(x) != was for x, _, was in near):
            st["cur"] = "a value changed"
        if any(getattr(self.x, f) is not y for f, y in self.others.items()):
            st["others"] = "changed"
        return st

    def close(self):
        set_validation_level(WarningLevel.WARNING)


def run(ctx):
    for absolute in (False, True):
        edges = list(ctx.tlc("Quantity", CFG.format(a=str(absolute).upper())).lines("EDGE"))
        g = Graph(edges, edges[0]["from"])
        ctx.sample({"absolute": absolute, "transitions": g.n, "op": edges[-1]["op"]})
        for field in FIELDS[3:] if absolute else FIELDS[:3]:
            for cls in (IngredientSpec, IngredientRun):
                modes = [(False, False), (True, False), (False, True)]
                for alt, far in modes if ctx.thorough else [ctx.rng.choice(modes[:2]), modes[2]]:
                    replay(ctx, g, lambda: World(cls, field, ctx.rng, alt, far),
                           f"{cls.__name__}.{field}", max_len=3000)
    ctx.coverage["exhaustive"] = True
