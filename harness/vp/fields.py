"""Arguments of every kind of Fields.tla."""
import inspect

import gemd.entity as E

from . import samples

BASE = {"PropertyTemplate": dict(name="t", bounds=E.IntegerBounds(0, 1)),
        "ConditionTemplate": dict(name="t", bounds=E.IntegerBounds(0, 1)),
        "ParameterTemplate": dict(name="t", bounds=E.IntegerBounds(0, 1)),
        "PropertyAndConditions": dict(property=E.Property("p")), "IngredientRun": {}, "PerformedSource": {}}
GOOD = {"tags": "str", "labels": "str", "allowed_names": "str", "allowed_labels": "str", "file_links": "FileLink"}
TPL = {"properties": "PropertyTemplate", "conditions": "ConditionTemplate", "parameters": "ParameterTemplate"}
ATT = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}
_subs = {}


def subclass(cls):
    """A user's own subclass."""
    if cls not in _subs:
        _subs[cls] = type("My" + cls.__name__, (cls,), {})
    return _subs[cls]


class Lookalike:
    """Has all the public attributes of an object, but is of no relation."""

    def __init__(self, x):
        for n in dir(x):
            if not n.startswith("__"):
                try:
                    setattr(self, n, getattr(x, n))
                except Exception:
                    pass


class Maker:
    accepts = {}    # (class, field) -> kinds, filled in by the checks

    def __init__(self, rng):
        self.rng, self.k, self.fields, self.samples = rng, 0, {}, samples.instances()

    def entity(self, name, sub=False):
        cls = getattr(E, name)
        if sub:
            cls = subclass(cls)
        return cls(**BASE.get(name, dict(name="o")))

    def make(self, kind, row):
        """(argument, what must be stored for it)"""
        r = self.rng
        if row["card"] == "entries":
            got = self.entry(kind, row)
            if got is not None:
                return got
        if kind == "none":
            x = None
        elif kind == "empty_list":
            x = []
        elif kind == "empty_tuple":
            x = ()
        elif kind == "class":
            x = r.choice([str, E.MaterialRun, E.LinkByUID, E.FileLink, E.ProcessTemplate, E.Condition])
        elif kind == "lookalike":
            ok = sorted(k for k in self.accepts.get((row["class"], row["field"]), []) if hasattr(E, k)) or ["MaterialRun"]
            x = Lookalike(self.make(r.choice(ok), dict(row, card="one"))[0])
        elif kind == "object":
            x = object()
        elif kind == "str":
            self.k += 1
            x = r.choice(["", "text", "unknown", "a::b"]) + (str(self.k) if r.random() < .5 else "")
        elif kind in ("int", "float", "bool"):
            x = {"int": [0, 1, -3], "float": [0.0, .5], "bool": [True, False]}[kind]
            x = r.choice(x)
        else:
            cls = getattr(E, kind)
            x = self.instance(kind, cls, r.random() < .3)
        return x, x

    def instance(self, kind, cls, sub):
        """A fresh object of a class, or of a user's subclass of it."""
        if kind not in self.fields:
            d = self.samples[kind].dump()
            names = inspect.signature(cls).parameters
            self.fields[kind] = {k: v for k, v in d.items() if k in names}
            try:
                cls(**self.fields[kind])
            except Exception:
                self.fields[kind] = BASE.get(kind, dict(name="o"))
        return (subclass(cls) if sub else cls)(**self.fields[kind])

    def entry(self, kind, row):
        r = self.rng
        right = TPL[row["field"]]
        wrong = r.choice([t for t in TPL.values() if t != right])
        rb, inner, outer = E.RealBounds(0, 10, "m"), E.RealBounds(2, 3, "m"), E.RealBounds(5, 11, "m")

        def tpl(name):
            return getattr(E, name)("t", bounds=rb)
        t, link = tpl(right), E.LinkByUID("s", "i")
        seq = r.choice([list, tuple])
        if kind == right:
            return t, [t, None]
        if kind == "LinkByUID":
            return link, [link, None]
        pairs = {"pair_none": [t, None], "pair_bounds": [t, r.choice([inner, rb])], "pair_link": [link, inner],
                 "pair_link_none": [link, None], "pair_out": [t, r.choice([outer, E.IntegerBounds(0, 1)])],
                 "pair_second": [t, r.choice(["x", 1, t, link])], "pair_wrong": [tpl(wrong), inner],
                 "pair_wrong_none": [tpl(wrong), None], "pair_swapped": [inner, t], "triple": [t, inner, inner]}
        if kind in pairs:
            p = pairs[kind]
            return seq(p), p
        return None

    def good(self, row):
        """A proper item, and what is stored for it."""
        f = row["field"]
        if row["card"] == "entries":
            return self.make(TPL[f], row)
        kind = GOOD.get(f)
        if kind is None:
            kind = "PropertyAndConditions" if row["class"] == "MaterialSpec" else ATT[f]
        x, s = self.make(kind, row)
        return x, s
