"""Random GEMD object graphs, attributes, values, bounds and containers of them."""
import copy
import uuid

from gemd.entity.attribute import Property, Condition, Parameter, PropertyAndConditions
from gemd.entity.bounds import (RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds,
                                MolecularStructureBounds)
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.file_link import FileLink
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
                                IngredientRun, MeasurementSpec, MeasurementRun)
from gemd.entity.source.performed_source import PerformedSource
from gemd.entity.template import (PropertyTemplate, ConditionTemplate, ParameterTemplate,
                                  ProcessTemplate, MaterialTemplate, MeasurementTemplate)
from gemd.entity.value import (NominalReal, UniformReal, NormalReal, NominalInteger, UniformInteger,
                               NominalCategorical, DiscreteCategorical, NominalComposition,
                               EmpiricalFormula, Smiles, InChI)

WORDS = ["a", "b", "gamma", "Ünïcode ☃", "with space", "", "quote\"d", "back\\slash", "new\nline",
         "type", "uids", "0", "None", "a/b::c", "𝔸stral", "tab\t", "<&>", "null"]
UNITS = ["", "kg", "g/cm^3", "m", "degC", "percent", "g / 2.5 cm", "m * 5 s", "1/s", "K", "J/(kg K)"]
FLOATS = [0.0, 1.0, -1.5, 0.1, 1e-320, 1.7976931348623157e308, 2.0000000000000004, 3, -7, 10 ** 18, -0.0]
ATTR = {"property": (Property, PropertyTemplate), "condition": (Condition, ConditionTemplate),
        "parameter": (Parameter, ParameterTemplate)}


SUBS = {}


class Mixin:
    """Something of the user's that a subclass may inherit as well."""

    def shout(self):
        return str(self)


class Gen:
    def __init__(self, rng, ids="mixed", links=.12, rich=.5, twins=True, subs=.08):
        self.rng, self.ids, self.links, self.rich, self.twins = rng, ids, links, rich, twins
        self.k, self.count = 0, {}
        self.made, self.subs = [], subs

    def mk(self, cls, *args, **kw):
        """An object, some of whose optional fields are given to the constructor and some assigned after."""
        later = {}
        if self.rng.random() < self.subs:
            cls = self.sub(cls)
        if self.rng.random() < .6:
            later = {k: kw[k] for k in kw if k != "bounds" and self.rng.random() < .6}
        x = cls(*args, **{k: v for k, v in kw.items() if k not in later})
        for k, v in later.items():
            setattr(x, k, v)
        return x

    def sub(self, cls):
        """A user's subclass of a class, which registers no type of its own."""
        if cls not in SUBS:
            meta = type(cls)
            first = meta("User" + cls.__name__, (cls,), {})
            SUBS[cls] = [first, meta("Second" + cls.__name__, (Mixin, first), {})]
        return self.rng.choice(SUBS[cls])

    # ------------------------------------------------------------ parts
    def word(self):
        self.k += 1
        return self.rng.choice(WORDS) + (str(self.k) if self.rng.random() < .6 else "")

    def uniq(self):
        self.k += 1
        return f"{self.k}-{self.rng.randrange(10 ** 6)}"

    def num(self):
        return self.rng.choice(FLOATS + [self.rng.uniform(-10, 10), self.rng.randrange(100)])

    def pair(self):
        a, b = self.num(), self.num()
        return (a, b) if a <= b else (b, a)

    def value(self):
        """A value, now and then one that equals an earlier one."""
        if self.made and self.rng.random() < .2:
            return copy.deepcopy(self.rng.choice(self.made))
        v = self.new_value()
        self.made = self.made[-7:] + [v]
        return v

    def new_value(self):
        r = self.rng
        k = r.randrange(11)
        if k == 0:
            return NominalReal(self.num(), r.choice(UNITS))
        if k == 1:
            return UniformReal(*self.pair(), r.choice(UNITS))
        if k == 2:
            return NormalReal(self.num(), abs(self.num()), r.choice(UNITS))
        if k == 3:
            return NominalInteger(r.choice([0, -5, 7, 2 ** 60]))
        if k == 4:
            return UniformInteger(-3, r.choice([-3, 0, 12]))
        if k == 5:
            return NominalCategorical(self.word())
        if k == 6:
            return DiscreteCategorical({self.word() + "1": .25, self.word() + "2": .75})
        if k == 7:
            return NominalComposition({self.word(): r.choice([.5, 1, 2.25]), "x": .1})
        if k == 8:
            return EmpiricalFormula(r.choice(["NaCl", "C6H12O6", "(NH4)2SO4"]))
        if k == 9:
            return Smiles(r.choice(["CCO", "C1=CC=CC=C1"]))
        return InChI("InChI=1S/CH4/h1H4")

    def bounds(self):
        r = self.rng
        k = r.randrange(5)
        if k == 0:
            lo, hi = sorted((r.uniform(-50, 0), r.uniform(0, 50)))
            return RealBounds(lo, hi, r.choice([u for u in UNITS]))
        if k == 1:
            return IntegerBounds(-r.randrange(5), r.randrange(9))
        if k == 2:
            return CategoricalBounds({self.word() for _ in range(r.randrange(4))})
        if k == 3:
            return CompositionBounds({self.word() for _ in range(r.randrange(4))})
        return MolecularStructureBounds()

    def files(self):
        return [FileLink(self.word(), "http://x/" + self.word()) for _ in range(self.few())]

    def few(self, n=2):
        return self.rng.randrange(n + 1) if self.rng.random() < self.rich else 0

    def tags(self):
        return [self.word() for _ in range(self.few())]

    def notes(self):
        return self.word() if self.rng.random() < self.rich else None

    def uids(self):
        r = self.rng
        if self.ids == "none" or (self.ids == "mixed" and r.random() < .4):
            return {}
        n = 1 if self.ids == "one" else r.choice([1, 1, 2, 3])
        return {s: self.new_id(s) for s in r.sample(["auto", "my_id", "Other-Scope", "ID", "φ", "x y"], n)}

    def new_id(self, scope):
        """Ids are unique within a scope; the same id may well occur under another scope."""
        self.count[scope] = self.count.get(scope, 0) + 1
        n = self.count[scope]
        if n % 2 == 0 and self.rng.random() < .4:     # ids that differ only in case are different ids
            return f"ID{n - 1}"
        return f"id{n}" if self.rng.random() < .7 else self.uniq()

    def link(self):
        return LinkByUID(self.rng.choice(["outside", "Out-2"]), "out-" + self.uniq())

    def ref(self, pool, none=.3):
        """An object of the pool, a link, or nothing."""
        r = self.rng
        if r.random() < none:
            return None
        if not pool or r.random() < self.links:
            return self.link() if r.random() < .5 or not pool else r.choice(pool)
        return r.choice(pool)

    def attribute(self, kind, pools):
        r = self.rng
        cls, tcls = ATTR[kind]
        tpl = self.ref(pools[tcls], .4)
        value = None if tpl is not None and r.random() < .15 else self.value()
        return self.mk(cls, self.word(), value=value, template=tpl, origin=r.choice(
            ["measured", "predicted", "summary", "specified", "computed", "unknown"]),
            notes=self.notes(), file_links=self.files())

    def attributes(self, kind, pools):
        return [self.attribute(kind, pools) for _ in range(self.few())]

    def entries(self, tcls, pools):
        """Object template entries: [attribute template, bounds or None]."""
        res = []
        for t in self.rng.sample(pools[tcls], min(len(pools[tcls]), self.few(2))):
            k = self.rng.randrange(3)
            res.append(t if k == 0 else [t, None] if k == 1 else [t, t.bounds])
        if self.rng.random() < self.links:
            res.append([self.link(), self.rng.choice([None, self.bounds()])])
        return res

    def source(self):
        r = self.rng
        return None if r.random() > self.rich else self.mk(
            PerformedSource, performed_by=self.word(), performed_date=r.choice(["2020-01-01", None, self.word()]))

    def fractions(self):
        r, d = self.rng, {}
        for f in ("mass_fraction", "volume_fraction", "number_fraction"):
            if r.random() < self.rich / 2:
                d[f] = r.choice([NominalReal(.25, ""), UniformReal(0, 1, ""), NormalReal(.5, .1, "")])
        if r.random() < self.rich / 2:
            d["absolute_quantity"] = r.choice([NominalReal(3, "kg"), UniformReal(1, 2.5, "mL")])
        return d

    # ------------------------------------------------------------ graphs
    def graph(self, size=1):
        """Lists of objects by class, randomly connected."""
        with validation_level(WarningLevel.IGNORE):
            return self._graph(size)

    def _graph(self, size):
        r = self.rng
        p = {c: [] for c in (PropertyTemplate, ConditionTemplate, ParameterTemplate, ProcessTemplate,
                             MaterialTemplate, MeasurementTemplate, ProcessSpec, MaterialSpec,
                             IngredientSpec, MeasurementSpec, ProcessRun, MaterialRun, IngredientRun,
                             MeasurementRun)}

        def count(lo, hi):
            return r.randint(lo, max(lo, int(hi * size)))
        for c in (PropertyTemplate, ConditionTemplate, ParameterTemplate):
            for _ in range(count(0, 2)):
                p[c].append(self.mk(c, self.word(), bounds=self.bounds(), description=self.notes(),
                              uids=self.uids(), tags=self.tags()))
        for _ in range(count(0, 1.5)):
            p[ProcessTemplate].append(self.mk(
                ProcessTemplate, self.word(), description=self.notes(), conditions=self.entries(ConditionTemplate, p),
                parameters=self.entries(ParameterTemplate, p),
                allowed_names=r.choice([None, [], [self.word()]]),
                allowed_labels=r.choice([None, [], [self.word(), self.word()]]),
                uids=self.uids(), tags=self.tags()))
        for _ in range(count(0, 1.5)):
            p[MaterialTemplate].append(self.mk(
                MaterialTemplate, self.word(), description=self.notes(), properties=self.entries(PropertyTemplate, p),
                uids=self.uids(), tags=self.tags()))
        for _ in range(count(0, 1.5)):
            p[MeasurementTemplate].append(self.mk(
                MeasurementTemplate, self.word(), properties=self.entries(PropertyTemplate, p),
                conditions=self.entries(ConditionTemplate, p),
                parameters=self.entries(ParameterTemplate, p), description=self.notes(),
                uids=self.uids(), tags=self.tags()))

        def common():
            return dict(uids=self.uids(), tags=self.tags(), notes=self.notes(), file_links=self.files())

        def cp():
            return dict(conditions=self.attributes("condition", p),
                        parameters=self.attributes("parameter", p))
        for _ in range(count(0, 2)):
            p[ProcessSpec].append(self.mk(
                ProcessSpec, self.word(), template=self.ref(p[ProcessTemplate]),
                                              **cp(), **common()))
        for _ in range(count(0, 2)):
            p[MaterialSpec].append(self.mk(
                MaterialSpec, self.word(), template=self.ref(p[MaterialTemplate]), process=self.ref(
                    [x for x in p[ProcessSpec] if x.output_material is None]),
                properties=[self.mk(PropertyAndConditions, self.attribute("property", p),
                                    conditions=self.attributes("condition", p))
                            for _ in range(self.few())], **common()))
        for _ in range(count(0, 3)):
            p[IngredientSpec].append(self.mk(
                IngredientSpec, self.word(), labels=self.tags(), material=self.ref(p[MaterialSpec]),
                process=self.ref(p[ProcessSpec], .15), **self.fractions(), **common()))
        for _ in range(count(0, 1.5)):
            p[MeasurementSpec].append(self.mk(
                MeasurementSpec, self.word(), template=self.ref(p[MeasurementTemplate]), **cp(), **common()))
        for _ in range(count(0, 2)):
            p[ProcessRun].append(self.mk(
                ProcessRun, self.word(), spec=self.ref(p[ProcessSpec]),
                                            source=self.source(), **cp(), **common()))
        for _ in range(count(1, 2)):
            p[MaterialRun].append(self.mk(
                MaterialRun, self.word(), spec=self.ref(p[MaterialSpec]), process=self.ref(
                    [x for x in p[ProcessRun] if x.output_material is None], .15),
                sample_type=r.choice(["experimental", "virtual", "production", "unknown"]), **common()))
        for _ in range(count(0, 3)):
            p[IngredientRun].append(self.mk(
                IngredientRun, material=self.ref(p[MaterialRun]), process=self.ref(p[ProcessRun], .15),
                spec=self.ref(p[IngredientSpec]), **self.fractions(), **common()))
            if not isinstance(p[IngredientRun][-1].spec, IngredientSpec) and r.random() < self.rich:
                x = p[IngredientRun][-1]      # a name and labels kept from a spec that it had
                spec = x.spec
                x.spec = IngredientSpec(self.word(), labels=self.tags())
                x.spec = spec
        for _ in range(count(0, 2)):
            p[MeasurementRun].append(self.mk(
                MeasurementRun, self.word(), spec=self.ref(p[MeasurementSpec]), material=self.ref(p[MaterialRun], .15),
                properties=self.attributes("property", p), source=self.source(), **cp(), **common()))
        if self.twins and r.random() < .4:   # objects that are equal but not the same
            for c in (IngredientRun, MeasurementRun, IngredientSpec):
                if p[c] and r.random() < .5:
                    x = r.choice(p[c])
                    if c is IngredientSpec:
                        y = c(x.name, material=x.material, process=x.process)
                    elif c is IngredientRun:
                        y = c(material=x.material, process=x.process, spec=x.spec)
                    else:
                        y = c(x.name, material=x.material, spec=x.spec)
                    p[c].append(y)
        return p

    def objects(self, size=1):
        return [x for xs in self.graph(size).values() for x in xs]

    def container(self, objs, depth=2, tuples=True):
        """A nested container of objects, parts and primitives."""
        r = self.rng
        k = r.randrange(9)
        if depth == 0 or k < 4:
            return r.choice(objs)
        if k == 4:
            return r.choice([1, True, 1.0, "text", None, 0, False, self.value(), self.bounds(),
                             FileLink("f", "u")])
        n = r.randrange(4)
        if k in (5, 6):
            return [self.container(objs, depth - 1, tuples) for _ in range(n)]
        if k == 7 and tuples:
            return tuple(self.container(objs, depth - 1, tuples) for _ in range(n))
        return {r.choice(["k1", "k2", "object", "context", "Key"]): self.container(objs, depth - 1, tuples)
                for _ in range(n)}


def fresh_id():
    return str(uuid.uuid4())
