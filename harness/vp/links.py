"""Real GEMD objects standing for the objects of spec/Links.tla."""
from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec,
                                IngredientRun, IngredientSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.link_by_uid import LinkByUID

CLASSES = {"process_run": ProcessRun, "process_spec": ProcessSpec, "material_run": MaterialRun,
           "material_spec": MaterialSpec, "ingredient_run": IngredientRun,
           "ingredient_spec": IngredientSpec, "measurement_run": MeasurementRun,
           "measurement_spec": MeasurementSpec}
HAS_PROCESS = {"ingredient_run", "ingredient_spec", "material_run", "material_spec"}
HAS_MATERIAL = {"ingredient_run", "ingredient_spec", "measurement_run"}
JUNK = ["not an entity", 17, object(), [], ("a",), True, 0.5, ProcessRun, ""]


def make(kind, name, **kw):
    cls = CLASSES[kind]
    return cls(**kw) if cls is IngredientRun else cls(name, **kw)


class LinkWorld:
    """
    names -> objects.  In twin mode all objects of one kind have equal content and no ids;
    otherwise each has its own name and id.
    """

    def __init__(self, kinds, twins=True, rng=None, lazy=False):
        self.kinds, self.rng, self.twins = kinds, rng, twins
        self.near = not twins and not lazy      # links may name the objects of this world
        self.obj, self.byid = {}, {}
        if not lazy:
            for n, k in kinds.items():
                self.create(n)

    def create(self, n, **links):
        k = self.kinds[n]
        kw = dict(links)
        if not self.twins:
            kw["uids"] = {"my": n}
        self.obj[n] = make(k, "twin" if self.twins else n, **kw)

    def target(self, t, now=None):
        if t == "none":
            return None
        if t == "link":
            if self.near and self.rng and self.rng.random() < .6:
                n = self.byid.get(id(now)) or self.rng.choice(list(self.kinds))
                return LinkByUID(self.rng.choice(["my", "MY"]) if now is None else "my", n)
            return LinkByUID("scope", "elsewhere")
        if t == "junk":
            return self.rng.choice(JUNK) if self.rng else JUNK[0]
        return self.obj[t]

    def apply(self, op):
        try:
            if op["op"] == "assign":
                o = self.obj[op["o"]]
                setattr(o, op["f"], self.target(op["t"], getattr(o, op["f"], None)))
            elif op["op"] == "construct":
                kw = {f: self.target(op[f]) for f in ("process", "material") if op[f] != "na"}
                self.create(op["o"], **kw)
            else:
                raise AssertionError(op)
        except Exception:
            return "rejected"
        return "ok"

    def known(self, op):
        """
        The recorded defects of the spec-side link setters (known_findings.txt): the finding this
        operation runs into, and the state it then leaves; None if there is none.
        """
        if op["op"] == "assign" and op["f"] != "process" or op["op"] not in ("assign", "construct"):
            return None
        o = op["o"]
        kind = self.kinds[o]
        if kind not in ("material_spec", "ingredient_spec"):
            return None
        t = op["t"] if op["op"] == "assign" else op["process"]
        if op["op"] == "construct" and op["material"] != "na" and op["material"] not in ("none", "link") \
                and self.kinds.get(op["material"]) != "material_spec":
            return None   # refused before its process is looked at
        st = self.project()
        real = t in self.obj and self.kinds[t] == "process_spec"
        ok = real or t in ("none", "link")
        old = st["fwd"][o]["process"]
        if old not in self.obj:
            old = None
        if kind == "material_spec":
            if not ok and old:
                st["outm"][old] = "none"
                return "refused-material-spec", st
            if real and st["outm"][t] not in ("none", o):
                if old:
                    st["outm"][old] = "none"
                st["outm"][t], st["fwd"][o]["process"] = o, t
                return "displaced-material-spec", st
        elif old:
            x = self.obj[o]
            first = next((y for y in self.obj[old].ingredients if y is x or y == x), None)
            if first is None or (ok and first is x):
                return None
            st["ings"][old].remove(self.name(first))
            if not ok:
                return "refused-ingredient-spec", st
            if real:
                st["ings"][t] = sorted(st["ings"][t] + [o])
            st["fwd"][o]["process"] = t
            return "twin-ingredient-spec", st
        return None

    def force(self, state):
        """Rebuild the objects in this state of the model."""
        names = list(self.obj)
        self.obj = {}
        for n in names:
            self.create(n)
        for n in names:
            for f, t in state["fwd"][n].items():
                if t not in ("na", "none"):
                    setattr(self.obj[n], f, self.target(t))
        assert self.project() == state, (self.project(), state)

    def name(self, x):
        if x is None:
            return "none"
        if isinstance(x, LinkByUID):
            return "link" if (x.scope, x.id) == ("scope", "elsewhere") or x.scope.lower() == "my" else "?link"
        return self.byid.get(id(x), "?" + type(x).__name__)

    def project(self):
        fwd, ings, outm, meas = {}, {}, {}, {}
        self.byid = {id(o): n for n, o in self.obj.items()}
        for n, k in self.kinds.items():
            o = self.obj.get(n)
            fwd[n] = {"process": self.name(getattr(o, "process", None)) if k in HAS_PROCESS else "na",
                      "material": self.name(getattr(o, "material", None))
                      if k in HAS_MATERIAL else "na"}
            if k.startswith("process"):
                ings[n] = sorted(map(self.name, o.ingredients)) if o is not None else []
                outm[n] = self.name(o.output_material) if o is not None else "none"
            if k == "material_run":
                meas[n] = sorted(map(self.name, o.measurements)) if o is not None else []
        return {"fwd": fwd, "ings": ings or [], "outm": outm or [], "meas": meas or []}


def norm(st):
    """A model state with its sets in sorted order."""
    st = dict(st)
    for f in ("ings", "meas"):
        if isinstance(st[f], dict):
            st[f] = {k: sorted(v) for k, v in st[f].items()}
    return st
