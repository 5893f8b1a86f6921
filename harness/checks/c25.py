"""C25: builders create exactly the linked objects they promise."""
import copy

import gemd.entity as E
from gemd.builders import (make_node, add_edge, add_measurement, add_attribute, make_attribute,
                           make_value)
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.units import parse_units

from vp.graphs import calm
from vp.gen import Gen
from vp.heap import Reg, token
from vp.obs import attempt

BOUNDS = {"RealBounds": lambda r: E.RealBounds(0, 10, r.choice(["kg", "", "degC", "m/s"])),
          "IntegerBounds": lambda r: E.IntegerBounds(0, 9),
          "CategoricalBounds": lambda r: E.CategoricalBounds(["a", "InChI=1S/x", ""]),
          "CompositionBounds": lambda r: E.CompositionBounds(["Na", "Cl"]),
          "MolecularStructureBounds": lambda r: E.MolecularStructureBounds()}
ATPL = {"PropertyTemplate": E.PropertyTemplate, "ConditionTemplate": E.ConditionTemplate,
        "ParameterTemplate": E.ParameterTemplate}
OTPL = {"ProcessTemplate": E.ProcessTemplate, "MaterialTemplate": E.MaterialTemplate,
        "MeasurementTemplate": E.MeasurementTemplate}


class Session:
    """Objects that builder calls work on, and the events recorded from the calls."""

    def __init__(self, ctx, events, label):
        self.ctx, self.r, self.events, self.label = ctx, ctx.rng, events, label
        self.reg, self.g = Reg(), Gen(ctx.rng, ids="mixed")
        self.pool = {}
        self.fatal = False

    def keep(self, obj):
        self.reg.n(obj)
        self.pool.setdefault(type(obj).__name__, []).append(obj)
        return obj

    def record(self, op, args, fn, **extra):
        pre, = self.reg.snap()
        with self.ctx.limit(20):
            out, res = attempt(fn)
        ok = out != "rejected"
        ev = {"op": op, "pre": pre, "args": args, "out": "ok" if ok else "refused", "res": 0}
        if ok and isinstance(res, BaseEntity):
            ev["res"] = self.reg.n(res)
        elif ok:
            ev["result"] = self.reg.flat("", res, {})
        ev["post"], = self.reg.snap()
        for k, f in extra.items():
            ev[k] = bool(ok and f(res))
        self.events.append({"ev": ev, "info": {"source": self.label, "op": op,
                                               "error": None if ok else repr(res)[:200]}})
        for i in range(len(pre), len(ev["post"])):
            o = self.reg.objs[i]
            if not any(o is x for x in self.pool.get(type(o).__name__, ())):
                self.keep(o)
        return res if ok else None

    # ------------------------------------------------------------ arguments of a form
    def text(self, form):
        return None if form == "none" else "" if form == "empty" else self.g.word() + "x"

    def tpl(self, form, kind):
        """(object, optional node number)"""
        if form == "none":
            return None, []
        if form == "right":
            if self.pool.get(kind) and self.r.random() < .5:
                t = self.r.choice(self.pool[kind])
            else:
                t = self.keep(OTPL[kind](self.r.choice(["", "tpl", self.g.word()]), uids=self.g.uids()))
            return t, [self.reg.n(t)]
        if form == "wrong":
            k = self.r.choice([k for k in OTPL if k != kind])
            t = self.keep(OTPL[k]("other"))
            return t, [self.reg.n(t)]
        return self.r.choice(["text", 5, E.FileLink("f", "u"), [E.ProcessTemplate("x")]]), [0]

    def value(self, form):
        r = self.r
        v = {"int": r.choice([7, -3, 1, 10 ** 17]), "zero": 0, "float": r.choice([2.5, 1e-300, -0.5]), "fzero": 0.0, "str": r.choice(["a", "a", " a", "inchi=1s/x", "nchi=", "a b"]), "estr": "", "inchi": r.choice(
             ["InChI=1S/x", "InChI=1/x", "InChI=", "InChI=1S/CH4/h1H4"]),
             "formula": "NaCl", "other": r.choice([[1], {}, E.FileLink("f", "u"), b"a"])}.get(form) if form != "value" else r.choice(
            [E.NominalReal(0, "kg"), E.NominalCategorical("a"), E.UniformInteger(1, 2), self.g.value()])
        return v, self.value_args(v)

    def value_args(self, v):
        from gemd.entity.value.base_value import BaseValue
        k = "value" if isinstance(v, BaseValue) else type(v).__name__
        return {"form": k if k in ("value", "int", "float", "str") else "other", "text": token(v),
                "num": token(float(v)) if k in ("int", "float") else "",
                "m": self.reg.flat("", v, {}) if k == "value" else {},
                "inchi": k == "str" and v.startswith("InChI=")}

    # ------------------------------------------------------------ calls
    def make_node(self, c):
        name, pname = self.text(c["name"]), self.text(c["pname"])
        pt, pn = self.tpl(c["ptpl"], "ProcessTemplate")
        mt, mn = self.tpl(c["mtpl"], "MaterialTemplate")
        kw = {}
        if pname is not None or self.r.random() < .3:
            kw["process_name"] = pname
        if pt is not None or self.r.random() < .3:
            kw["process_template"] = pt
        if mt is not None or self.r.random() < .3:
            kw["material_template"] = mt
        return self.record("make_node", {"name": token(name), "pname": [token(pname)] if pname is not None else [],
                                         "ptpl": pn, "mtpl": mn}, lambda: make_node(name, **kw))

    def edge(self, inp, out, name, qty, units):
        kw = {k: v for k, v in qty.items() if v is not None}
        if name is not None or self.r.random() < .2:
            kw["name"] = name
        if units is not None:
            kw["absolute_units"] = units
        q = {}
        for f in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
            v = qty.get(f)
            if v is None:
                q[f] = {"form": "none", "m": {}}
            elif isinstance(v, float):
                u = (parse_units(units) if units is not None else "") if f == "absolute_quantity" else ""
                q[f] = {"form": "float", "m": self.reg.flat("", E.NominalReal(v, u), {})}
            elif hasattr(v, "units"):
                q[f] = {"form": "value", "m": self.reg.flat("", v, {})}
            else:
                q[f] = {"form": "other", "m": {}}
        return self.record("add_edge", {"inp": self.reg.n(inp), "out": self.reg.n(out),
                                        "name": [token(name)] if name is not None else [],
                                        "units": [units] if units is not None else [], "qty": q},
                           lambda: add_edge(inp, out, **kw))

    def quantity(self, form, field):
        r = self.r
        if form == "none":
            return None
        if form in ("float", "zero"):
            x = 0.0 if form == "zero" else r.choice([.25, 1.0, 1e-3, .5] + [3.5, 1e9] * (field == "absolute_quantity"))
            return x
        if form == "value":
            if field == "absolute_quantity":
                return r.choice([E.NominalReal(2, "kg"), E.UniformReal(0, 1, "mL"), E.NormalReal(1, .1, "m")])
            return r.choice([E.NominalReal(0, ""), E.UniformReal(0, 1, ""), E.NormalReal(.5, .1, "percent")])
        return r.choice(["0.5", E.NominalCategorical("a"), [.5], E.NominalInteger(1)])

    def quantities(self, c, inp=None, out=None):
        inp = inp or self.keep(make_node("in"))
        out = out or self.keep(make_node("out"))
        self.edge(inp, out, self.text(self.r.choice(["none", "none", "text", "empty"])),
                  {f: self.quantity(c[f], f) for f in ("mass_fraction", "volume_fraction", "number_fraction",
                                                       "absolute_quantity")},
                  self.r.choice(["kg", "mL", "g/cm^3", ""]) if c["units"] == "given" else None)

    def add_edge(self, c):
        k, link = self.keep, lambda: E.LinkByUID("s", "i")
        spec = {"none": lambda: None, "link": link, "bare": lambda: k(E.MaterialSpec("out")),
                "linked": lambda: k(E.MaterialSpec("out", process=link())),
                "full": lambda: k(E.MaterialSpec("out", process=k(E.ProcessSpec("p"))))}[c["ospec"]]()
        proc = {"none": lambda: None, "link": link, "full": lambda: k(E.ProcessRun("p"))}[c["oproc"]]()
        ispec = {"none": lambda: None, "link": link, "full": lambda: k(E.MaterialSpec("in"))}[c["ispec"]]()
        out = k(E.MaterialRun("out", spec=spec, process=proc))
        if c["same"]:     # the output is itself the input
            inp = out
        else:
            inp = k(E.MaterialRun(self.r.choice(["in", "", self.g.word()]), spec=ispec))
        self.edge(inp, out, self.text(c["name"]), {}, None)

    def add_measurement(self, c, mat=None):
        name = self.text(c["name"])
        t, n = self.tpl(c["tpl"], "MeasurementTemplate")
        mat = mat or self.keep(E.MaterialRun("m", uids=self.g.uids()))
        pools = {x: self.pool.get(x.__name__, []) for x in ATPL.values()}
        attrs = []
        for k in c["attrs"]:
            attrs.append(self.g.attribute(k.lower(), pools) if k != "other" else self.r.choice(
                ["text", E.NominalReal(1, ""), E.PropertyAndConditions(E.Property("x")), E.FileLink("f", "u")]))
        kw = {}
        if name is not None:
            kw["name"] = name
        if t is not None:
            kw["template"] = t
        if attrs or self.r.random() < .5:
            kw["attributes"] = self.r.choice([list, tuple])(attrs)
        am = [{"k": k, "m": self.reg.flat("", a, {}) if k != "other" else {}} for k, a in zip(c["attrs"], attrs)]
        return self.record("add_measurement", {"mat": self.reg.n(mat), "name": [token(name)] if name is not None else [],
                                               "tpl": n, "attrs": am}, lambda: add_measurement(mat, **kw))

    def attr_tpl(self, kind, bounds):
        if kind == "wrong":
            return self.r.choice([self.keep(E.ProcessTemplate("p")), None, "text", E.LinkByUID("s", "i"),
                                  self.keep(E.MaterialSpec("s"))])
        return self.keep(ATPL[kind](self.r.choice(["", "t", self.g.word()]), bounds=BOUNDS[bounds](self.r)))

    def target(self, kind, n):
        if kind in ATPL:
            return self.keep(ATPL[kind]("t", bounds=BOUNDS["RealBounds"](self.r)))
        if kind in OTPL:
            return self.keep(OTPL[kind]("t"))
        cls = getattr(E, kind)
        o = cls() if kind == "IngredientRun" else cls("o")
        pools = {x: [] for x in ATPL.values()}
        for _ in range(n):
            if kind == "MaterialSpec":
                if o.properties and self.r.random() < .4:     # one that equals another
                    x = copy.deepcopy(self.r.choice(o.properties))
                    if self.r.random() < .5:
                        x.conditions = self.g.attributes("condition", pools)
                    o.properties.append(x)
                    continue
                o.properties.append(E.PropertyAndConditions(self.g.attribute("property", pools),
                                                            self.g.attributes("condition", pools)))
                continue
            for a, f in (("property", "properties"), ("condition", "conditions"), ("parameter", "parameters")):
                if hasattr(o, f) and self.r.random() < .7:
                    getattr(o, f).append(self.g.attribute(a, pools))
        return self.keep(o)

    def add_attribute(self, c, target=None, tpl=None):
        tpl = tpl or self.attr_tpl(c["tpl"], c["bounds"])
        form = c["v"]
        if (form, c["bounds"]) == ("fzero", "IntegerBounds"):
            form = "float"      # whether a whole float will do for an integer is left open
        if (form, c["bounds"]) == ("inchi", "CompositionBounds"):
            form = "formula"    # not a formula
        v, va = self.value(form)
        num = self.reg.n(tpl) if isinstance(tpl, BaseEntity) else 0
        args = {"tpl": num, "v": va}
        k = self.r.random()
        if target is None and k < .15:
            return self.record("make_attribute", args, lambda: make_attribute(tpl, v))
        if target is None and k < .3 and isinstance(tpl, tuple(ATPL.values())) and va["form"] != "value":
            return self.record("make_value", {"bounds": self.reg.flat("", tpl.bounds, {}), "v": va},
                               lambda: make_value(v, tpl.bounds))
        target = target or self.target(c["target"], c["n"])
        args["target"] = self.reg.n(target)

        def attached(res):
            for f in ("properties", "conditions", "parameters"):
                for x in getattr(target, f, None) or ():
                    if x is res or getattr(x, "property", None) is res:
                        return True
                    if any(y is res for y in getattr(x, "conditions", None) or ()):
                        return True
            return False
        self.record("add_attribute", args, lambda: add_attribute(target, tpl, v), identical=attached)


def session(ctx, events, rows, length):
    """A history of builder calls on a shared, growing set of objects."""
    r = ctx.rng
    s = Session(ctx, events, "session")
    node = [c for c in rows["make_node"] if "wrong" not in (c["ptpl"], c["mtpl"])
            and "nontemplate" not in (c["ptpl"], c["mtpl"])]
    for _ in range(2):
        s.make_node(r.choice(node))
    for _ in range(length):
        mats = s.pool["MaterialRun"]
        k = r.randrange(8)
        if k == 0:
            s.make_node(r.choice(node))
        elif k < 4:
            s.quantities(r.choice(rows["quantities"]), r.choice(mats), r.choice(mats))
        elif k < 5:
            s.add_measurement(r.choice(rows["add_measurement"]), r.choice(mats))
        else:
            kind = r.choice([k for k in ("ProcessSpec", "ProcessRun", "MaterialSpec", "MaterialSpec", "MeasurementRun",
                                         "MeasurementSpec") if s.pool.get(k)])
            s.add_attribute(r.choice(rows["add_attribute"]), r.choice(s.pool[kind]))


def repeats(ctx, events, n):
    """The same few templates and values, again and again on one target."""
    r = ctx.rng
    for _ in range(n):
        s = Session(ctx, events, "repeats")
        kind = r.choice(["MaterialSpec", "MaterialSpec", "ProcessRun", "MeasurementRun", "MeasurementSpec"])
        target = s.target(kind, r.randrange(2))
        tpls = [s.attr_tpl(k, "RealBounds") for k in ATPL]
        for _ in range(r.randrange(3, 9)):
            s.add_attribute({"v": r.choice(["zero", "fzero"]), "bounds": "RealBounds"}, target, r.choice(tpls))


def run(ctx):
    t, r, events = ctx.thorough, ctx.rng, []
    rows = {}
    for c in ctx.table("BuilderCalls"):
        rows.setdefault(c["op"], []).append(c)
    take = {"make_node": 96, "add_edge": 270, "quantities": 260, "add_measurement": 200, "add_attribute": 700}
    with calm():
        for op, cs in rows.items():
            n = len(cs) if t else min(len(cs), take[op])
            for c in r.sample(cs, n):
                s = Session(ctx, events, c)
                getattr(s, op)(c)
        for _ in range(300 if t else 25):
            session(ctx, events, rows, r.randint(4, 25 if t else 12))
        ctx.coverage["option_combinations"] = {k: len(v) for k, v in rows.items()}
        repeats(ctx, events, 200 if t else 25)
        fatal(ctx, events)
    ctx.coverage["calls"] = {}
    for e in events:
        k = e["ev"]["op"] + "/" + e["ev"]["out"]
        ctx.coverage["calls"][k] = ctx.coverage["calls"].get(k, 0) + 1
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("BuildersTrace", events, label="builder")


def fatal(ctx, events):
    """Values that fit are honoured however strict the validation is."""
    with validation_level(WarningLevel.FATAL):
        for f in ("mass_fraction", "volume_fraction", "number_fraction"):
            for x in (0.0, 1.0, .5):
                s = Session(ctx, events, "fatal")
                s.edge(s.keep(make_node("a")), s.keep(make_node("b")), None, {f: x}, None)
        for b, v in (("RealBounds", 5), ("RealBounds", 0), ("IntegerBounds", 9), ("CategoricalBounds", "a"),
                     ("CompositionBounds", "NaCl"), ("MolecularStructureBounds", "CCO")):
            for k in ATPL:
                s = Session(ctx, events, "fatal")
                tpl = s.attr_tpl(k, b)
                s.record("make_attribute", {"tpl": s.reg.n(tpl), "v": s.value_args(v)},
                         lambda: make_attribute(tpl, v))
