"""C02: a rejected operation leaves every object exactly as it was."""
import gemd.entity as E

from vp.fields import Maker, BASE
from vp.gen import Gen
from vp.graphs import calm
from vp.heap import Reg
from vp.obs import attempt
from vp.ops import field_rows, histories


class Full:
    """A graph in which every field of every class holds something."""

    def __init__(self, rng):
        self.rng, self.mk = rng, Maker(rng)
        g = Gen(rng, rich=1, links=0)
        rb = E.RealBounds(-1e30, 1e30, "")
        pt, ct, mt = (c("t", bounds=rb, tags=["x"], uids={"Id": c.__name__})
                      for c in (E.PropertyTemplate, E.ConditionTemplate, E.ParameterTemplate))
        props = [E.Property("p", value=E.NominalReal(1, ""), template=pt, file_links=E.FileLink("f", "u")), E.Property("q")]
        conds = [E.Condition("c", value=E.NominalReal(1, ""), template=ct, file_links=E.FileLink("f", "u")), E.Condition("d")]
        pars = [E.Parameter("m", value=E.NominalReal(1, ""), template=mt, file_links=E.FileLink("f", "u")), E.Parameter("n")]
        com = dict(tags=["t1", "t2"], file_links=[E.FileLink("f", "u"), E.FileLink("g", "v")], notes="n")
        qty = dict(mass_fraction=E.NominalReal(.5, ""), volume_fraction=E.NominalReal(.5, ""),
                   number_fraction=E.NominalReal(.5, ""), absolute_quantity=E.NominalReal(.5, "kg"))
        self.o = o = {"PropertyTemplate": pt, "ConditionTemplate": ct, "ParameterTemplate": mt}
        ct2, mt2, pt2 = (c("t2", bounds=rb) for c in (E.ConditionTemplate, E.ParameterTemplate, E.PropertyTemplate))
        o["ProcessTemplate"] = E.ProcessTemplate("T", conditions=[[ct, rb], ct2], parameters=[mt, mt2], tags=["x", "y"],
                                                 allowed_names=["a", "b"], allowed_labels=["a", "b"])
        o["MaterialTemplate"] = E.MaterialTemplate("T", properties=[[pt, rb], pt2], tags=["x", "y"])
        o["MeasurementTemplate"] = E.MeasurementTemplate("T", properties=[pt, pt2], conditions=[ct, ct2],
                                                         parameters=[mt, mt2], tags=["x", "y"])
        o["ProcessSpec"] = E.ProcessSpec("P", template=o["ProcessTemplate"], conditions=conds, parameters=pars, **com)
        pc = E.PropertyAndConditions(props[0], conds)
        o["MaterialSpec"] = E.MaterialSpec("M", template=o["MaterialTemplate"], process=o["ProcessSpec"],
                                           properties=[pc, E.PropertyAndConditions(props[1])], **com)
        o["IngredientSpec"] = E.IngredientSpec("I", material=o["MaterialSpec"], process=o["ProcessSpec"],
                                               labels=["l1", "l2"], **qty, **com)
        E.IngredientSpec("I2", process=o["ProcessSpec"])
        o["MeasurementSpec"] = E.MeasurementSpec("E", template=o["MeasurementTemplate"], conditions=conds,
                                                 parameters=pars, **com)
        src = E.PerformedSource("me", "now")
        o["ProcessRun"] = E.ProcessRun("P", spec=o["ProcessSpec"], conditions=conds, parameters=pars, source=src, **com)
        o["MaterialRun"] = E.MaterialRun("M", spec=o["MaterialSpec"], process=o["ProcessRun"], sample_type="virtual", **com)
        o["IngredientRun"] = E.IngredientRun(spec=o["IngredientSpec"], material=o["MaterialRun"],
                                             process=o["ProcessRun"], **qty, **com)
        E.IngredientRun(process=o["ProcessRun"])
        o["MeasurementRun"] = E.MeasurementRun("E", spec=o["MeasurementSpec"], material=o["MaterialRun"], properties=props,
                                               conditions=conds, parameters=pars, source=src, **com)
        E.MeasurementRun("E2", material=o["MaterialRun"])
        o.update(Property=props[0], Condition=conds[0], Parameter=pars[0], PropertyAndConditions=pc, PerformedSource=src)
        for x in list(o.values())[:14]:
            if rng.random() < .5 and not x.uids:
                x.uids = g.uids()
        self.reg = Reg()
        self.snap()

    def snap(self):
        for x in self.o.values():
            if hasattr(x, "uids"):
                self.reg.n(x)
        self.h, = self.reg.snap()


def refused_rows(ctx, rows, n):
    """Every refusal that Fields.tla demands, in a state where there is something to lose."""
    r = ctx.rng
    todo = [(row, route) for rs in rows.values() for row in rs for route, out in row["outs"].items() if out == "refuse"]
    ctx.coverage.setdefault("refusals_of_the_field_table", len(todo))
    if n < len(todo):
        todo = r.sample(todo, n)
    w = Full(r)
    for row, route in todo:
        o, f, c = w.o[row["class"]], row["field"], row["class"]
        x = w.mk.make(row["kind"], row)[0]
        many = row["card"] != "one"
        g = w.mk.good(row)[0] if many else None
        lst = getattr(o, f)
        arg = x
        if route.endswith(("_listed", "_list")):
            arg = [x]
        elif route.endswith("_tuple"):
            arg = (g, x) if r.random() < .5 else (x, g)
        elif route.endswith("_iter"):
            arg = iter([g, x])
        if route in ("set_tuple",) and row["card"] == "entries":
            arg = (g, x)
        kw = dict(BASE.get(c, dict(name="o")))
        for k in ("process", "material", "spec", "template"):
            if k in getattr(E, c).__init__.__code__.co_varnames and c in ("IngredientRun", "IngredientSpec", "MaterialRun",
                                                                          "MaterialSpec", "MeasurementRun", "ProcessRun"):
                kw[k] = getattr(w.o[c], k)
        fn = {"append": lambda: lst.append(x), "extend": lambda: lst.extend([x]), "extend_iter": lambda: lst.extend(arg),
              "iadd": lambda: lst.__iadd__([x, g]), "insert": lambda: lst.insert(0, x),
              "insert_mid": lambda: lst.insert(-1, x), "setitem": lambda: lst.__setitem__(0, x),
              "setitem_last": lambda: lst.__setitem__(-1, x), "slice": lambda: lst.__setitem__(slice(0, 1), [x, g]),
              "slice_iter": lambda: lst.__setitem__(slice(1, None), (y for y in (x, g)))}.get(route)
        if route.startswith("set"):
            fn = fn or (lambda: setattr(o, f, arg))
        elif route.startswith("new"):
            kw[f] = arg
            fn = (lambda: getattr(E, c)(**kw))
        out, err = attempt(fn)
        if out != "rejected":      # that is C03's business
            w = Full(r)
            continue
        ctx.rows += 1
        pre = w.h
        w.snap()
        if w.h[:len(pre)] != pre:
            key = None
            if f == "process" and route in ("set", "set_listed") and c in ("IngredientSpec", "MaterialSpec"):
                key = known(pre, w.h, w.reg.n(o), c)
            diff = [(i + 1, a, b) for i, (a, b) in enumerate(zip(pre, w.h)) if a != b][:2]
            ctx.violation(f"{c}.{f} given {row['kind']} by {route} was refused with {err!r:.150} but objects changed",
                          {"row": {k: row[k] for k in ("class", "field", "kind")}, "route": route, "changed": diff}, key=key)
            w = Full(r)


def known(pre, post, n, c):
    """The recorded findings: the old process, and only it, lost its reverse reference to n."""
    a = pre[n - 1]["f"]["process"]
    name = "ingredients" if c == "IngredientSpec" else "output_material"
    want = [dict(x) for x in pre]
    p = want[a["r"] - 1]
    if n not in p["b"][name]:
        return None
    p["b"] = dict(p["b"], **{name: [y for y in p["b"][name] if y != n]})
    if want == post[:len(pre)]:
        return "refused-ingredient-spec" if name == "ingredients" else "refused-material-spec"
    return None


def run(ctx):
    t = ctx.thorough
    rows = field_rows(ctx)
    with calm(), ctx.limit(600):
        refused_rows(ctx, rows, 10 ** 6 if t else 5000)
        # the recorded findings, each time
        for c in ("IngredientSpec", "MaterialSpec"):
            row = next(r for r in rows[c] if r["field"] == "process" and r["kind"] == "int")
            refused_rows(ctx, {c: [dict(row, outs={"set": "refuse"})]}, 1)
    histories(ctx, rows, 500 if t else 90, 40, {"refused_unchanged"})
