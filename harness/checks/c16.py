"""C16: object templates govern attributes by the right bounds."""
from vp.obs import attempt

from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
from gemd.entity.template import (ConditionTemplate, ParameterTemplate, PropertyTemplate,
                                  ProcessTemplate, MaterialTemplate, MeasurementTemplate)
from gemd.entity.object import (ProcessSpec, ProcessRun, MaterialSpec, MeasurementSpec,
                                MeasurementRun)
from gemd.entity.bounds import RealBounds, IntegerBounds, CategoricalBounds, CompositionBounds
from gemd.entity.value import (NominalReal, UniformReal, NominalInteger, NominalCategorical,
                               NominalComposition)
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.bounds_validation import set_validation_level, validation_level, WarningLevel

ATTR = {"conditions": (Condition, ConditionTemplate), "parameters": (Parameter, ParameterTemplate),
        "properties": (Property, PropertyTemplate)}
# object class, its spec class if it is a run, its template class, the lists
HOLDERS = [(ProcessSpec, None, ProcessTemplate, "conditions"),
           (ProcessSpec, None, ProcessTemplate, "parameters"),
           (ProcessRun, ProcessSpec, ProcessTemplate, "conditions"),
           (ProcessRun, ProcessSpec, ProcessTemplate, "parameters"),
           (MaterialSpec, None, MaterialTemplate, "properties"),
           (MeasurementSpec, None, MeasurementTemplate, "conditions"),
           (MeasurementSpec, None, MeasurementTemplate, "parameters"),
           (MeasurementRun, MeasurementSpec, MeasurementTemplate, "conditions"),
           (MeasurementRun, MeasurementSpec, MeasurementTemplate, "parameters"),
           (MeasurementRun, MeasurementSpec, MeasurementTemplate, "properties")]
TLISTS = [(ProcessTemplate, "conditions"), (ProcessTemplate, "parameters"),
          (MaterialTemplate, "properties"), (MeasurementTemplate, "conditions"),
          (MeasurementTemplate, "parameters"), (MeasurementTemplate, "properties")]
POS = {"a": 1, "b": 2, "c": 3}


def bounds(fam, s):
    n = sorted(POS[x] for x in s)
    if fam == "real":
        return RealBounds(n[0], n[-1], "m")
    if fam == "cm":
        return RealBounds(100 * n[0] - 5, 100 * n[-1] + 5, "cm")
    if fam == "int":
        return IntegerBounds(n[0], n[-1])
    return (CategoricalBounds if fam == "cat" else CompositionBounds)(set(s))


def value(fam, v):
    n = POS[v]
    if fam in ("real", "cm"):
        return NominalReal(n, "m") if fam == "real" else UniformReal(n, n + .01, "m")
    if fam == "int":
        return NominalInteger(n)
    return NominalCategorical(v) if fam == "cat" else NominalComposition({v: 1})


FAMS = ["real", "cm", "int", "cat", "comp"]
TN = {"T1": "n1", "T2": "n2", "T3": "n1"}
# the model's names as other names: lookalikes are different names
NAMES = [{n: n for n in ("n1", "n2", "zz")}, {"n1": "Speed", "n2": "speed", "zz": "SPEED"},
         {"n1": "n", "n2": "n n", "zz": "n  n"}, {"n1": "\u00e9", "n2": "e\u0301", "zz": "\u00c9"},
         {"n1": "temperature", "n2": "temp", "zz": "temperatures"}, {"n1": "None", "n2": "0", "zz": "False"}]
TBS = {"T1": "ab", "T2": "bc", "T3": "c"}


class Setup:
    """Attribute templates and the object template for one row."""

    def __init__(self, rng, fam, tcls):
        self.rng, self.fam, self.form = rng, fam, rng.randrange(3)
        self.name = rng.choice(NAMES)
        self.t = {n: tcls(self.name[TN[n]], bounds=bounds(fam, TBS[n]), uids={"s": n, "z": n + "z"})
                  for n in TBS}

    def ref(self, r):
        if r in self.t:
            return self.t[r]
        n = {"L1": "T1", "L2": "T2", "LX": "X"}[r]
        # one form per row: two links can only be seen to refer to the same if they look alike
        return [LinkByUID("s", n), LinkByUID("S", n), LinkByUID("z", n + "z")][self.form]

    def entry(self, e, bare=True):
        b = None if e["bnd"] == ["-"] else bounds(self.fam, e["bnd"])
        r = self.ref(e["ref"])
        if b is None and bare and self.rng.random() < .5:
            return r
        return self.rng.choice([list, tuple])([r, b])


def add_row(ctx, row, holder, fam):
    rng = ctx.rng
    cls, spec_cls, tmpl_cls, lst = holder
    acls, atcls = ATTR[lst]
    s = Setup(rng, fam, atcls)
    with validation_level(WarningLevel.FATAL if rng.random() < .5 else WarningLevel.IGNORE):
        entries = [s.entry(e) for e in row["es"]]
        if rng.random() < .5:
            ot = tmpl_cls("ot", **{lst: entries})
        else:
            ot = tmpl_cls("ot")
            for e in entries:
                getattr(ot, lst).append(e)
    at = row["attr"]

    def attribute(v, clean=False):
        with validation_level(WarningLevel.IGNORE):
            x = acls(s.name[at["name"]] if not clean else "unrelated", value=value(fam, v),
                     template=None if at["tmpl"] == "none" or clean else s.ref(at["tmpl"]))
        if cls is MaterialSpec:
            cond = rng.choice([None, [Condition("c", value=NominalCategorical("zzz"))]])
            return PropertyAndConditions(x, cond)
        return x
    x = attribute(at["val"])
    other = attribute("a", clean=True)     # matches nothing: always consistent
    # who carries the template
    if row["real"]:
        own = ot
        mode = "real"
    else:
        mode = rng.choice(["none", "link"] + (["no_spec", "spec_link"] if spec_cls else []))
        own = LinkByUID("s", "ot") if mode == "link" else None
    route = rng.choice(["construct", "assign", "append", "extend", "insert", "setitem", "slice",
                        "iadd", "lone", "iter", "shared", "shared_construct"])
    late = rng.random() < .5

    def carrier():
        if spec_cls is None:
            return {"template": own}
        if mode == "no_spec":
            return {"spec": None}
        if mode == "spec_link":
            return {"spec": LinkByUID("s", "spec")}
        return {"spec": spec_cls("spec", template=own)}
    with validation_level(WarningLevel.IGNORE):    # the checked list of another object, without a template
        giver = getattr((cls if lst == "properties" else rng.choice([c for c, _, _, f in HOLDERS if f == lst]))(
            "giver", **{lst: [x]}), lst)
    set_validation_level(row["lvl"])
    start = [other] if route in ("setitem", "slice", "iter") else []
    pre = []
    try:
        if route == "construct":
            o = None
        elif late:
            o = cls("o", **{lst: list(start)})
            for k, v in carrier().items():
                setattr(o, k, v)
        else:
            o = cls("o", **carrier(), **{lst: list(start)})
        if o is not None:
            pre = list(getattr(o, lst))

        def do():
            nonlocal o
            if route in ("construct", "shared_construct"):
                xs = giver if route == "shared_construct" else rng.choice([[x], (x,), x])
                o = cls("o", **carrier(), **{lst: xs})
                return [x]
            if route == "shared":
                setattr(o, lst, giver)
                return [x]
            if route in ("assign", "iter"):
                setattr(o, lst, [x] if route == "assign" else iter([other, x]))
                return [x] if route == "assign" else [other, x]
            if route == "lone":
                setattr(o, lst, x)
                return [x]
            here = getattr(o, lst)
            if route == "append":
                here.append(x)
            elif route == "extend":
                here.extend([other, x])
                return [other, x]
            elif route == "insert":
                here.insert(0, x)
            elif route == "setitem":
                here[0] = x
            elif route == "slice":
                here[:] = [x, other]
                return [x, other]
            elif route == "iadd":
                here += [x]
            return [x]
        out, want = attempt(do)
        after = list(getattr(o, lst)) if o is not None else []
        content = pre if out == "rejected" else want
        same = len(after) == len(content) and all(p is q for p, q in zip(after, content))
    finally:
        set_validation_level(WarningLevel.WARNING)
    if out != row["out"] or not same:
        ctx.violation(f"{cls.__name__}.{lst} ({fam}, {route}, {mode}, late={late}): {out}, "
                      f"the model says {row['out']}" + ("" if same else "; content is wrong"),
                      {"row": row, "holder": [cls.__name__, lst], "family": fam, "route": route,
                       "mode": mode, "late": late, "out": out, "content_ok": same})


def entry_row(ctx, row, tl, fam):
    rng = ctx.rng
    tmpl_cls, lst = tl
    s = Setup(rng, fam, ATTR[lst][1])
    e = s.entry(row, bare=False)
    foreign = rng.random() < .2 and row["bnd"] != ["-"] and row["ref"] in s.t
    expect = row["out"]
    if foreign:                   # restricted bounds of another kind are never within
        e = [e[0], bounds({"cat": "comp", "comp": "cat"}.get(fam, "cat"), "a")]
        expect = "rejected"
    route = rng.choice(["construct", "assign", "append", "extend", "insert", "setitem", "slice",
                        "iadd", "pair"])
    set_validation_level(row["lvl"])
    good = s.t["T1"]
    try:
        ot = tmpl_cls("ot", **{lst: [good]})
        kept = [x[0] for x in getattr(ot, lst)]

        def do():
            here = getattr(ot, lst)
            if route == "construct":
                return getattr(tmpl_cls("new", **{lst: [good, e]}), lst)
            if route == "pair" and e[1] is not None:
                return getattr(tmpl_cls("new", **{lst: e}), lst)
            if route in ("assign", "pair"):
                setattr(ot, lst, [e])
            elif route == "append":
                here.append(e)
            elif route == "extend":
                here.extend([good, e])
            elif route == "insert":
                here.insert(0, e)
            elif route == "setitem":
                here[0] = e
            elif route == "slice":
                here[0:1] = [e]
            else:
                here += [e]
            return getattr(ot, lst)
        out, res = attempt(do)
    finally:
        set_validation_level(WarningLevel.WARNING)
    ok = out == expect
    if out == "rejected":
        ok = ok and [x[0] for x in getattr(ot, lst)] == kept
    elif ok:
        ok = any(x[0] is e[0] and x[1] is e[1] for x in res)
    if not ok:
        ctx.violation(f"{tmpl_cls.__name__}.{lst} entry ({fam}, {route}): {out}, the model says "
                      f"{expect}", {"row": row, "foreign": foreign, "route": route, "out": out})


def run(ctx):
    rows = ctx.table("ObjTemplate")
    ctx.sample(rows[0])
    ctx.sample(rows[-1])
    per = 40 if ctx.thorough else 3
    i = 0
    for row in rows:
        for _ in range(per):
            i += 1
            fam = FAMS[i % len(FAMS)]
            if row.get("bnd") == [] or any(e["bnd"] == [] for e in row.get("es", ())):
                fam = ["cat", "comp"][i % 2]      # the bounds that can admit nothing
            with ctx.limit(20):
                if row["kind"] == "add":
                    add_row(ctx, row, ctx.rng.choice(HOLDERS), fam)
                else:
                    for tl in TLISTS:
                        entry_row(ctx, row, tl, fam)
            ctx.rows += 1
    ctx.coverage["exhaustive"] = True
    ctx.coverage["rule"] = "every row of the model, each on several random (object, route, family)"
