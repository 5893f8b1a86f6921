"""C32: the demonstrations reproduce their sources: each row, entry and recipe becomes what it says."""
import contextlib
import copy
import io
import json
import random
from fractions import Fraction
from pathlib import Path

import gemd.demo
import gemd.demo.cake as cake
import gemd.demo.strehlow_and_cook as sac
from gemd.demo.material_run_example import ingest_material_run
from gemd.demo.measurement_example import make_demo_measurements, make_flexural_test_measurement
from gemd.demo.table_example import ingest_table
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.file_link import FileLink
from gemd.entity.object import MaterialRun, MaterialSpec, ProcessRun
from gemd.entity.template import PropertyTemplate
from gemd.util import recursive_foreach

from vp import obs
from vp.graphs import calm
from vp.heap import Reg, kind

MICRO = 1000000
EV = {"attojoule": 0.1602176634}       # of one electron volt
BAD = -999999999


def micro(x, unit=""):
    """A float in millionths (of an electron volt, for attojoules)."""
    y = x * MICRO / EV.get(unit, 1)
    n = round(y)
    return n if abs(y - n) <= 1e-6 + 1e-9 * abs(y) and abs(n) < 2 ** 31 else BAD


def value(v):
    k = "none" if v is None else kind(v) if isinstance(v, DictSerializable) else type(v).__name__
    res = {"k": k, "cat": "", "num": 0, "unc": 0, "units": ""}
    if k == "NominalReal":
        res.update(num=micro(v.nominal, v.units), units=v.units)
    elif k == "NormalReal":
        res.update(num=micro(v.mean, v.units), unc=micro(v.std, v.units), units=v.units)
    elif k == "NominalCategorical":
        res.update(cat=v.category)
    elif k == "EmpiricalFormula":
        res.update(cat=v.formula)
    elif k == "DiscreteCategorical":
        res.update(cat=" ".join(v.probabilities), num=micro(sum(v.probabilities.values())))
    elif k == "str":
        res.update(cat=v)
    elif k != "none":
        res.update(cat=repr(v))
    return res


def text(x):
    return str(getattr(x, "value", x))


# ---------------------------------------------------------------- Strehlow and Cook
UNITS = {"eV": "electron_volt", "meV": "millielectron_volt", "K": "kelvin", "eV/K": "electron_volt / kelvin"}
FORMULAS = ["Li1F1", "LiF", "Li1F", "Ga1As1", "GaAs", "Li3Sb1", "Li3Sb", "Al0.5Ga0.5As1", "Al0.5Ga0.5As", "B11", "B1",
            "B", "Si1O2", "SiO2", "H1", "C60", "Al2(SO4)3", "Li1(OH)1", "B1N1", "BN", "Cd10Te11", "In1P1", "I1N1S1",
            "C1O1", "CO", "Co", "Co1", "Mg2Si1O4", "Zn1S0.1Se0.9", "Na0.1Cl1.1"]


def decimal(n, r):
    """The number n / 10**6 as a source may write it."""
    s = f"{n / MICRO:.6f}".rstrip("0")
    return r.choice([s + "0", s.rstrip("."), s if not s.endswith(".") else s + "0"])


def reading(r, name, tmpl):
    """A source entry for an attribute, and what the specification says about it."""
    if name in ("Band gap", "Temperature", "Temperature derivative of band gap"):
        unit = {"Band gap": "meV" if r.random() < .15 else "eV", "Temperature": "K"}.get(name, "eV/K")
        n = {"eV": lambda: r.randint(1, 2000) * r.choice([1000, 10000]), "meV": lambda: r.randint(1, 2000) * MICRO,
             "K": lambda: r.randint(1, 1000) * MICRO, "eV/K": lambda: r.randint(-10000, 10000)}[unit]()
        u = r.randint(1, 500) * 1000 if r.random() < .4 else -1
        s = {"value": decimal(n, r)}
        if u >= 0:
            s["uncertainty"] = decimal(u, r)
        return ({"name": name, "scalars": [s], "units": unit},
                {"name": name, "cat": "", "num": n, "unc": u, "units": UNITS[unit]})
    cats = sorted(tmpl[name].bounds.categories)
    other = {"Phase": "Crystal system", "Transition": "Bands"}.get(name)
    if other and r.random() < .5:
        cats = sorted(tmpl[other].bounds.categories)
    c = r.choice(cats)
    return ({"name": name, "scalars": [{"value": c}]},
            {"name": name, "cat": c, "num": 0, "unc": -1, "units": ""})


def source_row(r, tmpl, formula):
    names = [n for n in tmpl if n not in ("Formula", "Crystal system", "Bands") and hasattr(tmpl[n], "bounds")]
    conds = [n for n in names if not isinstance(tmpl[n], PropertyTemplate)] + ["Transition", "Phase", "Temperature"]
    src, spec = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        a, b = reading(r, r.choice(names + ["Band gap", "Phase", "Transition"]), tmpl)
        b.update(type=r.choice(["EXPERIMENTAL", "COMPUTATIONAL", "MACHINE_LEARNING", ""]),
                 method=r.choice(["Absorption", "Reflection", "unreported"]), conds=[])
        if b["type"]:
            a["dataType"] = b["type"]
        if b["method"] != "unreported":
            a["method"] = {"name": b["method"]}
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            x, y = reading(r, r.choice(conds), tmpl)
            a.setdefault("conditions", []).append(x)
            b["conds"].append(y)
        if r.random() < .2:
            a.setdefault("conditions", [])
        src.append(a)
        spec.append(b)
    return {"chemicalFormula": formula, "properties": src}, {"formula": list(formula), "props": spec}


def attr(a, reg, misplaced, scope):
    check_template(a.template, misplaced, scope)
    return {"name": a.name, "tmpl": a.template.name, "value": value(a.value), "origin": text(a.origin),
            "notes": a.notes or ""}


def check_template(t, misplaced, scope):
    if dict(t.uids) != {scope: t.name}:
        misplaced.append(t.name)


def sac_row(o, reg, scope):
    mis = []
    msr = list(o.measurements)
    sp = o.spec
    for t in (sp.template, sp.process.template, msr[0].spec.template) if msr else ():
        check_template(t, mis, scope)
    m = msr[0] if msr else None
    return {"name": o.name, "spec_name": sp.name, "spec": reg.n(sp), "run": reg.n(o), "process": reg.n(o.process),
            "process_spec": reg.n(o.process.spec), "spec_process": reg.n(sp.process),
            "formula": [p.property.value.formula for p in sp.properties], "measurements": len(msr),
            "measurement": reg.n(m) if m else 0, "measured_by": reg.n(m.spec) if m else 0,
            "parameters": len(m.parameters) if m else 0,
            "props": [attr(a, reg, mis, scope) for a in m.properties] if m else [],
            "conds": [attr(a, reg, mis, scope) for a in m.conditions] if m else [], "misplaced": mis}


def cell(x):
    """What a cell of the display table shows."""
    if isinstance(x, (int, float)):
        return {"num": micro(x), "cat": "number"}
    return {"num": 0, "cat": x if isinstance(x, str) else repr(x)}


def of_file(row):
    """What the specification says about a row of the source files."""
    def one(a):
        s = a["scalars"][0]
        real = "units" in a
        return {"name": a["name"], "cat": "" if real else s["value"],
                "num": micro(float(s["value"])) if real else 0,
                "unc": micro(float(s["uncertainty"])) if "uncertainty" in s else -1,
                "units": UNITS[a["units"]] if real else ""}
    return {"formula": list(row["chemicalFormula"]),
            "props": [dict(one(p), type=p.get("dataType") or "", method=p["method"]["name"] if "method" in p else "unreported",
                           conds=[one(c) for c in p.get("conditions", [])]) for p in row["properties"]]}


def one_table(ctx, src, rows, events, scope, display, level):
    r = ctx.rng
    was = copy.deepcopy(src)
    with validation_level(level), ctx.limit(120):
        feed = r.choice([src, tuple(src), iter(src)])
        args = () if scope is None else (scope,)
        try:
            objs = sac.make_strehlow_objects(feed, *args)
        except Exception as e:
            ctx.violation(f"rows of the source were refused: {e!r}", {"rows": src[:20], "level": str(level)})
            return
    if src != was:
        ctx.violation("the source rows were changed", {"before": was[:20], "after": src[:20]})
    reg = Reg()
    used = sac.DEMO_TEMPLATE_SCOPE if scope is None else scope
    ctx.rows += len(rows)
    info = {"source": src[:12]}
    events.append({"ev": {"op": "sac", "rows": rows, "out": [sac_row(o, reg, used) for o in objs]}, "info": info})
    if not objs:
        return
    pick = [r.randrange(len(objs)) for _ in range(r.randint(1, len(objs)))] if r.random() < .5 else range(len(objs))
    tab = sac.make_strehlow_table([objs[i] for i in pick])
    content = [[value(x) for x in row] for row in tab["content"]]
    events.append({"ev": {"op": "table", "rows": rows, "pick": [i + 1 for i in pick],
                          "headers": [h["name"] for h in tab["headers"]], "content": content}, "info": info})
    if display:
        shown = sac.make_display_table(tab)
        rows2 = copy.deepcopy(rows)
        for row in rows2:                  # the display is in electron volts
            for p in row["props"]:
                if p["units"] == "millielectron_volt":
                    p["num"], p["units"] = p["num"] // 1000, UNITS["eV"]
                    p["unc"] = p["unc"] // 1000 if p["unc"] >= 0 else -1
        events.append({"ev": {"op": "display", "rows": rows2, "pick": [i + 1 for i in pick], "headers": shown[0],
                              "content": [[cell(x) for x in row] for row in shown[1:]]}, "info": info})
        if [[value(x) for x in row] for row in tab["content"]] != content:
            ctx.violation("displaying a table changed it", info)


def tables(ctx, n, events):
    r = ctx.rng
    tmpl = sac.make_templates()
    for k in range(n):
        size = r.choice([1, 1, 2, 3, 5, 8])
        pool = r.sample(FORMULAS, r.randint(1, 6)) + r.choice([[], ["Li1F1", "LiF"]])
        both = [source_row(r, tmpl, r.choice(pool)) for _ in range(size)]
        scope = r.choice([None, None, "my-scope", "T"])
        one_table(ctx, [x for x, _ in both], [y for _, y in both], events, scope, True,
                  r.choice([WarningLevel.FATAL, WarningLevel.WARNING, WarningLevel.IGNORE]))
    for file in [sac.SMALL_TABLE] + ([sac.FULL_TABLE] if ctx.thorough else []):
        src = json.loads((Path(gemd.demo.__file__).parent / file).read_text(encoding="utf-8"))
        if sac.import_table(file) != src or (file == sac.SMALL_TABLE and sac.import_table() != src):
            ctx.violation(f"import_table({file!r}) is not the content of the file", {})
        for i in range(0, len(src), 60):
            part = src[i:i + 60]
            one_table(ctx, part, [of_file(x) for x in part], events, None, True, WarningLevel.FATAL)
    for _ in range(n):
        cells = [None, 1.5, "x", "", True, sac.NominalReal(1, ""), sac.NormalReal(1, 1, ""), sac.NominalCategorical("a")]
        width, few = r.randint(0, 4), r.sample(cells, r.randint(1, 4))
        tab = [[r.choice(few) for _ in range(width)] for _ in range(r.randint(0, 9))]
        res = sac.minimal_subset(r.choice([tab, tuple(tab)]))
        where = [next((i + 1 for i, y in enumerate(tab) if y is x), 0) for x in res]
        events.append({"ev": {"op": "minimal", "t": [[type(x).__name__ for x in row] or ["-"] for row in tab],
                              "kept": where}, "info": {"table": repr(tab)}})


# ---------------------------------------------------------------- measurements of a material
ENTRY_UNITS = {"K": "kelvin", "g/cm^3": "gram / centimeter ** 3", "m^2/s": "meter ** 2 / second", "mm": "millimeter",
               "zork": "dimensionless"}
KNOWN = {"density": "property", "kinematic viscosity": "property", "temperature": "condition",
         "knob_2_setting": "parameter"}


def entry(r):
    n = r.choice([0, r.randint(-2000, 2000) * MICRO, r.randint(1, 999999), r.randint(1, 99) * 100000])
    word = r.choice(["low", "medium", "high", "other"])
    form = r.choice(["word", "number", "units", "unc"])
    u = r.randint(0, 999) * 1000
    unit = r.choice(list(ENTRY_UNITS))
    spec = {"form": form, "word": word if form == "word" else "", "num": n, "unc": u, "units": ENTRY_UNITS[unit]}
    num = decimal(n, r)
    if form == "word":
        return word, spec
    if form == "number":
        return r.choice([num, float(num)] + ([int(n // MICRO)] if n % MICRO == 0 else [])), spec
    blank = r.choice([" ", " ", "  ", "\t"])
    if form == "units":
        return f"{num}{blank}{unit}", spec
    return f"{num}{blank}{r.choice(['+-', '+/-'])}{blank}{decimal(u, r)}{blank}{unit}", spec


def record(r):
    d, spec = {}, {"sample": [], "tags": [], "experiments": []}
    if r.random() < .6:
        d["sample_id"] = f"s{r.randint(0, 99)}"
        spec["sample"] = [["given_sample_id", d["sample_id"]]]
    if r.random() < .5:
        d["tags"] = spec["tags"] = r.choice([["a"], ["b", "a"], []])
    for _ in range(r.choice([0, 1, 2, 4])):
        e, s = {}, {"scan": [], "tags": [], "said": []}
        for name in r.sample(list(KNOWN), r.randint(0, 4)):
            e[name], v = entry(r)
            s["said"].append({"name": name, "kind": KNOWN[name], "v": v})
        if r.random() < .5:
            e["scan_id"] = f"x{r.randint(0, 99)}"
            s["scan"] = [["given_scan_id", e["scan_id"]]]
        if r.random() < .4:
            e["tags"] = s["tags"] = r.choice([["t"], ["u", "t"]])
        if r.random() < .4:
            e[r.choice(["color", "Density", "comment", "name"])] = r.choice([3, "12 K", None])
        items = list(e.items())
        r.shuffle(items)
        d.setdefault("experiments", []).append(dict(items))
        spec["experiments"].append(s)
    if r.random() < .3:
        d["comment"] = "unknown"
    return d, spec


def measured(m):
    def said(attrs):
        return [{"name": a.name, "tmpl": a.template.name if a.template else "", "value": value(a.value)} for a in attrs]
    both = list(m.properties) + list(m.conditions) + list(m.parameters)
    return {"ids": [[s, i] for s, i in m.uids.items()], "tags": list(m.tags), "props": said(m.properties),
            "conds": said(m.conditions), "params": said(m.parameters),
            "doubled": len(both) - len({a.name for a in both})}


def materials(ctx, n, events):
    r = ctx.rng
    with obs.quiet(), calm(), contextlib.redirect_stdout(io.StringIO()):
        for _ in range(n):
            many = r.random() < .4
            both = [record(r) for _ in range(r.randint(0, 4) if many else 1)]
            data = [x for x, _ in both] if many else both[0][0]
            was = copy.deepcopy(data)
            spec = MaterialSpec("spec") if r.random() < .6 else None
            proc = ProcessRun("process") if r.random() < .5 and not many else None
            res = ingest_material_run(data, spec, proc) if r.random() < .5 else ingest_material_run(
                data, material_spec=spec, process_run=proc)
            out = []
            for o in (res if many else [res]):
                out.append({"ids": [[s, i] for s, i in o.uids.items()], "tags": list(o.tags),
                            "measurements": [measured(m) for m in o.measurements],
                            "spec": 0 if o.spec is None else 1 if o.spec is spec else 2,
                            "process": 0 if o.process is None else 1 if o.process is proc else 2,
                            "two_way": (o.process is None or o.process.output_material is o) and all(
                                m.material is o for m in o.measurements),
                            "other": [f for f in ("notes", "file_links") if getattr(o, f)]})
            ctx.rows += 1
            events.append({"ev": {"op": "material", "data": [y for _, y in both], "out": out, "spec": int(spec is not None),
                                  "process": int(proc is not None)}, "info": {"data": was}})
            if data != was:
                ctx.violation("the ingested data were changed", {"before": was, "after": data})


class Sheet:
    """As much of a table as the example reads."""

    def __init__(self, rows):
        self.rows = rows

    def iterrows(self):
        return iter(list(enumerate(self.rows)))


def sheets(ctx, n, events):
    r = ctx.rng
    for _ in range(n):
        rows, spec = [], []
        for _ in range(r.randint(0, 5)):
            row, s = {}, []
            for name in r.sample(["vapor pressure", "temperature", "Temperature", "comment"], r.randint(0, 4)):
                v = r.randint(0, 2000) * 100000
                row[name] = v / MICRO
                s.append({"name": name, "v": {"form": "number", "num": v}})
            rows.append(row)
            spec.append(s)
        m = MaterialRun("m")
        res = ingest_table(m, Sheet(rows))
        events.append({"ev": {"op": "rows", "rows": spec, "same": res is m, "out": [measured(x) for x in m.measurements]},
                       "info": {"rows": rows}})


def fraction(x):
    f = Fraction(x).limit_denominator(60000)
    if abs(float(f) - x) > 1e-9 * max(abs(x), 1e-9) or abs(f.numerator) > 2 ** 22:
        return [BAD, 1]
    return [f.numerator, f.denominator]


def bending(ctx, n, events):
    r = ctx.rng
    for _ in range(n):
        a, b = r.randint(1, 40), r.randint(1, 40)
        extra = r.choice([[], ["x"], ["x", "y"]])
        m = make_flexural_test_measurement("the id", a / b, *([r.choice([extra, tuple(extra)])] if extra else []))
        by = {p.name: p for p in m.properties}
        vals = [by[f"flexural {x}"].value for x in ("stress", "strain", "modulus")]
        events.append({"ev": {
            "op": "bend", "n": a, "m": b, "id": "the id", "extra": extra, "stress": fraction(vals[0].mean),
            "strain": fraction(vals[1].mean), "modulus": fraction(vals[2].mean),
            "deflection": fraction(by["deflection"].value.nominal), "relative": [fraction(v.std / v.mean) for v in vals],
            "ids": list(m.uids.values()), "tags": list(m.tags), "units": [v.units for v in vals] + [by["deflection"].value.units],
            "origins": sorted({text(p.origin) for p in m.properties})}, "info": {"deflection": a / b}})
    for k in (0, 1, 7):
        ms = make_demo_measurements(k, extra_tags={"z"})
        ids = {i for m in ms for i in m.uids.values()}
        if len(ms) != k or len(ids) != k or any("z" not in m.tags or len(m.uids) != 1 for m in ms):
            ctx.violation(f"{k} demo measurements were asked for", {"made": repr(ms)[:800]})


# ---------------------------------------------------------------- the cake
def heap_of(o, *more):
    reg = Reg()
    reg.n(o)
    for x in more:
        reg.n(x)
    h, = reg.snap()
    return reg, h


def key_of(c):
    """What the ids of a cake's runs end in."""
    scope, i = next(iter(c.uids.items()))
    head = c.spec.uids[scope] + "-"
    return i[len(head):] if i.startswith(head) else "?"


def cakes(ctx, n, events):
    r = ctx.rng
    scopes = (cake.get_demo_scope(), cake.get_template_scope())
    state = random.getstate()

    def bake(**kw):
        with validation_level(WarningLevel.FATAL), ctx.limit(60):
            return cake.make_cake(**kw)

    def look(c, label):
        reg, h = heap_of(c)
        events.append({"ev": {"op": "cake", "h": h, "root": reg.n(c), "run": cake.get_demo_scope(),
                              "tmpl": cake.get_template_scope(), "key": key_of(c)}, "info": {"cake": label}})
        return h
    try:
        seen = {}
        for k in range(n):
            want = r.choice([None, ("my-kitchen", None), ("A", "B"), ("a", "b")]) if k else None
            if want:
                if want[1] is None:
                    cake.change_scope(want[0])
                    want = (want[0], want[0] + "-template")
                else:
                    cake.change_scope(want[0], templates=want[1])
                if (cake.get_demo_scope(), cake.get_template_scope()) != want:
                    ctx.violation("change_scope did not set the scopes", {"wanted": want})
            seed = r.choice([0, 1, 27, "seed", r.randint(2, 10 ** 9)])
            random.seed(r.random())
            c1 = bake(seed=seed)
            h1 = look(c1, f"seed {seed!r}")
            random.seed(r.random())
            tmpl = cake.make_cake_templates()
            regt = Reg()
            for x in tmpl.values():
                regt.n(x)
            t0, = regt.snap()
            spec = cake.make_cake_spec(tmpl) if r.random() < .5 else None
            if spec is not None:
                regt.n(spec)
            before, = regt.snap()
            events.append({"ev": {"op": "kept", "h": t0, "h2": before[:len(t0)]}, "info": {"cake": "templates, after a recipe"}})
            c2 = bake(seed=seed, tmpl=tmpl, cake_spec=spec)
            after, = regt.snap()
            events.append({"ev": {"op": "kept", "h": before, "h2": after}, "info": {"cake": "recipe, after baking"}})
            if spec is not None and c2.spec is not spec:
                ctx.violation("the cake was not baked by the recipe that was given", {"seed": seed})
            h2 = heap_of(c2)[1]
            events.append({"ev": {"op": "again", "h": h1, "h2": h2}, "info": {"cake": f"seed {seed!r} again"}})
            photo = FileLink("photo", "http://photo")
            c3 = bake(seed=seed, toothpick_img=photo)
            events.append({"ev": {"op": "photo", "h": h1, "h2": heap_of(c3)[1], "url": "str:http://photo"},
                           "info": {"cake": "with a photo"}})
            c4 = bake(seed=str(seed) + "'") if r.random() < .5 else bake()
            look(c4, "another seed")
            events.append({"ev": {"op": "other", "key": key_of(c1), "key2": key_of(c4)}, "info": {"cake": "another seed"}})
            seen[repr(seed)] = key_of(c1)
        count = []
        recursive_foreach(bake(seed=1), lambda x: count.append(x))
        ctx.sample({"objects in a cake": len(count)})
        with cake.import_toothpick_picture() as f:
            if f.read() != (Path(gemd.demo.__file__).parent / "toothpick.jpg").read_bytes():
                ctx.violation("import_toothpick_picture() is not the picture", {})
    finally:
        random.setstate(state)
        cake.change_scope(scopes[0], templates=scopes[1])


def run(ctx):
    t = ctx.thorough
    state = random.getstate()
    events = []
    try:
        tables(ctx, 600 if t else 120, events)
        materials(ctx, 1200 if t else 250, events)
        sheets(ctx, 200 if t else 40, events)
        bending(ctx, 300 if t else 60, events)
        ctx.judge("DemoTrace", events, label="demonstration")
        events = []
        cakes(ctx, 24 if t else 5, events)
        ctx.judge("CakeTrace", events, label="cake", chunk=12)
    finally:
        random.setstate(state)
