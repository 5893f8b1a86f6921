"""C30: a copy is faithful, separate from its original, and behaves as the original does."""
import copy
import random

import gemd.entity as E
from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.json import GEMDJson, dumps, loads

from vp.gen import Gen, ATTR
from vp.heap import FIELDS, Reg, kind
from vp.obs import attempt

LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
LOW, HIGH = (0, .5), (.5, 1)
LISTS = {"tags": "text", "labels": "text", "allowed_names": "text", "allowed_labels": "text", "file_links": "file",
         "conditions": "condition", "parameters": "parameter", "properties": "property"}
LINKS = {"template": None, "process": None, "material": None, "spec": None}
QTY = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]


class World(Gen):
    """Graphs whose templates have bounds that the values fit or miss."""

    def __init__(self, rng):
        super().__init__(rng, links=.04, rich=.7, twins=False)

    def bounds(self):
        return E.RealBounds(0, 1, "")

    def value(self):
        r = self.rng
        return r.choice([lambda x: E.NominalReal(x, ""), lambda x: E.NormalReal(x, 0, ""),
                         lambda x: E.UniformReal(x, x, "")])(r.choice([.25, .25, .75, .75, 2]))

    def entries(self, tcls, pools):
        r = self.rng
        return [entry(r, t) for t in r.sample(pools[tcls], r.randint(0, len(pools[tcls])))]


    def objects(self, size=1):
        """A small random graph, and objects whose templates disagree about the same attributes."""
        r, u = self.rng, self.uids
        with validation_level(WarningLevel.IGNORE):
            c, q, p = (t("t", bounds=self.bounds(), uids=u()) for t in (
                E.ConditionTemplate, E.ParameterTemplate, E.PropertyTemplate))

            def narrow(*ts):
                return [[[t, E.RealBounds(*b, "")] for t in ts] for b in r.sample([LOW, HIGH], 2)]
            k = r.randrange(3)
            if k == 0:
                ts = [E.ProcessTemplate("T", conditions=x, parameters=y, uids=u())
                      for x, y in zip(narrow(c), narrow(q))]
                spec = E.ProcessSpec("S", template=r.choice(ts), uids=u())
                core = [c, q, *ts, spec, E.ProcessRun("R", spec=spec, uids=u())]
            elif k == 1:
                ts = [E.MaterialTemplate("T", properties=x, uids=u()) for x in narrow(p)]
                spec = E.MaterialSpec("S", template=r.choice(ts), uids=u())
                core = [p, *ts, spec, E.MaterialRun("R", spec=spec, uids=u())]
            else:
                ts = [E.MeasurementTemplate("T", conditions=x, properties=y, uids=u())
                      for x, y in zip(narrow(c), narrow(p))]
                spec = E.MeasurementSpec("S", template=r.choice(ts), uids=u())
                core = [c, p, *ts, spec, E.MeasurementRun("R", spec=spec, uids=u())]
        return super().objects(size) + core


def entry(r, t):
    k = r.randrange(5)
    return t if k == 0 else [t, None] if k == 1 else [t, E.RealBounds(*(LOW if k % 2 else HIGH), "")]


# ---------------------------------------------------------------- operations
def pick(r, objs, *kinds):
    pool = [o for o in objs if kind(o) in kinds]
    return r.choice(pool) if pool else None


def attr_lists(o):
    return [f for f in ("conditions", "parameters", "properties")
            if isinstance(getattr(o, f, None), list) and "Template" not in kind(o)]


def make_attr(r, g, objs, k, material=False):
    if material and k == "property":
        return E.PropertyAndConditions(make_attr(r, g, objs, "property"),
                                       [make_attr(r, g, objs, "condition") for _ in range(r.randrange(2))])
    cls, tcls = ATTR[k]
    with validation_level(WarningLevel.IGNORE):
        return cls(r.choice("xyz"), value=g.value(), template=pick(r, objs, tcls.__name__) if r.random() < .8 else None)


def element(r, g, objs, o, f):
    """Something to put into the list f of o; sometimes of the wrong kind."""
    if r.random() < .1:
        return r.choice([5, None, "x", pick(r, objs, kind(o))])
    k = LISTS[f]
    if k == "text":
        return r.choice(["a", "b", "c"])
    if k == "file":
        return E.FileLink(r.choice("fg"), "u")
    if "Template" in kind(o):
        t = pick(r, objs, ATTR[k][1].__name__)
        return entry(r, t) if t is not None else None
    return make_attr(r, g, objs, k, kind(o) == "MaterialSpec")


def list_op(r, g, objs):
    o = r.choice(objs if r.random() < .4 else [x for x in objs if attr_lists(x)] or objs)
    fs = [f for f in LISTS if isinstance(getattr(o, f, None), list) and (f != "labels" or kind(o) == "IngredientSpec")]
    f = r.choice(fs + [x for x in fs if x in ("conditions", "parameters", "properties")] * 3)
    lst = getattr(o, f)
    x, y = element(r, g, objs, o, f), element(r, g, objs, o, f)
    i = r.choice([0, -1, 1, 4])
    k = r.randrange(14)
    fns = [lambda: lst.append(x), lambda: lst.append(x), lambda: lst.append(x), lambda: lst.insert(i, x),
           lambda: lst.__setitem__(i, x), lambda: lst.extend([x, y]), lambda: lst.extend(iter([x, y])),
           lambda: lst.__iadd__([x]), lambda: setattr(o, f, [x, y]), lambda: setattr(o, f, x), lambda: lst.pop(i),
           lambda: lst.clear(), lambda: lst.reverse(), lambda: lst.__setitem__(slice(0, 1), [x, y])]
    return f"{kind(o)}.{f} list operation {k}", fns[k]


def link_op(r, g, objs):
    o = r.choice([x for x in objs if any(hasattr(x, f) for f in LINKS)])
    f = r.choice([f for f in LINKS if hasattr(o, f)])
    want = {"process": "Process", "material": "Material", "spec": "", "template": ""}[f]
    suffix = "Run" if kind(o).endswith("Run") else "Spec"
    stem = kind(o)[:-len(suffix)]
    x = pick(r, objs, stem + "Spec" if f == "spec" else stem + "Template" if f == "template" else want + suffix)
    k = r.randrange(12)
    if k == 0:
        x = None
    elif k == 1:
        x = 5
    elif k == 2:
        x = r.choice(objs)
        if f in ("process", "material") and kind(x) != want + suffix:
            x = None                      # a refused change of a specification's link is C01's
    elif k == 3:
        x = E.LinkByUID("outside", "z")
    if f in ("process",) and x == 5:
        x = None
    return f"{kind(o)}.{f} <- {type(x).__name__}", lambda: setattr(o, f, x)


def spec_template_op(r, g, objs):
    """The template of a specification, which its runs are checked against as well."""
    o = pick(r, objs, "ProcessSpec", "MaterialSpec", "MeasurementSpec")
    if o is None:
        return list_op(r, g, objs)
    x = pick(r, objs, kind(o)[:-4] + "Template")
    return f"{kind(o)}.template", lambda: setattr(o, "template", x)


def attr_op(r, g, objs):
    o = r.choice([x for x in objs if attr_lists(x)] or objs)
    pool = [a for f in attr_lists(o) for a in getattr(o, f)]
    pool += [c for a in pool if isinstance(a, E.PropertyAndConditions) for c in a.conditions]
    pool = [a.property if isinstance(a, E.PropertyAndConditions) else a for a in pool]
    if not pool:
        return list_op(r, g, objs)
    a = r.choice(pool)
    k = r.randrange(6)
    v, t = g.value(), pick(r, objs, kind(a) + "Template")
    fns = [lambda: setattr(a, "value", v), lambda: setattr(a, "template", t), lambda: setattr(a, "value", 5),
           lambda: setattr(a, "origin", "measured"), lambda: setattr(a, "notes", "n"),
           lambda: setattr(a.value, "units", "kg")]
    return f"{kind(a)} of {kind(o)} operation {k}", fns[k]


def plain_op(r, g, objs):
    o = r.choice(objs)
    f = r.choice([f for f in ("name", "notes", "description", "sample_type", "source") if hasattr(o, f)
                  and (f, kind(o)) != ("name", "IngredientRun")])
    x = r.choice(["virtual", "measured", "w", 5, None]) if f != "source" else r.choice(
        [None, 5, E.PerformedSource("me", "now")])
    if f == "name" and "Template" in kind(o):     # assignment does not check it, loading does
        x = "w"
    return f"{kind(o)}.{f} <- {x!r}", lambda: setattr(o, f, x)


def quantity_op(r, g, objs):
    o = pick(r, objs, "IngredientRun", "IngredientSpec")
    if o is None:
        return plain_op(r, g, objs)
    f = r.choice(QTY)
    x = r.choice([lambda: None, lambda: E.NominalReal(.5, ""), lambda: E.NominalReal(2, "kg"),
                  lambda: E.NormalReal(.5, .1, ""), lambda: E.UniformReal(.25, 3, ""), lambda: 5,
                  lambda: E.NominalReal(-1, "")])()
    return f"{kind(o)}.{f}", lambda: setattr(o, f, x)


def uid_op(r, g, objs):
    o = r.choice(objs)
    s, v = r.choice(["auto", "AUTO", "my_id", "MY_ID", "new", "New"]), f"v{r.randrange(10 ** 9)}"
    k = r.randrange(6)
    fns = [lambda: o.add_uid(s, v), lambda: o.uids.__setitem__(s, v), lambda: o.uids.pop(s),
           lambda: o.uids.update({s: v, "more": v}), lambda: setattr(o, "uids", {s: v}), lambda: o.uids.setdefault(s, v)]
    return f"{kind(o)}.uids operation {k} {s}", fns[k]


def bounds_op(r, g, objs):
    o = pick(r, objs, "PropertyTemplate", "ConditionTemplate", "ParameterTemplate")
    if o is None:
        return plain_op(r, g, objs)
    b = E.RealBounds(*r.choice([LOW, HIGH, (0, 1), (0, 3)]), "")
    k = r.randrange(3)
    if k and not isinstance(o.bounds, E.RealBounds):
        k = 0
    fns = [lambda: setattr(o, "bounds", b), lambda: setattr(o.bounds, "upper_bound", b.upper_bound),
           lambda: setattr(o.bounds, "lower_bound", .75)]
    return f"{kind(o)}.bounds operation {k}", fns[k]


def inside(x):
    """All parts of a thing, to any depth."""
    for f in FIELDS.get(kind(x), ()):
        y = getattr(x, f)
        for z in y if isinstance(y, (list, tuple)) else [y]:
            for p in z if isinstance(z, (list, tuple)) else [z]:
                if isinstance(p, DictSerializable) and not isinstance(p, (BaseEntity, E.LinkByUID)):
                    yield p
                    yield from inside(p)


def part_op(r, g, objs):
    """A part of an object, however deep, changed in place."""
    pool = [p for o in objs for p in inside(o)]
    if not pool:
        return plain_op(r, g, objs)
    rare = [p for p in pool if kind(p) not in ("Property", "Condition", "Parameter", "NominalReal")]
    x = r.choice(rare if rare and r.random() < .7 else pool)
    word = f"w{r.randrange(99)}"
    fns = {"FileLink": ["filename", "url"], "PerformedSource": ["performed_by", "performed_date"],
           "Property": ["name", "notes"], "Condition": ["name", "notes"], "Parameter": ["name", "notes"],
           "NominalCategorical": ["category"], "Smiles": ["smiles"]}.get(kind(x))
    if fns:
        f = r.choice(fns)
        return f"{kind(x)}.{f} <- {word}", lambda: setattr(x, f, word)
    if kind(x) in ("CategoricalBounds", "CompositionBounds"):
        return f"{kind(x)} grows", lambda: getattr(x, FIELDS[kind(x)][0]).add(word)
    if kind(x) == "NominalComposition":
        return f"{kind(x)} grows", lambda: x.quantities.__setitem__(word, 1)
    if kind(x) == "DiscreteCategorical":
        return f"{kind(x)} changes", lambda: x.probabilities.pop(sorted(x.probabilities)[0])
    if kind(x) == "PropertyAndConditions":
        return f"{kind(x)} loses", lambda: x.conditions.clear()
    f = r.choice([f for f in FIELDS[kind(x)] if f not in ("units", "default_units", "formula", "inchi")] or ["nothing"])
    return f"{kind(x)}.{f} <- 1", lambda: setattr(x, f, 1)


def new_op(r, g, objs):
    """A new object that refers to what there is."""
    k = r.randrange(6)
    p, m = pick(r, objs, "ProcessRun"), pick(r, objs, "MaterialRun")
    ps, ms = pick(r, objs, "ProcessSpec"), pick(r, objs, "MaterialSpec")
    u = {"new": f"v{r.randrange(10 ** 9)}"} if r.random() < .5 else {}

    def make():
        x = [lambda: E.IngredientRun(process=p, material=m, spec=pick(r, objs, "IngredientSpec"), uids=u),
             lambda: E.MeasurementRun("e", material=m, spec=pick(r, objs, "MeasurementSpec"), uids=u),
             lambda: E.MaterialRun("m", process=p, spec=ms, uids=u), lambda: E.IngredientSpec("i", process=ps, material=ms),
             lambda: E.ProcessRun("p", spec=ps, conditions=[make_attr(r, g, objs, "condition")]),
             lambda: E.MaterialSpec("m", process=ps, properties=[make_attr(r, g, objs, "property", True)])][k]()
        objs.append(x)
    return f"new object {k}", make


OPS = [list_op] * 6 + [link_op] * 3 + [spec_template_op] * 2 + [attr_op] * 3 + [part_op] * 2 + [plain_op, quantity_op, uid_op, bounds_op,
                                                                                new_op]


# ---------------------------------------------------------------- histories
COPY = {"deep": copy.deepcopy, "deep, again": lambda x: copy.deepcopy(copy.deepcopy(x)),
        "json": lambda x: loads(dumps(x)), "GEMDJson.copy": GEMDJson().copy}


def items(x):
    if isinstance(x, BaseEntity):
        yield x
    elif isinstance(x, dict):
        for y in x.values():
            yield from items(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from items(y)


class History:
    """Originals (side c), copies of them (b), and twins, built by the same steps (a)."""

    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.reg = Reg()
        self.side = {"b": []}
        seed = self.r.random()
        for s in "ac":
            rnd = random.Random(seed)
            self.side[s] = World(rnd).objects(.4)
            rnd.shuffle(self.side[s])
        self.events = []
        self.log("start", "start")

    def log(self, op, info, **kw):
        sides = {s: [self.reg.n(o) for o in objs] for s, objs in self.side.items()}
        h, = self.reg.snap()
        self.events.append({"ev": dict(op=op, h=h, **sides, **kw), "info": info})

    def copy(self, how):
        """Copies of all originals; each carries a tag by which its copy is found."""
        r, orig = self.r, self.side["c"]
        for i, o in enumerate(orig):
            o.tags.append(f"#{i}")
        self.log("start", "tagged")
        deep = how.startswith("deep")
        level = r.choice(LEVELS) if deep else WarningLevel.IGNORE
        form = r.randrange(4)
        what = [orig, tuple(orig), {"k": orig}, [[o] for o in orig]][form]
        with validation_level(level), self.ctx.limit(60):
            out, res = attempt(lambda: COPY[how](what))
        info = {"how": how, "level": str(level), "form": form, "out": out}
        if out == "rejected":
            self.ctx.violation(f"copying ({how}) at {level} raised {type(res).__name__}: {res}",
                               {"info": info, "heap": self.events[-1]["ev"]["h"]})
            return False
        by = {}
        for x in items(res):
            for t in x.tags[-1:]:
                by.setdefault(t, x)
            self.reg.n(x)
        self.side["b"] = [by[f"#{i}"] for i in range(len(orig)) if f"#{i}" in by]
        self.log("copy", info, ids=not deep)
        for o in orig + self.side["b"]:           # the tags have served
            o.tags.pop()
        for o, x in zip(orig, self.side["a"]):    # ids given when dumping
            for scope in [s for s in o.uids if not x.uids]:
                x.add_uid(scope, o.uids[scope])
        self.log("ready", "ready")
        return len(self.side["b"]) == len(orig)

    def one(self, name, side, op, seed, level):
        rnd = random.Random(seed)
        with validation_level(WarningLevel.IGNORE):
            what, fn = op(rnd, World(rnd), self.side[side])
        with self.ctx.limit(30), validation_level(level):
            out, res = attempt(fn)
        if out == "rejected" and "inconsistent with template" in str(res):
            self.ctx.coverage["refused_by_template"] = self.ctx.coverage.get("refused_by_template", 0) + 1
        self.log(name, {"what": what, "side": side, "level": str(level), "out": out,
                        "error": repr(res)[:200] if out == "rejected" else None}, side=side, out=out)
        k = f"{name}_{out}"
        self.ctx.coverage[k] = self.ctx.coverage.get(k, 0) + 1

    def both(self, sides, ops=OPS):
        """One operation on two sides."""
        r = self.r
        op, seed, level = r.choice(ops), r.random(), r.choice(LEVELS)
        for name, s in zip(("first", "second") if "b" in sides else ("start", "start"), sides):
            self.one(name, s, op, seed, level)

    def wreck(self):
        self.one("wreck", "c", self.r.choice(OPS + [spec_template_op] * 4), self.r.random(), WarningLevel.IGNORE)


def run(ctx):
    t = ctx.thorough
    groups = []
    with validation_level(WarningLevel.IGNORE):
        for i in range(350 if t else 80):
            h = History(ctx)
            if len(h.side["a"]) < 2:
                continue
            how = ["deep", "deep", "deep, again", "json", "GEMDJson.copy"][i % 5]
            for _ in range(ctx.rng.randrange(5)):   # what no longer fits its template cannot be loaded
                h.both("ac", OPS if how.startswith("deep") else [f for f in OPS if f not in (bounds_op, part_op)])
            if h.copy(how):
                for _ in range(30 if t else 14):
                    if ctx.rng.random() < .6:
                        h.wreck()
                    h.both(ctx.rng.choice(["ab", "ba"]))
            groups.append(h.events)
    ctx.sample([e["info"] for e in groups[0]][:20])
    ctx.judge("CopyTrace", None, groups=groups, label="copies")
