"""C21: equality is symmetric, ends, and sees every difference."""
import random

from gemd.entity.attribute import PropertyAndConditions
from gemd.entity.base_entity import BaseEntity
from gemd.entity.file_link import FileLink
from gemd.entity.object import (ProcessRun, MaterialRun, IngredientRun, MeasurementRun, ProcessSpec,
                                MaterialSpec, IngredientSpec, MeasurementSpec)
from gemd.json import GEMDJson
from gemd.util import flatten

from vp.gen import Gen
from vp.graphs import calm, build_shape, shape_rows
from vp.heap import Reg, FIELDS, BACK, norm_scope
from vp.obs import attempt

COMPARED_BACK = {"ProcessSpec": ["ingredients"], "ProcessRun": ["ingredients"], "MaterialRun": ["measurements"]}
LISTS = {"tags", "file_links", "properties", "conditions", "parameters", "labels", "allowed_names",
         "allowed_labels"}


class EqReg(Reg):
    def flat(self, path, x, out):
        super().flat(path, x, out)
        a = out[path]
        if a["t"] == "prim" and isinstance(x, (int, float)):     # 1 equals 1.0 and True
            a["v"] = "num:" + repr(int(x) if x == x and abs(x) != float("inf") and x == int(x) else x)
        return out

    def node(self, obj):
        c = type(obj).__name__
        cont = {}
        for f in FIELDS[c]:
            x = getattr(obj, f)
            if f in LISTS and x is not None:
                cont[f] = {"rev": False, "items": [self.flat("", y, {}) for y in x]}
            else:
                cont[f] = {"rev": False, "items": [self.flat("", x, {})]}
        for f in COMPARED_BACK.get(c, ()):
            cont[f] = {"rev": True, "items": [self.flat("", y, {}) for y in getattr(obj, f)]}
        for f in BACK.get(c, ()):     # number them all
            y = getattr(obj, f)
            for z in y if isinstance(y, list) else [y]:
                if isinstance(z, BaseEntity):
                    self.n(z)
        u = [[s, str(i), f"{norm_scope(s)}|{i}", norm_scope(s)] for s, i in obj.uids.items()]
        return {"k": c, "u": u, "c": cont}


def record(ctx, label, one, two, events, pairs=None):
    """Compare corresponding objects, and some others, in both directions."""
    r = ctx.rng
    reg = EqReg()
    for o in one + two:
        reg.n(o)
    h, = reg.snap()
    if pairs is None:
        pairs = list(zip(one, two)) + [(r.choice(one), r.choice(two)) for _ in range(6)] \
            + [(r.choice(one), r.choice(one)) for _ in range(3)]
    got = []
    for a, b in pairs:
        with ctx.limit(30):
            ab, ba = a == b, b == a
            if (a != b) is not (not ab):
                ctx.violation("a != b is not the opposite of a == b", {"a": repr(a), "b": repr(b)})
        got.append([reg.n(a), reg.n(b), "yes" if ab is True else "no" if ab is False else repr(ab),
                    "yes" if ba is True else "no" if ba is False else repr(ba)])
    h2, = reg.snap()
    if h != h2:
        ctx.violation("comparing changed the objects", {"before": h, "after": h2})
    events.append({"ev": {"h": h, "pairs": got}, "info": {"source": label}})


# ------------------------------------------------------------ one difference
def mutate(r, g, objs):
    """One change somewhere in the graph; returns what it was, or None if it did not apply."""
    o = r.choice(objs)
    k = r.randrange(16)
    attrs = [a for f in ("properties", "conditions", "parameters") for a in getattr(o, f, [])
             if not isinstance(a, list)]
    attrs = [a for x in attrs for a in ([x.property] + list(x.conditions)
                                        if isinstance(x, PropertyAndConditions) else [x]) if hasattr(a, "value")]
    runs = {ProcessRun, MaterialRun, MeasurementRun, ProcessSpec, MaterialSpec, MeasurementSpec, IngredientSpec}
    if k == 0 and type(o) in runs:
        o.name = o.name + "'"
        return "name"
    if k == 1 and hasattr(o, "notes"):
        o.notes = "other note"
        return "notes"
    if k == 2:
        o.tags.append("extra")
        return "tag added"
    if k == 3 and o.tags:
        o.tags.append(o.tags[0])
        return "tag repeated"
    if k == 4 and o.tags:
        o.tags[r.randrange(len(o.tags))] = "other tag"
        return "tag changed"
    if k == 5 and o.tags:
        o.tags = []
        return "tags removed"
    if k == 6:
        o.add_uid("another", "id")
        return "id added"
    if k == 7 and o.uids:
        s = next(iter(o.uids))
        o.uids[s] = "different"
        return "id changed"
    if k == 8 and hasattr(o, "file_links"):
        o.file_links.append(FileLink("new", "file"))
        return "file added"
    if k == 9 and attrs:
        r.choice(attrs).notes = "attribute note"
        return "attribute notes"
    if k == 10 and attrs:
        a = r.choice(attrs)
        a.value = g.value()
        return "attribute value"
    if k == 11 and attrs:
        r.choice(attrs).template = g.link()
        return "attribute template"
    if k == 12 and hasattr(o, "process") and o.process is not None:
        o.process = None if r.random() < .5 else g.link()
        return "process"
    if k == 13 and hasattr(o, "material") and o.material is not None:
        o.material = None if r.random() < .5 else g.link()
        return "material"
    if k == 14 and isinstance(o, (IngredientRun, IngredientSpec)):
        from gemd.entity.value import NominalReal
        o.absolute_quantity = NominalReal(77, "kg")
        return "quantity"
    if k == 15:
        for f in ("properties", "conditions", "parameters"):
            x = getattr(o, f, None)
            if x:
                del x[0]
                return "attribute removed"
        if isinstance(o, ProcessRun):
            IngredientRun(process=o)
            return "ingredient added"
        if isinstance(o, MaterialRun):
            MeasurementRun("extra", material=o)
            return "measurement added"
    return None


def multiplicity(r, one, two):
    """The same entries, but not the same number of times."""
    f = r.choice(["tags", "tags", "tags", "labels", "file_links", "allowed_labels"])
    xs = [(a, b) for a, b in zip(one, two) if hasattr(a, f) and not (
        f == "labels" and isinstance(a, IngredientRun))]
    if not xs:
        return None
    a, b = r.choice(xs)
    e = ["x", "y"] if f != "file_links" else [FileLink("x", "x"), FileLink("y", "y")]
    n = r.randrange(1, 3)
    setattr(a, f, [e[0]] * n + e)
    setattr(b, f, e + [e[1]] * n)
    return f"{f}: multiplicity"


def rewire(r, objs):
    """A link to another object of the same kind in the same graph."""
    o = r.choice(objs)
    links = [f for f in ("spec", "template", "process", "material") if isinstance(getattr(o, f, None), BaseEntity)]
    attrs = [a for f in ("properties", "conditions", "parameters") for a in getattr(o, f, [])
             if isinstance(getattr(a, "template", None), BaseEntity)]
    if attrs and r.random() < .3:
        o, links = r.choice(attrs), ["template"]
    if not links:
        return None
    f = r.choice(links)
    old = getattr(o, f)
    pool = [x for x in objs if type(x) is type(old) and x is not old]
    if f == "process" and isinstance(o, (MaterialRun, MaterialSpec)):
        pool = [x for x in pool if x.output_material is None]
    if not pool:
        return None
    setattr(o, f, r.choice(pool))
    return f"{f}: another object"


def shuffle(r, o):
    """List order does not matter."""
    for f in ("tags", "file_links", "properties", "conditions", "parameters"):
        x = getattr(o, f, None)
        if x:
            y = list(x)
            r.shuffle(y)
            setattr(o, f, y)


def same_again(seed, size, **kw):
    g = Gen(random.Random(seed), subs=0, **kw)
    return [x for xs in g.graph(size).values() for x in xs]


def run(ctx):
    t = ctx.thorough
    r = ctx.rng
    events = []
    with calm():
        g = Gen(r, subs=0)
        for i in range(900 if t else 150):    # a graph built twice, then at most one difference
            seed = r.randrange(10 ** 9)
            kw = dict(ids=r.choice(["none", "none", "mixed", "many"]), links=.1, rich=.6)
            size = r.choice([.6, 1])
            one, two = same_again(seed, size, **kw), same_again(seed, size, **kw)
            what = "faithful copy"
            if r.random() < .3:
                for o in two:
                    shuffle(r, o)
                what = "lists in another order"
            k = r.random()
            if k < .6:
                what = mutate(r, g, r.choice([one, two])) or what
            elif k < .7:
                what = multiplicity(r, one, two) or what
            elif k < .85:
                what = rewire(r, r.choice([one, two])) or what
            record(ctx, f"built twice: {what}", one, two, events)
        for i in range(300 if t else 40):     # copies through JSON, whole or in part, and flattened
            one = same_again(r.randrange(10 ** 9), 1, ids="mixed", links=.1)
            if r.random() < .5:
                two = GEMDJson().copy(one)
                what = mutate(r, g, two) if r.random() < .6 else "copied through JSON"
                record(ctx, f"copied: {what}", one, two, events)
            else:
                fl = {k: x for x in flatten(one, "auto") for k in x.uids.items()}
                two = [fl[next(iter(x.uids.items()))] for x in one]
                what = mutate(r, g, two) if r.random() < .5 else "flattened"
                record(ctx, f"flattened: {what}", one, two, events)
        rows = shape_rows(ctx)
        for i in range(3000 if t else 300):   # maximal ambiguity: same names, no ids
            ids = Gen(r, ids="none")
            kind = r.choice(["run", "run", "spec"])
            a = r.choice(rows)
            b = a if r.random() < .25 else near(r, rows, a)
            one = build_shape(a, kind, ids, "none", twins=True)
            two = build_shape(b, kind, ids, "none", twins=True)
            n = len(one)
            pairs = [(r.choice(one), r.choice(two)) for _ in range(4)] + list(zip(one, two))
            pairs += [(one[i], one[i ^ 1]) for i in range(min(n, 6))]
            record(ctx, f"shapes {a['shape']} {b['shape']}", one, two, events, pairs)
        for i in range(1500 if t else 120):   # and larger
            code = ambiguous(r)
            other = dict(code)
            k = r.random()
            if k < .7:
                k = r.choice(list(other))
                other[k] = None if r.random() < .3 else r.randrange(3)
            one, two = make_ambiguous(r, code), make_ambiguous(r, other)
            if not isinstance(k, tuple) and k < .9:   # one object that differs, met along many ways
                o = r.choice(two)
                r.choice([lambda: o.add_uid("extra", "id"), lambda: o.tags.append("t"),
                          lambda: setattr(o, "notes", "other")])()
            record(ctx, "larger ambiguous graphs", one, two, events,
                   list(zip(one, two)) + [(r.choice(one), r.choice(two)) for _ in range(6)])
        deep(ctx)
        others(ctx, g)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("EqualityTrace", events, label="comparison")
    ctx.coverage["differences"] = {}
    for e in events:
        k = e["info"]["source"].split("{")[0]
        ctx.coverage["differences"][k] = ctx.coverage["differences"].get(k, 0) + 1


def near(r, rows, a):
    """A shape that differs from a in one link."""
    if not hasattr(near, "by"):
        near.by = {str(x["shape"]): x for x in rows}
    for _ in range(20):
        s = {k: list(v) if isinstance(v, list) else v for k, v in a["shape"].items()}
        f = r.choice(["mp", "ip", "im", "em"])
        if f == "em":
            s[f] = r.randrange(3)
        else:
            s[f][r.randrange(2)] = r.randrange(3)
        if str(s) in near.by and s != a["shape"]:
            return near.by[str(s)]
    return a


def ambiguous(r):
    return {(c, i, f): r.choice([None, 0, 1, 2, 0, 1])
            for c, n, fs in (("I", 4, ("process", "material", "spec")), ("E", 2, ("material", "spec")),
                             ("M", 3, ("process",)))
            for i in range(n) for f in fs if f != "spec" or r.random() < .5}


def make_ambiguous(r, code):
    """Objects that differ only by how they are connected."""
    P = [ProcessRun("p") for _ in range(3)]
    M = [MaterialRun("m") for _ in range(3)]
    S = {"I": [IngredientSpec("i", notes=n) for n in (None, None, "other")],
         "E": [MeasurementSpec("s", notes=n) for n in (None, None, "other")]}
    objs = {"I": [IngredientRun() for _ in range(4)], "E": [MeasurementRun("e") for _ in range(2)], "M": M}
    todo = list(code.items())
    taken = set()
    for (c, i, f), v in todo:
        if v is None or (c == "M" and v in taken):
            continue
        if c == "M":
            taken.add(v)
        setattr(objs[c][i], f, (P if f == "process" else M if f == "material" else S[c])[v])
    return P + M + objs["I"] + objs["E"]


def chain(n, cut=None):
    last, first = None, None
    for i in range(n):
        p = ProcessRun("p" if i != cut else "q")
        if last is not None:
            IngredientRun(material=last, process=p)
        last = MaterialRun("m", process=p)
        first = first or p
    return last, first


def deep(ctx):
    """Long histories; beyond a few hundred steps is a known finding."""
    for n in (100, 250):
        (a, af), (b, bf), (c, cf) = chain(n), chain(n), chain(n, cut=0)
        with ctx.limit(60):
            res = [a == b, b == a, a == c, c == a, af == bf, af == cf]
        ctx.rows += 1
        if res != [True, True, False, False, True, False]:
            ctx.violation(f"comparing chains of {n} materials gave {res}")
    out, res = attempt(lambda: chain(1500)[0] == chain(1500)[0])
    if out == "rejected" and isinstance(res, RecursionError):
        ctx.violation("comparing two histories of 1500 steps overflows the stack", key="deep-chain")
    elif res is not True:
        ctx.violation(f"comparing two equal histories of 1500 steps gave {res!r}")


def kinds(ctx, g):
    """Objects of different kinds with the same fields are different."""
    import gemd.entity as E
    r = ctx.rng
    B = [E.RealBounds(0, 1, ""), E.CategoricalBounds(["a"]), E.IntegerBounds(0, 1)]
    v = E.NominalReal(1, "kg")
    for uids in ({}, {"auto": "1"}, {"auto": "1", "b": "2"}):
        kw = dict(uids=uids, tags=["t"])
        b = r.choice(B)
        fams = [[c("n", bounds=b, **kw) for c in (E.PropertyTemplate, E.ConditionTemplate, E.ParameterTemplate)],
                [c("n", **kw) for c in (E.ProcessTemplate, E.MaterialTemplate, E.MeasurementTemplate)],
                [c("n", notes="x", **kw) for c in (E.ProcessSpec, E.MaterialSpec, E.MeasurementSpec, E.ProcessRun,
                                                   E.MaterialRun, E.MeasurementRun, E.IngredientSpec)],
                [c("n", value=v, notes="x") for c in (E.Property, E.Condition, E.Parameter)],
                [E.UniformInteger(0, 1), E.IntegerBounds(0, 1), E.UniformReal(0, 1, ""), E.RealBounds(0, 1, "")],
                [E.NominalInteger(1), E.NominalReal(1, "")],
                [E.CategoricalBounds(["a"]), E.CompositionBounds(["a"]), E.MolecularStructureBounds()],
                [E.NominalComposition({"a": 1.}), E.DiscreteCategorical({"a": 1.}), E.NominalCategorical("a")],
                [E.Smiles("a"), E.NominalCategorical("a"), E.FileLink("a", "a"), E.LinkByUID("a", "a")],
                [E.CategoricalBounds(), E.CompositionBounds(), E.MolecularStructureBounds()]]
        for fam in fams:
            for i, x in enumerate(fam):
                for j, y in enumerate(fam):
                    ctx.rows += 1
                    with ctx.limit(10):
                        res = [x == y, y == x, not x != y]
                    if res != [i == j] * 3:
                        ctx.violation(f"{x!r} == {y!r} gave {res}")


def others(ctx, g):
    """Objects never equal something of another kind, in either direction."""
    kinds(ctx, g)
    objs = same_again(5, 1.5, ids="mixed")
    for o in objs:
        for x in (None, 1, "a", o.typ, [], {}, [o], g.value(), g.bounds(), FileLink("a", "b"), object(),
                  (), ("auto",), ("nope", "nope"), ("nope", None), ("auto", None), ("a", "b", "c"),
                  *[p + q for p in o.uids.items() for q in ((None,), p)], *[[list(p)] for p in o.uids.items()],
                  *[(s,) for s in o.uids], *[(s, None) for s in o.uids]):
            ctx.rows += 1
            with ctx.limit(10):
                res = [o == x, x == o]
            if res != [False, False]:
                ctx.violation(f"{type(o).__name__} == {x!r} gave {res}")
