"""C31: objects in dictionary form: what a record must have, may leave out, and what dumping gives."""
import copy
import json

import gemd.entity as E
import gemd.json as gj
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import DictSerializable
from gemd.json import GEMDJson

from vp.gen import Gen
from vp.graphs import calm
from vp.heap import FIELDS, Reg, atom, json_flat, kind, token
from vp.obs import attempt

EMPTY = {"none": ("prim", "none"), "seq": ("seq", "0"), "map": ("map", "0"), "set": ("set", ""),
         "str:unknown": ("prim", "str:unknown")}
FREE = ["name", "notes", "description", "filename", "url", "performed_by", "performed_date", "category"]
UNKNOWN = ["unknown", "measurements", "ingredients", "output_material", "_name", "Name", "typ", "skip", "context", ""]


def parts(o):
    """An object and all parts of it."""
    yield o
    for f in FIELDS[kind(o)]:
        yield from below(getattr(o, f))


def below(x):
    if isinstance(x, BaseEntity):
        return
    if isinstance(x, DictSerializable):
        yield x
        for f in FIELDS.get(kind(x), ()):
            yield from below(getattr(x, f))
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from below(y)


class Pool:
    """Instances of each class, from random graphs in which every object has ids."""

    def __init__(self, ctx, n):
        self.by = {}
        for _ in range(n):
            g = Gen(ctx.rng, ids="one", links=.1, rich=.9, twins=False)
            for o in g.objects(1.2):
                for x in parts(o):
                    self.by.setdefault(kind(x), []).append(x)
            for v in (g.value(), g.bounds(), g.link(), E.NormalReal(1, .5, "m"), E.PerformedSource("a", "b"), E.FileLink(
                    "f", "u"), E.NominalInteger(3), E.IntegerBounds(1, 4), E.RealBounds(0, 2, "m"), E.UniformInteger(2, 4),
                    E.NominalReal(2, "m"), E.UniformReal(2, 3, "m"), E.CategoricalBounds({"a"}), E.CompositionBounds({"b"}),
                    E.PropertyAndConditions(E.Property("p", value=g.value()), [E.Condition("c")])):
                self.by.setdefault(kind(v), []).append(v)


def fields(reg, x):
    """field -> what it has, flattened."""
    res = {f: reg.flat("", getattr(x, f), {}) for f in FIELDS[kind(x)]} if kind(x) in FIELDS else {}
    if kind(x) == "LinkByUID":
        res = {f: reg.flat("", getattr(x, f), {}) for f in ("scope", "id")}
    if hasattr(x, "uids"):
        res["uids"] = reg.flat("", dict(x.uids), {})
    return res


def rec_fields(rec):
    res = {}
    for f, y in rec.items():
        if f == "type":
            continue
        if kind_of(rec) in ("CategoricalBounds", "CompositionBounds"):
            res[f] = {"": {"t": "set", "v": " ".join(sorted(map(token, y))), "r": 0, "s": ""}}
        else:
            res[f] = json_flat("", y, {})
    return res


def kind_of(rec):
    return DictSerializable.class_mapping[rec["type"]].__name__


def shuffled(r, d):
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def make(ctx, route, cls, rec):
    """The object made from a record, and whether the record stays as it was."""
    if route == "from_dict":
        before = dict(rec)
        out, x = attempt(lambda: cls.from_dict(rec))
        return out, x, list(before) == list(rec) and all(before[k] is rec[k] for k in rec)
    before = copy.deepcopy(rec)
    text = json.dumps(rec)
    fn = {"build": lambda: ctx.rng.choice([DictSerializable, cls]).build(rec),
          "loads": lambda: gj.loads(json.dumps({"context": [], "object": rec})),
          "raw_loads": lambda: GEMDJson().raw_loads(text),
          "in a list": lambda: gj.loads(json.dumps({"context": [rec], "object": [rec]}))[0]}[route]
    out, x = attempt(fn)
    return out, x, json.dumps(before) == json.dumps(rec) and json.dumps(rec) == text


ROUTES = ["from_dict", "build", "loads", "raw_loads"]


def row_check(ctx, row, pool, times):
    r, c = ctx.rng, row["class"]
    if c not in pool.by:
        return
    cls = getattr(E, c)
    for _ in range(times):
        o = r.choice(pool.by[c])
        route = r.choice(ROUTES)
        if route == "from_dict":
            o = copy.deepcopy(o)        # a new output takes the place of the old one
        reg = Reg()
        want = fields(reg, o)
        rec = o.as_dict() if route == "from_dict" else json.loads(GEMDJson().thin_dumps(o))
        if route != "from_dict":
            want = rec_fields(rec)
        missing, nulls = set(row["missing"]), set(row["nulls"])
        have = set(rec) - {"type"}
        if have != set(row["fields"]):
            ctx.violation(f"the dictionary of a {c} has fields {sorted(have)}, the specification says "
                          f"{sorted(row['fields'])}", row)
            return
        for f in FREE:      # any text will do
            if (c, f) != ("IngredientRun", "name") and f in rec and (rec[f] is None or isinstance(rec[f], str)) and f in row["fields"] and r.random() < .4:
                rec[f] = r.choice(["", "", " ", "None", "null", "Ünïcode ☃", "x\ny"])
                want[f] = {"": atom("prim", token(rec[f]))}
        rec = {k: None if k in nulls else v for k, v in rec.items() if k not in missing}
        if r.random() < .5:
            rec = dict(rec, **{k: 5 for k in r.sample(UNKNOWN, 2)})
        if route == "from_dict" and r.random() < .5:
            rec.pop("type")
        rec = shuffled(r, rec)
        info = {"class": c, "route": route, "missing": sorted(missing), "nulls": sorted(nulls), "record": repr(rec)[:600]}
        with ctx.limit(30):
            out, x, kept = make(ctx, route, cls, rec)
        ctx.rows += 1
        key = "made" if out != "rejected" else "refused"
        ctx.coverage[key] = ctx.coverage.get(key, 0) + 1
        if not kept:
            ctx.violation(f"{route} of a {c} changed the record", info)
        if row["out"] == "refused":
            if out != "rejected":
                ctx.violation(f"{route}: a {c} without {sorted(missing)} and with nothing for {sorted(nulls)} was made", info)
            continue
        if out == "rejected":
            ctx.violation(f"{route}: a record of a {c} without {sorted(missing)} and with nothing for "
                          f"{sorted(nulls)} was refused: {x!r}", info)
            continue
        if type(x) is not cls:
            ctx.violation(f"{route}: a record of a {c} became a {type(x).__name__}", info)
            continue
        got = fields(reg, x)
        for f, w in row["fields"].items():
            if w == "open":
                continue
            if w == "given":
                ok = got[f] == want[f]
            else:
                top = got[f][""]
                ok = len(got[f]) == 1 and (top["t"], top["v"]) == EMPTY[w]
            if not ok:
                ctx.violation(f"{route}: a {c} without {sorted(missing)} has another {f} than {w}: {got[f]}",
                              dict(info, got=got[f], given=want.get(f)))
                break
        else:
            fresh(ctx, row, x, route, cls, rec, info)


def fresh(ctx, row, x, route, cls, rec, info):
    """What is left out is a new empty list each time, not one that objects share."""
    todo = [f for f, w in row["fields"].items() if w in ("seq", "map", "set") and f in row["missing"] + row["nulls"]]
    for f in todo:
        v = getattr(x, f)
        if isinstance(v, list):
            list.append(v, "left behind")
        elif isinstance(v, set):
            v.add("left behind")
        else:
            v["left"] = "behind"
    if todo:
        out, y, _ = make(ctx, route, cls, rec)
        shared = [f for f in todo if out != "rejected" and len(getattr(y, f))]
        if out == "rejected" or shared:
            ctx.violation(f"{info['class']}: objects share what their records leave out: {shared or y}", info)
        for f in todo:
            getattr(x, f).clear()


# ---------------------------------------------------------------- whole objects
def plain(x):
    if type(x) is dict:
        return all(type(k) is str and plain(v) for k, v in x.items())
    if type(x) is list:
        return all(map(plain, x))
    return x is None or type(x) in (str, int, float, bool)


def whole(ctx, n):
    """dump and as_dict of random objects, and what they are made into; printing changes nothing."""
    r = ctx.rng
    events = []
    for _ in range(n):
        g = Gen(r, ids="one", links=.1, rich=.6)
        objs = g.objects(1)
        reg = Reg()
        for o in objs:
            reg.n(o)
        h, = reg.snap()
        for o in r.sample(objs, min(4, len(objs))):
            with ctx.limit(60):
                d = o.dump()
                text = r.choice([repr, str])(o)
                a = o.as_dict()
            ctx.rows += 1
            if not plain(d) or not isinstance(text, str) or a.get("type") != d.get("type") or set(a) != set(d):
                ctx.violation(f"the dump of a {kind(o)} is not plain data with all its fields", {"dump": repr(d)[:800]})
                continue
            b = DictSerializable.build(d)
            other = Reg()
            other.n(b)
            hb, = other.snap()
            if json.dumps(b.dump(), sort_keys=True) != json.dumps(d, sort_keys=True):
                ctx.violation(f"the dump of a {kind(o)} built from a dump differs from it", {"dump": repr(d)[:800]})
            for x in list(d.values()):          # the dump is the caller's
                if isinstance(x, (list, dict)):
                    x.clear()
            events.append({"ev": {"h": h, "n": reg.n(o), "h2": hb}, "info": {"class": kind(o), "text": text[:200]}})
        h2, = reg.snap()
        if h2 != h:
            ctx.violation("dumping, building or printing changed objects", {"before": h, "after": h2})
    ctx.judge("DictTrace", events, label="built from a dump")


def run(ctx):
    t = ctx.thorough
    rows = list(ctx.tlc("DictForm", "").lines("ROW"))
    with validation_level(WarningLevel.IGNORE), calm():
        pool = Pool(ctx, 60 if t else 20)
        for row in rows:
            row_check(ctx, row, pool, 30 if t else 6)
        missing = {row["class"] for row in rows} - set(pool.by)
        if missing:
            raise RuntimeError(f"no instances of {missing}")
        whole(ctx, 300 if t else 60)
    ctx.sample(rows[5])
    ctx.sample({"rows": len(rows), "classes": len({row["class"] for row in rows})})
