"""Random changes to whole graphs of objects, recorded as histories of heaps."""
from collections import deque, UserList

import gemd.entity as E
from gemd.entity.base_entity import BaseEntity
from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.dict_serializable import DictSerializable

from .fields import Maker, BASE
from .gen import Gen
from .graphs import calm
from .heap import Reg, FIELDS, atom, kind, token
from .obs import attempt

INF, NAN = float("inf"), float("nan")
LEVELS = [WarningLevel.IGNORE, WarningLevel.WARNING, WarningLevel.FATAL]
NUM = [0, 1, -1, 5, 2.5, 1e6, -1e6, INF, -INF, NAN, None, "x", "3", [1], True, 10 ** 30]
UNIT = ["", "m", "kg", "degC", None, "no such unit", "m**", "(m", 5, "m/s", "percent"]
TEXTS = ["", "a", "NaCl", "Xx2", "InChI=1S/x", None, 5, ["a"], b"x"]
#: fields of values, bounds and other parts, with arguments to try
PART = {
    "NominalReal": {"units": UNIT}, "UniformReal": {"units": UNIT}, "NormalReal": {"units": UNIT},
    "NominalInteger": {"nominal": NUM}, "UniformInteger": {"lower_bound": NUM, "upper_bound": NUM},
    "NominalCategorical": {"category": TEXTS},
    "DiscreteCategorical": {"probabilities": [{"a": .5, "b": .5}, {"a": .5}, {"a": 2}, {1: 1.0}, "a", None, 5,
                                              {"a": "x"}, {"a": .5, 2: .5}, [("a", 1.0)]]},
    "NominalComposition": {"quantities": [{"a": 1}, [["a", 1]], None, 5, "x", [1], {}]},
    "EmpiricalFormula": {"formula": TEXTS}, "Smiles": {"smiles": TEXTS}, "InChI": {"inchi": TEXTS},
    "RealBounds": {"lower_bound": NUM, "upper_bound": NUM, "default_units": UNIT},
    "IntegerBounds": {"lower_bound": NUM, "upper_bound": NUM},
    "CategoricalBounds": {"categories": [{"a"}, ["a", "b"], ("a",), {1}, ["a", 1], "ab", 5, None, {"a", 2}, []]},
    "CompositionBounds": {"components": [{"a"}, ["a", "b"], ("a",), {1}, ["a", 1], "ab", 5, None, {"a", 2}, []]},
    "PerformedSource": {"performed_by": TEXTS, "performed_date": TEXTS},
}
PLAIN = {"notes", "description"}
FREE = ["changed", "changed", "", " ", "None", "Ünïcode ☃", "new\nline", None]
UNSETTABLE = {"IngredientRun": ["name", "labels", "template"], "IngredientSpec": ["template"],
              "ProcessRun": ["template", "ingredients", "output_material"], "MaterialRun": ["template", "measurements"],
              "ProcessSpec": ["ingredients", "output_material"], "MeasurementRun": ["template"],
              "PropertyAndConditions": ["name", "template", "value", "origin"]}
SCOPES = ["auto", "AUTO", "my_id", "My_Id", "ID", "id", "Other-Scope", "other-scope", "new", "NEW"]
ENUM = {"origin": ["measured", " MEASURED ", "Predicted", "nope", None, 5, "", ["measured"]],
        "sample_type": ["virtual", "Virtual ", "nope", 5, "", ["virtual"]]}


def plain(x):
    """The content of any sequence."""
    return list(x) if isinstance(x, (deque, UserList)) else x


class Ops:
    """One history."""

    def __init__(self, ctx, rows, size=.8, links=.15, rich=.45, focus=None):
        self.ctx, self.r, self.rows, self.focus = ctx, ctx.rng, rows, focus
        self.g = Gen(self.r, links=links, rich=rich)
        self.mk = Maker(self.r)
        self.reg = Reg()
        self.objs = self.g.objects(size)
        for o in self.objs:
            self.reg.n(o)
        self.h, = self.reg.snap()
        self.events = [{"ev": {"op": "start", "h": self.h}, "info": "start"}]

    # ------------------------------------------------------------ what there is
    def places(self):
        """Every part of every object: [(part, [(node, path), …])], by identity."""
        found = {}

        def walk(x, node, path):
            if isinstance(x, BaseEntity) or isinstance(x, E.LinkByUID):
                return
            if isinstance(x, DictSerializable):
                found.setdefault(id(x), (x, []))[1].append((node, path))
                for f in FIELDS.get(kind(x), ()):
                    walk(getattr(x, f), node, f"{path}.{f}")
            elif isinstance(x, (list, tuple)):
                for i, y in enumerate(x):
                    walk(y, node, f"{path}.{i + 1}")
        for o in self.reg.objs:
            for f in FIELDS[kind(o)]:
                walk(getattr(o, f), self.reg.n(o), f)
        return list(found.values())

    def under(self, where):
        """All paths, before or after, at or below these (node, path)s; and derived content."""
        res = []
        for n, p in where:
            for h in (self.h, self.h2):
                if n <= len(h):
                    res += [[n, q] for q in h[n - 1]["f"] if q == p or q.startswith(p + ".") or q.startswith(p + "[")]
        for h in (self.h, self.h2):
            for i, nd in enumerate(h):
                if nd["k"] == "IngredientRun":
                    res += [[i + 1, q] for q in nd["f"] if q == "name" or q.startswith("labels")]
        return [list(x) for x in sorted({tuple(x) for x in res})]

    # ------------------------------------------------------------ one step
    def step(self, what, fn, where, n=0, field="", args=None, op="change", want=()):
        reg = self.reg
        # every object there is stays registered, also one about to be displaced
        level = self.r.choice(LEVELS)
        before = None if args is None else Reg.flat(reg, "", plain(args), {})
        with self.ctx.limit(30), validation_level(level):
            out, res = attempt(fn)
        if op == "construct" and out != "rejected":
            n = reg.n(res)
            self.objs.append(res)
        self.h2, = reg.snap()
        ev = {"op": op, "h": self.h2, "n": n, "field": field, "out": "refused" if out == "rejected" else "ok",
              "paths": self.under(where), "want": [[f, atom("prim", token(v))] for f, v in want], "args": before is None or before == reg.flat("", plain(args), {})}
        # objects seen for the first time only come with arguments or construction
        rec = {"ev": ev, "info": {"what": what, "level": str(level), "out": out,
                                  "error": repr(res)[:200] if out == "rejected" else None}}
        self.events.append(rec)
        known = self.known(what, n, field, out)
        self.h = self.h2
        return known

    def known(self, what, n, field, out):
        """The recorded findings about refused spec-side links; they end the history."""
        if out != "rejected" or field != "process" or not n or self.h[n - 1]["k"] not in ("IngredientSpec", "MaterialSpec"):
            return None
        if self.h == self.h2[:len(self.h)]:
            return None
        a = self.h[n - 1]["f"]["process"]
        if a["t"] != "ref":
            return None
        name = "ingredients" if self.h[n - 1]["k"] == "IngredientSpec" else "output_material"
        pre, post = self.h[a["r"] - 1]["b"][name], self.h2[a["r"] - 1]["b"][name]
        others = [x for i, x in enumerate(self.h) if i != a["r"] - 1] == \
            [x for i, x in enumerate(self.h2[:len(self.h)]) if i != a["r"] - 1]
        one = sum(pre[:i] + pre[i + 1:] == post for i in range(len(pre))) > 0
        p, q = dict(self.h[a["r"] - 1]), dict(self.h2[a["r"] - 1])
        p["b"], q["b"] = dict(p["b"], **{name: []}), dict(q["b"], **{name: []})
        if others and one and p == q:
            key = "refused-ingredient-spec" if name == "ingredients" else "refused-material-spec"
            self.events[-1]["key"] = key
            return key
        return None

    # ------------------------------------------------------------ kinds of step
    def argument(self, row):
        x = self.mk.make(row["kind"], row)[0]
        if self.r.random() < .4:
            pool = [o for o in self.objs if kind(o) in row["field_kinds"]] if self.r.random() < .6 else self.objs
            if pool:
                x = self.r.choice(pool)
        return x

    def field_step(self):
        r = self.r
        o = r.choice(self.objs)
        rows = self.rows.get(kind(o))
        if not rows:
            return None
        row = r.choice(rows)
        return self.field_op(o, self.reg.n(o), row, [(self.reg.n(o), row["field"])])

    def part_field_step(self):
        ps = [(x, w) for x, w in self.places() if kind(x) in self.rows]
        if not ps:
            return None
        x, where = self.r.choice(ps)
        row = self.r.choice(self.rows[kind(x)])
        return self.field_op(x, 0, row, [(n, f"{p}.{row['field']}") for n, p in where])

    def field_op(self, o, n, row, where):
        r, f = self.r, row["field"]
        x = self.argument(row)
        lst = getattr(o, f)
        what = f"{kind(o)}.{f} <- {type(x).__name__}"
        if row["card"] == "one":
            return self.step(what, lambda: setattr(o, f, x), where, n, f)
        good = self.mk.good(row)[0]
        args = r.choice([[x], [good, x], [x, good], [good, good, x], (good, x), deque([good, x]), UserList([good, x])])
        new = [y for y in args if isinstance(y, BaseEntity)] + [x] * isinstance(x, BaseEntity)
        for y in new:
            self.reg.n(y)
        for y in args:       # entries come as pairs
            if isinstance(y, (list, tuple)):
                for z in y:
                    if isinstance(z, BaseEntity):
                        self.reg.n(z)
        self.h, = self.reg.snap()
        self.events[-1]["ev"]["h"] = self.h      # the new arguments exist before the step
        k = r.randrange(14)
        i = r.choice([0, -1, 1, 7, -9])
        fns = [lambda: setattr(o, f, x), lambda: setattr(o, f, args), lambda: setattr(o, f, iter(args)),
               lambda: lst.append(x), lambda: lst.extend(args), lambda: lst.extend(y for y in args),
               lambda: lst.__iadd__(args), lambda: lst.insert(i, x), lambda: lst.__setitem__(i, x),
               lambda: lst.__setitem__(slice(i, None), args), lambda: lst.__setitem__(slice(None, None, 2), args),
               lambda: lst.remove(x), lambda: lst.pop(i), lambda: lst.__delitem__(i)]
        return self.step(f"{what} (list operation {k})", fns[k], where, n, f, args)

    def value_step(self):
        ps = [(x, w) for x, w in self.places() if kind(x) in PART]
        if not ps:
            return None
        x, where = self.r.choice(ps)
        f = self.r.choice(list(PART[kind(x)]))
        v = self.r.choice(PART[kind(x)][f])
        v = type(v)(v) if isinstance(v, (list, dict, set)) else v
        args = v if isinstance(v, (list, dict, set)) else None
        return self.step(f"{kind(x)}.{f} <- {v!r}", lambda: setattr(x, f, v),
                         [(n, f"{p}.{f}") for n, p in where], 0, f, args)

    def uid_step(self):
        r = self.r
        o = r.choice(self.objs)
        s, v = r.choice(SCOPES), self.g.uniq()
        d = {a: self.g.uniq() for a in r.sample(SCOPES, 3)}
        k = r.randrange(8)
        fns = [lambda: o.add_uid(s, v), lambda: o.uids.__setitem__(s, v), lambda: o.uids.update(d),
               lambda: setattr(o, "uids", d), lambda: o.uids.pop(s), lambda: o.uids.__delitem__(s),
               lambda: o.uids.setdefault(s, v), lambda: setattr(o, "uids", None if s == "id" else 5)]
        return self.step(f"{kind(o)}.uids operation {k} with {s}, {list(d)}", fns[k], [], self.reg.n(o), "uids", d)

    def plain_step(self):
        r = self.r
        o = r.choice(self.objs)
        n = self.reg.n(o)
        fs = [f for f in FIELDS[kind(o)] if f in PLAIN]
        k = r.randrange(3)
        if k == 0 and UNSETTABLE.get(kind(o)):
            f = r.choice(UNSETTABLE[kind(o)])
            v = r.choice(["x", None, [], ["a"], o])
            return self.step(f"{kind(o)}.{f} <- {type(v).__name__} (cannot be set)", lambda: setattr(o, f, v), [], n, f)
        if kind(o) == "MaterialRun" and k == 1:
            v = r.choice(ENUM["sample_type"])
            return self.step(f"sample_type <- {v!r}", lambda: setattr(o, "sample_type", v), [(n, "sample_type")], n,
                             "sample_type")
        ps = [(x, w) for x, w in self.places() if kind(x) in ("Property", "Condition", "Parameter")]
        if ps and k == 2:
            x, where = r.choice(ps)
            v = r.choice(ENUM["origin"])
            return self.step(f"origin <- {v!r}", lambda: setattr(x, "origin", v),
                             [(m, p + ".origin") for m, p in where], 0, "origin")
        if not fs:
            return None
        f = r.choice(fs)
        v = r.choice(FREE)
        return self.step(f"{kind(o)}.{f} <- {v!r}", lambda: setattr(o, f, v), [(n, f)], n, f, want=[(f, v)])

    def share_step(self):
        """One object is given another's list or ids; then either is changed in place."""
        r = self.r
        o = r.choice(self.objs)
        others = [x for x in self.objs if x is not o]
        rows = [row for row in self.rows.get(kind(o), ()) if row["card"] != "one"]
        if not rows or not others:
            return None
        if r.random() < .25:
            x = r.choice(others)
            n, m = self.reg.n(o), self.reg.n(x)
            if self.step(f"{kind(o)}.uids <- those of a {kind(x)}", lambda: setattr(o, "uids", x.uids), [], n, "uids"):
                return True
            y, k = r.choice([(o, n), (x, m)])
            v = self.g.uniq()
            return self.step(f"{kind(y)}.uids changed", lambda: y.add_uid("later", v), [], k, "uids")
        row = r.choice(rows)
        f = row["field"]
        others = [x for x in others if any(w["field"] == f for w in self.rows.get(kind(x), ()))
                  and isinstance(getattr(x, f, None), list)]
        if not others:
            return None
        x = r.choice([y for y in others if kind(y) == kind(o)] or others)
        n, m = self.reg.n(o), self.reg.n(x)
        if self.step(f"{kind(o)}.{f} <- that of a {kind(x)}", lambda: setattr(o, f, getattr(x, f)), [(n, f)], n, f):
            return True
        y, k = r.choice([(o, n), (x, m)])
        lst = getattr(y, f)
        good = self.mk.good(dict(row, **{"class": kind(y)}))[0]
        for z in (good if isinstance(good, (list, tuple)) else [good]):
            if isinstance(z, BaseEntity):
                self.reg.n(z)
        self.h, = self.reg.snap()
        self.events[-1]["ev"]["h"] = self.h
        fn = r.choice([lambda: lst.append(good), lambda: lst.insert(0, good), lambda: lst.clear(),
                       lambda: lst.__setitem__(slice(None), [good])])
        return self.step(f"{kind(y)}.{f} changed in place", fn, [(k, f)], k, f)

    def construct_step(self):
        r = self.r
        c = r.choice(list(self.rows))
        if c not in ("ProcessRun", "ProcessSpec", "MaterialRun", "MaterialSpec", "IngredientRun", "IngredientSpec",
                     "MeasurementRun", "MeasurementSpec", "ProcessTemplate", "MaterialTemplate", "MeasurementTemplate",
                     "PropertyTemplate", "Property", "Condition"):
            c = r.choice(["IngredientRun", "IngredientSpec", "MaterialRun", "MaterialSpec", "MeasurementRun"])
        kw = dict(BASE.get(c, dict(name="new")))
        by = {}
        for row in self.rows[c]:
            by.setdefault(row["field"], []).append(row)
        bad = r.choice(list(by)) if r.random() < .7 else None
        for f, rows in by.items():
            if f == bad:
                row = r.choice(rows)
                x = self.argument(row)
                kw[f] = r.choice([x, [x]]) if row["card"] != "one" else x
            elif f in ("process", "material", "spec", "template"):
                pool = [o for o in self.objs if kind(o) in rows[0]["field_kinds"]]
                if pool:
                    kw[f] = r.choice(pool)
            elif rows[0]["card"] != "one" and r.random() < .3:
                kw[f] = [self.mk.good(rows[0])[0]]
        if r.random() < .2:
            kw["uids"] = r.choice([{"a": "1", "A": "2"}, {"a": "1"}, 5])
        if r.random() < .1:
            kw["no_such_argument"] = 1
        free = {f: r.choice(FREE) for f in FIELDS.get(c, ()) if f in PLAIN and r.random() < .5}
        kw.update(free)
        if c != "IngredientRun" and kw.get("name") == "new":
            kw["name"] = free["name"] = r.choice(["new", "", " ", "Ünïcode ☃"])
        items = list(kw.items())
        r.shuffle(items)
        for _, v in items:
            for y in (v if isinstance(v, list) else [v]):
                for z in (y if isinstance(y, (list, tuple)) else [y]):
                    if isinstance(z, BaseEntity):
                        self.reg.n(z)
        self.h, = self.reg.snap()
        self.events[-1]["ev"]["h"] = self.h
        if c in ("Property", "Condition"):
            return self.step(f"construct {c}({sorted(kw)})", lambda: getattr(E, c)(**dict(items)), [], 0, "")
        return self.step(f"construct {c}({sorted(kw)}; {bad})", lambda: getattr(E, c)(**dict(items)), [], 0, "",
                         op="construct", want=free.items())

    def run(self, n):
        steps = [self.field_step] * 5 + [self.part_field_step] * 2 + [self.value_step] * 4 + [self.uid_step] * 2 + \
            [self.plain_step] + [self.construct_step] * 3 + [self.share_step] * 2
        done = 0
        while done < n:
            before = len(self.events)
            known = self.r.choice(steps)()
            done += 1
            if known:
                break
            if len(self.reg.objs) > 45 or (len(self.events) == before and done > 3 * n):
                break
        return self.events


def field_rows(ctx):
    """Class -> rows of FieldRows.tla (without the list routes), each with its field's kinds."""
    table = ctx.table("FieldRows")[1:]
    ok = {}
    for row in table:
        route = "set" if row["card"] == "one" else "append"
        if row["outs"][route] == "accept":
            ok.setdefault((row["class"], row["field"]), set()).add(row["kind"])
    res = {}
    for row in table:
        row = dict(row, field_kinds=ok[row["class"], row["field"]])
        res.setdefault(row["class"], []).append(row)
    return res


def histories(ctx, rows, n, length, only, **kw):
    """Record n histories and have TLC validate them against FrameTrace.tla."""
    with calm():
        groups = [Ops(ctx, rows, **kw).run(length) for _ in range(n)]
    for g in groups:
        for e in g:
            k = "history_steps_" + e["ev"].get("out", "start")
            ctx.coverage[k] = ctx.coverage.get(k, 0) + 1
    ctx.sample([e["info"] for e in groups[0]][:12])
    ctx.judge("FrameTrace", None, groups=groups, only=only, label="history",
              keyf=lambda e, c: e.get("key"))
