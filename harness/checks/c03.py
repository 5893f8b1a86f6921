"""C03: fields and lists only ever hold objects of the permitted kinds."""
import gemd.entity as E

from vp.fields import Maker, BASE
from vp.graphs import calm
from vp.gen import Gen
from vp.heap import Reg, kind
from vp.obs import attempt

def same(got, want, entries):
    if entries and isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == 2 and all(g is w for g, w in zip(got, want))
    return got is want or (isinstance(want, str) and got == want)


def row_case(ctx, mk, row):
    c, f, route, card = row["class"], row["field"], row["route"], row["card"]
    cls = getattr(E, c)
    base = dict(BASE.get(c, dict(name="o")))
    x, sx = mk.make(row["kind"], row)
    many = card != "one"
    new = route.startswith("new")
    items = {}
    if many:
        for k in "gh":
            items[k] = mk.good(row)
        items["x"] = (x, sx)
    arg = x
    if route.endswith("_listed"):
        arg = [x]
    elif route in ("set_list", "new_list"):
        arg = [x]
    elif route.endswith("_tuple"):
        arg = tuple(items[k][0] for k in (("g", "x") if route == "set_tuple" else ("x", "g")))
    elif route in ("set_iter", "new_iter"):
        arg = iter([items[k][0] for k in (("g", "x", "h") if route == "set_iter" else ("x", "g", "h"))])
    obj = None
    if new:
        base[f] = arg
        out, obj = attempt(lambda: cls(**base))
        if out == "rejected":
            obj = None
    else:
        if many:
            items["a"], items["b"] = mk.good(row), mk.good(row)
            base[f] = [items["a"][0], items["b"][0]]
        elif f not in base and mk.rng.random() < .5:
            prior = {"performed_by": "me", "performed_date": "now"}.get(f)
            if prior:
                base[f] = prior
        obj = cls(**base)
        lst = getattr(obj, f)
        before = lst

        def do():
            g, x1 = (items["g"][0] if many else None), x
            if route.startswith("set_") or route == "set":
                setattr(obj, f, arg)
            elif route == "append":
                lst.append(x1)
            elif route == "extend":
                lst.extend([x1])
            elif route == "extend_iter":
                lst.extend(iter([g, x1]))
            elif route == "iadd":
                if mk.rng.random() < .5:
                    setattr(obj, f, getattr(obj, f).__iadd__([x1, g]))
                else:
                    lst.__iadd__((x1, g))
            elif route == "insert":
                lst.insert(0, x1)
            elif route == "insert_mid":
                lst.insert(-1, x1)
            elif route == "setitem":
                lst[0] = x1
            elif route == "setitem_last":
                lst[-1] = x1
            elif route == "slice":
                lst[0:1] = [x1, g]
            elif route == "slice_iter":
                lst[1:] = (y for y in (x1, g))
        out, _ = attempt(do)
    ok = out != "rejected"
    want = row["out"]
    if want == "open":
        return
    ctx.rows += 1
    label = f"{c}.{f} given {row['kind']} ({type(x).__name__}) by {route}"
    if ok != (want in ("accept", "empty")):
        ctx.violation(f"{label} was {'accepted' if ok else 'refused'}; the specification says {want}",
                      {"row": row, "argument": repr(x)[:300]})
        return
    if new and not ok:
        return
    got = getattr(obj, f)
    if not many:
        good = same(got, x, False) if ok else got is before or got == before
        if not good:
            ctx.violation(f"{label}: the field then holds {got!r}", {"row": row})
        return
    exp = [items[k][1] for k in row["stored"]]
    if len(got) != len(exp) or not all(same(y, w, card == "entries") for y, w in zip(got, exp)):
        ctx.violation(f"{label}: the field then holds {list(got)!r:.300}, the specification says {row['stored']}",
                      {"row": row})


def histories(ctx, n):
    """Arbitrary assignments on whole graphs: whatever is accepted, every field stays well typed."""
    r, mk, events = ctx.rng, Maker(ctx.rng), []
    rows = histories.rows
    byc = {}
    for row in rows:
        byc.setdefault(row["class"], []).append(row)
    for _ in range(n):
        g = Gen(r, links=.2)
        objs = g.objects(1.2)
        reg = Reg()
        for o in objs:
            reg.n(o)
        parts = []
        for o in objs:
            for f in ("properties", "conditions", "parameters"):
                for a in getattr(o, f, None) or ():
                    if kind(a) in byc:
                        parts.append(a)
                    if hasattr(a, "property"):
                        parts.append(a.property)
        done = []
        for _ in range(40):
            o = r.choice(objs + parts)
            row = r.choice(byc[kind(o)])
            x, _s = mk.make(row["kind"], row)
            if r.random() < .5:      # something from the graph itself
                x = r.choice(objs + parts)
            f = row["field"]
            lst = getattr(o, f)
            ops = [lambda: setattr(o, f, x)] * 3
            if isinstance(lst, list):
                ops += [lambda: lst.append(x), lambda: lst.extend((y for y in [x])), lambda: lst.insert(0, x),
                        lambda: lst.__setitem__(0, x), lambda: lst.__setitem__(slice(0, 1), [x]),
                        lambda: lst.__iadd__([x]), lambda: setattr(o, f, [x, x]), lambda: lst.reverse(),
                        lambda: setattr(o, f, (y for y in [x])), lambda: lst.__imul__(2)]
            if isinstance(lst, list) and len(lst) > 20:
                continue
            out, _ = attempt(r.choice(ops))
            done.append(f"{type(o).__name__}.{f} <- {type(x).__name__}: {out}")
        h, = reg.snap()
        events.append({"ev": {"h": h}, "info": done})
    ctx.sample(events[0]["info"][:10])
    ctx.judge("FieldsTrace", events, label="well-typed heap")


def run(ctx):
    t, r = ctx.thorough, ctx.rng
    table = ctx.table("FieldRows")
    stored = table[0]
    rows = [dict(row, route=k, out=o, stored=stored[k].get(o, []) if row["card"] != "one" else [])
            for row in table[1:] for k, o in row["outs"].items()]
    histories.rows = rows
    for row in rows:
        if row["out"] == "accept" and row["route"] in ("set", "append") and row["kind"] != "none":
            Maker.accepts.setdefault((row["class"], row["field"]), set()).add(row["kind"])
    mk = Maker(r)
    with calm(), ctx.limit(400):
        for _ in range(6 if t else 1):
            for row in rows:
                row_case(ctx, mk, row)
        histories(ctx, 400 if t else 60)
    ctx.coverage["classes"] = len({r["class"] for r in rows})
    ctx.coverage["fields"] = len({(r["class"], r["field"]) for r in rows})
    ctx.coverage["kinds"] = len({r["kind"] for r in rows})
    ctx.sample(rows[0])
