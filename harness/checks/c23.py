"""C23: graph traversal visits every reachable object exactly once."""
from collections import OrderedDict, UserDict, UserList, deque

from gemd.util import recursive_foreach, recursive_flatmap

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from vp.graphs import calm, shapes, randoms, build_shape, shape_rows
from vp.gen import Gen
from vp.heap import FIELDS, Reg


class Lazy:
    """Something that can only be iterated over."""

    def __init__(self, q):
        self.q = q

    def __iter__(self):
        return iter(self.q)


class Box(DictSerializable, typ="vp_box"):
    """A record of the user's own, with fields of well-known names."""

    def __init__(self, **kw):
        self.__dict__.update(dict.fromkeys(FIELDS["Box"]), **kw)


FIELDS["Box"] = ["_ingredients", "_output_material", "_measurements", "process", "template", "uids", "first"]


def is_entity(x):
    return isinstance(x, BaseEntity)


def event(ctx, label, root, objs, events, mode=None):
    r = ctx.rng
    reg = Reg()
    for o in objs:
        reg.n(o)
    visits, give = [], []
    h, rt = reg.snap(root)
    if isinstance(root, list) and mode is None and r.random() < .4:     # the same, in another form
        given = root
        root = r.choice([iter, lambda q: map(lambda x: x, q), lambda q: (x for x in q), deque, UserList,
                         lambda q: dict(enumerate(q)).values(), lambda q: OrderedDict(enumerate(q)),
                         lambda q: UserDict(enumerate(q)), lambda q: Lazy(q), reversed, lambda q: filter(lambda x: True, q),
                         lambda q: [iter(q[:1]), zip(q)], lambda q: dict.fromkeys(x for x in q if is_entity(x)).keys()
                         if all(map(is_entity, q)) else q])(root)
    else:
        given = root

    def fn(o):
        visits.append(reg.n(o))
        # results may be equal, unhashable, falsy, themselves objects or containers
        res = r.choice([[], [0], ["x", "x"], ["v"], ["same"], [reg.n(o)], [[1], [1]], [None]])
        give.append([repr(x) for x in res])
        return r.choice([list, tuple, iter])(res)
    mode = mode or r.choice(["foreach", "foreach first", "flatmap", "flatmap uni", "flatmap both"])
    got = []
    with ctx.limit(60):
        if mode == "foreach":
            recursive_foreach(root, fn)
        elif mode == "foreach first":
            recursive_foreach(root, fn, apply_first=True)
        elif mode == "flatmap":
            got = recursive_flatmap(root, fn)
        else:
            got = recursive_flatmap(root, fn, unidirectional=mode == "flatmap uni")
    acc = mode.startswith("flatmap")
    h2, rt2 = reg.snap(given)
    if (h, rt) != (h2, rt2):
        ctx.violation(f"{mode} changed what it traverses", {"before": h, "after": h2})
    events.append({"ev": {"op": "visit", "h": h, "root": rt, "uni": mode in ("flatmap", "flatmap uni"),
                          "visits": visits, "give": give, "acc": acc, "got": [repr(x) for x in got]},
                   "info": {"source": label, "mode": mode}})


def roots(r, g, objs):
    o = r.choice(objs)
    k = r.randrange(9)
    if k == 0:
        return objs
    if k == 8:
        fs = r.sample(FIELDS["Box"], 3)
        b = Box(**{fs[0]: o, fs[1]: [objs[0], "x"], fs[2]: (r.choice(objs), [o])})
        return r.choice([b, [b], [b, b], {"k": b}, Box(first=[b, o], _ingredients=[objs[-1]])])
    if k == 1:
        return {o: r.choice(objs), r.choice(objs): [1, objs[0]]}    # objects as keys
    if k == 2:
        return set(r.sample(objs, min(3, len(objs)))) | {1, "x", None}
    if k == 3:
        return [[o], (o, [o]), {"a": o, "b": {"c": (1, True, 1.0, [objs[0]])}}, "text", b"bytes", None]
    if k == 4:
        return ([objs[0]], [objs[0]], 1, 1, objs[-1:])
    if k == 5:
        return g.container(objs, 4)
    return o


def run(ctx):
    t = ctx.thorough
    r = ctx.rng
    events = []
    with calm():
        g = Gen(r)
        modes = ["foreach", "foreach first", "flatmap", "flatmap both"]
        rows = shape_rows(ctx)
        for row in rows if t else r.sample(rows, 90):   # from every node: as the model says
            objs = build_shape(row, "run", g, "none", r.random() < .5)
            for i, o in enumerate(objs):
                mode = r.choice(modes)
                event(ctx, "shape, from one node", o, objs, events, mode)
                want = row["reach" if mode == "flatmap" else "conn"][i]
                ctx.rows += 1
                if sorted(events[-1]["ev"]["visits"]) != sorted(want):
                    ctx.violation(f"{mode} from node {i + 1} of shape {row['shape']} visited "
                                  f"{events[-1]['ev']['visits']}, the model says {want}", row)
        for label, objs, row in shapes(ctx, 600 if t else 100):
            event(ctx, label, roots(r, g, objs), objs, events)
        for label, objs, g in randoms(ctx, 1200 if t else 170, size=1.2, links=.2):
            event(ctx, label, roots(r, g, objs), objs, events)
        if t:
            for label, objs, g in randoms(ctx, 20, size=12):
                event(ctx, label, roots(r, g, objs), objs, events)
        deep(ctx, events)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="traversal")


def deep(ctx, events):
    """A chain much longer than the interpreter's stack is deep."""
    from gemd.entity.object import ProcessRun, MaterialRun, IngredientRun
    n, objs, last = 1500, [], None
    for i in range(n):
        p = ProcessRun(f"p{i}")
        if last is not None:
            objs.append(IngredientRun(material=last, process=p))
        last = MaterialRun(f"m{i}", process=p)
        objs += [p, last]
    for mode in ("foreach", "flatmap", "both"):
        seen = []

        def fn(o):
            seen.append(id(o))
            return [o]
        with ctx.limit(60):
            if mode == "foreach":
                recursive_foreach(last, fn)
            else:
                recursive_flatmap(last, fn, unidirectional=mode == "flatmap")
        want = {id(x) for x in objs} if mode != "flatmap" else {id(last), id(last.process)}
        ctx.rows += 1
        if len(seen) != len(set(seen)) or set(seen) != want:
            ctx.violation(f"{mode} on a chain of {n} materials visited {len(seen)} objects, "
                          f"expected {len(want)}")
