"""C07: replacing objects by links and links by objects are exact inverses."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import MaterialRun, MaterialSpec
from gemd.util import substitute_links, substitute_objects, make_index, flatten

from vp.graphs import calm, shapes, randoms
from vp.heap import Reg, copy_node, kind, norm_scope
from vp.obs import attempt

SCOPES = [None, None, "auto", "MY_ID", "my_id", "id", "Other-scope", "nowhere"]


def reg_of(objs):
    reg = Reg()
    for o in objs:
        reg.n(o)
    return reg


def links(ctx, label, root, objs, inplace, events):
    """One substitution of links for objects; returns the result."""
    reg = reg_of(objs)
    scope = ctx.rng.choice(SCOPES)
    strict = not inplace and scope is not None and ctx.rng.random() < .3
    pre, r1 = reg.snap(root)
    entity = isinstance(root, BaseEntity)
    kw = {"scope": scope} if scope is not None else {}
    if strict:
        kw["allow_fallback"] = False
    if inplace:
        kw["inplace"] = True
    with ctx.limit(30):
        out, res = attempt(lambda: substitute_links(root, **kw))
    post, = reg.snap()
    ev = {"op": "sublinks_strict" if strict else "sublinks", "pre": pre, "post": post[:len(pre)],
          "n": reg.n(root) if entity else 0, "r1": r1, "inplace": inplace,
          "scope": norm_scope(scope) if scope is not None else "", "rec": {}, "r2": {}}
    info = {"source": label, "call": f"substitute_links({type(root).__name__}, {kw})"}
    if out == "rejected":
        if not strict:
            ctx.violation(f"{info['call']} was refused: {res!r}", {"heap": pre, "root": r1})
        else:
            events.append({"ev": dict(ev, op="sublinks_refused"), "info": info})
        return None
    if entity and not inplace:
        if kind(res) != kind(root):
            ctx.violation(f"{info['call']} returned {res!r}")
            return None
        ev["rec"] = copy_node(res)
    else:
        ev["r2"] = Reg().flat("", root if inplace and not isinstance(root, tuple) else res, {})
        if inplace and not isinstance(root, tuple) and res is not root:
            ctx.violation(f"{info['call']} in place returned something else than its argument")
    events.append({"ev": ev, "info": info})
    return res


def index_for(ctx, objs):
    """An index of some of the objects, in one of the forms it can have."""
    r = ctx.rng
    some = list(objs) if r.random() < .6 else [o for o in objs if r.random() < .6]
    k = r.randrange(4)
    if k == 0:    # exactly the objects, keyed by pairs
        idx = {(s, i): o for o in some for s, i in o.uids.items()}
    elif k == 1:  # keyed by links whose scopes are spelled differently
        idx = {LinkByUID(s.swapcase() if s.isascii() else s, i): o
               for o in some for s, i in o.uids.items()}
    elif k == 2:  # what the library makes: everything reachable from them
        idx = make_index(some)
    else:
        idx = make_index(tuple(some))
    return idx


def indexed(reg, idx):
    seen = {}
    for o in idx.values():
        seen[id(o)] = o
    return [reg.n(o) for o in seen.values()]


def objects(ctx, label, root, objs, idx, inplace, events):
    """One substitution of objects for links."""
    reg = reg_of(list(objs) + [o for o in idx.values()])
    pre, r1 = reg.snap(root)
    D = indexed(reg, idx)
    entity = isinstance(root, BaseEntity)
    keys = list(idx.items())
    with ctx.limit(60):
        res = substitute_objects(root, idx, inplace=True) if inplace else substitute_objects(root, idx)
    post, r2 = reg.snap(res)
    if list(idx.items()) != keys and any(a is not c or b is not d for (a, b), (c, d) in zip(idx.items(), keys)):
        ctx.violation("substitute_objects changed the index it was given")
    n = reg.n(root) if entity else 0
    if entity and not inplace:
        # the result is a copy of the root: compare its own content
        r1 = pre[n - 1]["f"]
        r2 = post[reg.n(res) - 1]["f"]
        if post[reg.n(res) - 1]["u"] and sorted(map(str, post[reg.n(res) - 1]["u"])) != sorted(map(str, pre[n - 1]["u"])):
            ctx.violation("substitute_objects returned an object with other ids", {"before": pre[n - 1]})
        n = 0
    events.append({"ev": {"op": "subobjects", "pre": pre, "post": post, "n": n, "r1": r1, "r2": r2,
                          "indexed": D, "inplace": inplace},
                   "info": {"source": label, "call": f"substitute_objects({type(root).__name__}, "
                                                     f"inplace={inplace})"}})
    return res


def container(r, objs):
    o = r.choice(objs)
    k = r.randrange(6)
    if k == 0:
        return list(objs[:5])
    if k == 1:
        return {"a": o, "b": [o, objs[0], {"c": objs[-1]}], "n": 1}
    if k == 2:
        return (o, [objs[0], (objs[-1],)], "x")
    if k == 3:
        return [[o, None], {"k": (o, 1, True, 1.0)}, []]
    if k == 4:
        return {o: "value"}
    return o


def episode(ctx, label, objs, events):
    r = ctx.rng
    o = r.choice(objs)
    k = r.randrange(5)
    if k == 0:          # copies, then back
        res = links(ctx, label, container(r, objs), objs, False, events)
        if res is not None and not isinstance(res, BaseEntity):
            objects(ctx, label, res, objs, index_for(ctx, objs), False, events)
    elif k == 1:        # an entity in place and back, several times
        for _ in range(2):
            x = r.choice(objs)
            links(ctx, label, x, objs, True, events)
        idx = make_index(objs)
        for x in objs:
            objects(ctx, label, x, objs, idx, True, events)
    elif k == 2:        # containers in place
        c = container(r, objs)
        if isinstance(c, BaseEntity):
            c = [c]
        res = links(ctx, label, c, objs, True, events)
        if res is not None:
            objects(ctx, label, res, objs, index_for(ctx, objs), True, events)
    elif k == 3:        # flattened objects are put together again
        with ctx.limit(30):
            flat = flatten(objs)
        x = r.choice(flat)
        # in place, a second material would take over the process of the original one
        material = isinstance(x, (MaterialRun, MaterialSpec))
        objects(ctx, label, x, objs + [x], index_for(ctx, objs), not material and r.random() < .4, events)
    else:               # the flattened objects are their own index
        with ctx.limit(30):
            flat = flatten(objs)
        idx = make_index(flat)
        for x in flat:
            objects(ctx, label, x, flat, idx, True, events)
    return o


def run(ctx):
    t = ctx.thorough
    events = []
    with calm():
        for label, objs, row in shapes(ctx, 1500 if t else 170, ids="many"):
            episode(ctx, label, objs, events)
        for label, objs, g in randoms(ctx, 900 if t else 110, ids="many", links=.1, rich=.7, twins=False):
            episode(ctx, label, objs, events)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1]["info"])
    ctx.judge("HeapTrace", events, label="substitution")
    ctx.coverage["calls"] = {}
    for e in events:
        c = e["ev"]["op"] + (" in place" if e["ev"]["inplace"] else "")
        ctx.coverage["calls"][c] = ctx.coverage["calls"].get(c, 0) + 1
