"""C06: flattening lists every connected object once, dependencies first."""
import json

import gemd.json as gj
from gemd.entity.object import MaterialRun
from gemd.entity.util import complete_material_history
from gemd.json import GEMDJson
from gemd.util import flatten

from vp.graphs import calm, shapes, randoms
from vp.heap import Reg, copy_node, json_node


def ways(root):
    res = {
        "flatten": lambda: [copy_node(x) for x in flatten(root, "auto")],
        "flatten scope": lambda: [copy_node(x) for x in flatten(root, scope="Other")],
        "dumps": lambda: [json_node(r) for r in json.loads(gj.dumps(root))["context"]],
        "scoped dumps": lambda: [json_node(r) for r in json.loads(
            GEMDJson(scope="s").dumps(root))["context"]],
    }
    if isinstance(root, set):    # JSON has no sets
        del res["dumps"], res["scoped dumps"]
    if isinstance(root, MaterialRun):
        res["complete_material_history"] = lambda: [json_node(r) for r in complete_material_history(root)]
    return res


def event(ctx, label, root, objs, events, way=None):
    w = ways(root)
    if way not in w:
        way = ctx.rng.choice(list(w))
    with ctx.limit(120):
        recs = w[way]()
    reg = Reg()
    for o in objs:
        reg.n(o)
    h, rt = reg.snap(root)
    events.append({"ev": {"op": "flatten", "h": h, "root": rt, "recs": recs, "ordered": True},
                   "info": {"source": label, "way": way}})


def run(ctx):
    t = ctx.thorough
    r = ctx.rng
    events = []
    with calm():
        for label, objs, row in shapes(ctx, None if t else 350):
            root = r.choice([objs, r.choice(objs), r.choice(objs), set(objs[:4]), {"a": objs[:3], "b": tuple(objs[2:])}])
            event(ctx, label, root, objs, events)
        for i, (label, objs, g) in enumerate(randoms(ctx, 1200 if t else 130, links=.15)):
            root = g.container(objs, 3) if r.random() < .4 else r.choice(objs) if r.random() < .5 else objs
            event(ctx, label, root, objs, events)
        for i, (label, objs, g) in enumerate(randoms(ctx, 300 if t else 40, links=.1, ids="many")):
            mats = [o for o in objs if isinstance(o, MaterialRun)]
            event(ctx, label, r.choice(mats), objs, events, "complete_material_history")
            event(ctx, label, objs, objs, events, "flatten")
            with ctx.limit(60):
                recs = [copy_node(x) for x in flatten(objs)]
            h, rt = Reg().snap(objs)
            events.append({"ev": {"op": "flatten", "h": h, "root": rt, "recs": recs, "ordered": True},
                           "info": {"source": label, "way": "flatten without a scope"}})
        from gemd.demo.cake import make_cake
        event(ctx, "cake", make_cake(), [], events, "flatten")
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="flatten")
    ctx.coverage["ways"] = {}
    for e in events:
        k = e["info"]["way"]
        ctx.coverage["ways"][k] = ctx.coverage["ways"].get(k, 0) + 1
