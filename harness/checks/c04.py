"""C04: saving to JSON and loading back rebuilds the same graph."""
import io
import json

import gemd.json as gj
from gemd.entity.object import ProcessRun
from gemd.json import GEMDJson
from gemd.util import flatten

from vp.graphs import calm, shapes, randoms
from vp.heap import Reg
from vp.obs import attempt


def trip(way, x):
    if way == "dumps":
        return gj.loads(gj.dumps(x))
    if way == "indent":
        return gj.loads(gj.dumps(x, indent=2))
    if way == "file":
        fh = io.StringIO()
        gj.dump(x, fh)
        return gj.load(io.StringIO(fh.getvalue()))
    if way == "copy":
        return GEMDJson(scope="Mine").copy(x)
    if way == "context order":    # any order of the context that lists dependencies first
        d = json.loads(gj.dumps(x))
        return gj.loads(json.dumps({"context": d["context"], "object": d["object"]}))
    g = GEMDJson(scope="other")
    return g.loads(g.dumps(x))


def compared(reg, root, loaded):
    h, r1, r2 = reg.snap(root, loaded)
    return {"op": "roundtrip", "h": h, "r1": r1, "r2": r2, "alias": reg.aliases(loaded)}


WAYS = ["dumps", "dumps", "indent", "file", "copy", "context order", "scope"]


def event(ctx, label, root, objs, events):
    way = ctx.rng.choice(WAYS)
    with ctx.limit(60):
        loaded = trip(way, root)
    reg = Reg()
    for o in objs:
        reg.n(o)
    events.append({"ev": compared(reg, root, loaded), "info": {"source": label, "way": way}})


def flat_copies(ctx, events, n):
    """An object that refers to others by links only: dump and build are inverses too."""
    for label, objs, g in randoms(ctx, n, links=.2):
        for x in ctx.rng.sample(flatten(objs, "auto"), 3):
            way = ctx.rng.choice(["build", "raw", "thin"])
            gem = GEMDJson()
            with ctx.limit(60):
                y = type(x).build(x.dump()) if way == "build" else gem.raw_loads(
                    gem.raw_dumps(x) if way == "raw" else gem.thin_dumps(x))
            events.append({"ev": compared(Reg(), x, y),
                           "info": {"source": "flattened object", "way": way}})


def reserved(ctx, events):
    """The word that marks records, as a key or scope of its own."""
    p = ProcessRun("p", uids={"type": "x"})
    for key, root in (("scope-type", p), ("mapping-type", {"type": "text"}), (None, {"type": 5}),
                      (None, [{"type": None, "object": 1, "context": []}])):
        out, loaded = attempt(lambda: trip("dumps", root))
        if out == "rejected":
            ctx.violation(f"cannot be dumped and loaded: {root!r}", {"error": repr(loaded)}, key=key)
        else:
            events.append({"ev": compared(Reg(), root, loaded), "info": "reserved word"})


def run(ctx):
    t = ctx.thorough
    events = []
    with calm():
        for label, objs, row in shapes(ctx, None if t else 300):
            root = ctx.rng.choice([objs, objs, ctx.rng.choice(objs), {"a": objs[:3], "b": tuple(objs[2:])}])
            event(ctx, label, root, objs, events)
        for label, objs, g in randoms(ctx, 1500 if t else 170, links=.15):
            root = g.container(objs, 3) if ctx.rng.random() < .6 else objs
            event(ctx, label, root, objs, events)
        for label, objs, g in randoms(ctx, 40 if t else 6, size=3, ids="none"):
            event(ctx, label, objs, objs, events)
        from gemd.demo.cake import make_cake
        event(ctx, "cake", make_cake(), [], events)
        flat_copies(ctx, events, 300 if t else 30)
        reserved(ctx, events)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="round trip")
