"""C22: an object's dependencies are exactly its outgoing references."""
from gemd.entity.base_entity import BaseEntity
from gemd.entity.link_by_uid import LinkByUID

from vp.graphs import calm, shapes, randoms
from vp.heap import Reg


def event(ctx, label, objs, events):
    reg = Reg()
    for o in objs:
        reg.n(o)
    pre, = reg.snap()
    for o in list(reg.objs):
        with ctx.limit(20):
            got = o.all_dependencies()
        junk = [x for x in got if not isinstance(x, (BaseEntity, LinkByUID))]
        if not isinstance(got, (set, frozenset)) or junk:
            ctx.violation(f"dependencies are not a set of objects and links: {got!r}")
            continue
        post, = reg.snap()
        events.append({"ev": {"op": "deps", "pre": pre, "post": post, "n": reg.n(o),
                              "refs": [reg.n(x) for x in got if isinstance(x, BaseEntity)],
                              "links": [f"{x.scope}|{x.id}" for x in got if isinstance(x, LinkByUID)]},
                       "info": {"source": label, "class": type(o).__name__}})


def run(ctx):
    t = ctx.thorough
    events = []
    with calm():
        for label, objs, row in shapes(ctx, 400 if t else 40):
            event(ctx, label, objs, events)
        for links, rich in ((.1, .9), (.4, .9), (0, .6), (.9, .8)):
            for label, objs, g in randoms(ctx, 150 if t else 14, links=links, rich=rich, size=1.3):
                event(ctx, label, objs, events)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="dependencies")
    ctx.coverage["classes"] = {}
    for e in events:
        c = e["info"]["class"]
        ctx.coverage["classes"][c] = ctx.coverage["classes"].get(c, 0) + 1
