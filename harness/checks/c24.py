"""C24: instantiating a spec mirrors its whole history, one run per spec."""
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import ProcessSpec, MaterialSpec, IngredientSpec, MeasurementSpec
from gemd.entity.util import make_instance

from vp.graphs import calm, randoms, build_shape, shape_rows
from vp.gen import Gen
from vp.heap import Reg
from vp.obs import attempt

SPECS = (ProcessSpec, MaterialSpec, IngredientSpec, MeasurementSpec)


def event(ctx, label, o, objs, events):
    reg = Reg()
    for x in objs:
        reg.n(x)
    pre, = reg.snap(o)[:1]
    with ctx.limit(30):
        out, res = attempt(lambda: make_instance(o))
    spec = isinstance(o, SPECS)
    if spec and out != "rejected":
        post, _ = reg.snap(res)
        events.append({"ev": {"op": "instance", "pre": pre, "post": post, "n": reg.n(o),
                              "res": reg.n(res)}, "info": {"source": label, "class": type(o).__name__}})
        return
    post, = reg.snap()
    events.append({"ev": {"op": "unchanged", "pre": pre, "post": post},
                   "info": {"source": label, "class": type(o).__name__}})
    if not spec and out != "rejected":
        ctx.violation(f"made an instance of a {type(o).__name__}", {"result": repr(res)})
    elif spec and not linked(o):
        ctx.violation(f"an instance of a {type(o).__name__} was refused: {res!r}",
                      {"source": label, "heap": pre, "n": reg.n(o)})


def linked(o, seen=None):
    """Whether the history contains a link by id (whose instance nothing is promised about)."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return False
    seen.add(id(o))
    if isinstance(o, LinkByUID):
        return True
    nxt = [o.process] if isinstance(o, MaterialSpec) else [o.material] if isinstance(
        o, IngredientSpec) else list(o.ingredients) if isinstance(o, ProcessSpec) else []
    return any(linked(x, seen) for x in nxt if x is not None)


def alike(r, size):
    """A spec history in which many distinct objects compare equal (same names, no ids)."""
    mats, objs = [], []
    for k in range(size):
        m = MaterialSpec("raw")
        objs.append(m)
        if mats and r.random() < .5:
            p = ProcessSpec("do")
            objs.append(p)
            m.process = p
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                mat = r.choice(mats + [None])
                if mat is None or r.random() < .3:
                    mat = MaterialSpec("raw")
                    objs.append(mat)
                objs.append(IngredientSpec("of", process=p, material=mat))
        mats.append(m)
    return objs


def run(ctx):
    t = ctx.thorough
    r = ctx.rng
    events = []
    with calm():
        g = Gen(r)
        rows = [x for x in shape_rows(ctx) if x["shape"]["em"] == 0]   # specs: every history shape
        for row in rows:
            twins = r.random() < .5
            objs = build_shape(row, "spec", g, twins=twins)
            for o in objs if t else r.sample(objs, 1):
                event(ctx, f"shape twins={twins}", o, objs, events)
        for links in (0, 0, .1):
            for label, objs, g in randoms(ctx, 150 if t else 25, links=links, size=1.5):
                for o in r.sample(objs, min(4, len(objs))):
                    event(ctx, label, o, objs, events)
        for _ in range(300 if t else 60):
            objs = alike(r, r.choice([2, 3, 4, 6]))
            event(ctx, "alike", next((o for o in reversed(objs) if getattr(o, "process", None)), objs[-1]), objs, events)
            event(ctx, "alike", r.choice(objs), objs, events)
        for o in (None, "spec", 3, [], {}, LinkByUID("a", "b"), g.value(), g.bounds(), ProcessSpec,
                  [ProcessSpec("x")], "process_spec"):
            out, res = attempt(lambda: make_instance(o))
            ctx.rows += 1
            if out != "rejected":
                ctx.violation(f"made an instance of {o!r}: {res!r}")
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="instance")
    ctx.coverage["exhaustive"] = True
    ctx.coverage["note"] = "all spec histories of two processes, materials and ingredients"
