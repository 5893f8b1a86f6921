"""C05: serializing never changes the data except to give missing ids."""
import io
import json
import multiprocessing
import random

import gemd.json as gj
from gemd.entity.object import IngredientRun, MaterialRun, ProcessRun, ProcessSpec
from gemd.entity.template import ProcessTemplate
from gemd.entity.util import complete_material_history
from gemd.json import GEMDJson
from gemd.util import flatten, set_uuids, substitute_links, make_index, recursive_flatmap

from vp.graphs import calm, shapes, randoms
from vp.heap import Reg, json_node


def records(text):
    return [json_node(r) for r in json.loads(text)["context"]]


def dump_file(x):
    fh = io.StringIO()
    gj.dump(x, fh)
    return fh.getvalue()


# name -> (which objects get ids, scope or None for the default, the operation)
OPS = {
    "dumps": ("all", None, lambda g, x: gj.dumps(x)),
    "dump": ("all", None, lambda g, x: dump_file(x)),
    "scoped dumps": ("all", "My-Scope", lambda g, x: g.dumps(x)),
    "scoped copy": ("all", "My-Scope", lambda g, x: g.copy(x)),
    "thin_dumps": ("some", "My-Scope", lambda g, x: g.thin_dumps(x)),
    "flatten": ("all", "fl", lambda g, x: flatten(x, "fl")),
    "set_uuids": ("all", "Set", lambda g, x: set_uuids(x, "Set")),
    "raw_dumps": ("none", "", lambda g, x: g.raw_dumps(x)),
    "repr": ("none", "", lambda g, x: (repr(x), str(x))),
    "compare": ("none", "", lambda g, x: [a == b for a in flat(x) for b in flat(x)[:4]]),
    "compare other": ("none", "", lambda g, x: [(a == 1, a != None, a == ("s", "i"))  # noqa: E711
                                                for a in flat(x)]),
    "dump method": ("none", "", lambda g, x: [a.dump() for a in flat(x)]),
    "as_dict": ("none", "", lambda g, x: [a.as_dict() for a in flat(x)]),
    "make_index": ("none", "", lambda g, x: make_index(x)),
}
WITH_IDS = {   # these need every object to have an id already
    "flatten without scope": ("none", "", lambda g, x: flatten(x)),
    "substitute_links": ("none", "", lambda g, x: substitute_links(x)),
    "history": ("none", "", lambda g, x: [complete_material_history(a) for a in flat(x)
                                          if isinstance(a, MaterialRun)][:1]),
    **OPS}


def flat(x):
    return recursive_flatmap(x, lambda o: [o], unidirectional=True)


def event(ctx, label, root, objs, ops, events, key):
    g = GEMDJson(scope="My-Scope")
    reg = Reg()
    for o in objs:
        reg.n(o)
    mode, scope, fn = ops[key]
    pre, rt = reg.snap(root)
    with ctx.limit(120):
        fn(g, root)
    post, rt2 = reg.snap(root)
    texts = []
    if mode == "all" and ctx.rng.random() < .35:   # the text, the text again, and the copy's text
        with ctx.limit(120):
            a = gj.dumps(root)
            b = gj.dumps(root)
            c = gj.dumps(gj.loads(a))
            d = GEMDJson("z").dumps(GEMDJson("y").loads(b))
        texts = [records(t) for t in (a, b, c, d)]
        post, rt2 = reg.snap(root)
    if rt != rt2:
        ctx.violation(f"{key} changed the container it was given", {"before": rt, "after": rt2})
    events.append({"ev": {"op": "serialize", "pre": pre, "post": post[:len(pre)], "root": rt,
                          "mode": mode, "scope": "auto" if scope is None else scope, "texts": texts},
                   "info": {"source": label, "call": key}})
    if ctx.rng.random() < .3:
        o = ctx.rng.choice(objs)
        pre, = reg.snap()
        with ctx.limit(60):
            text = g.thin_dumps(o)
        post, ro = reg.snap(o)
        events.append({"ev": {"op": "serialize", "pre": pre, "post": post[:len(pre)], "root": ro,
                              "mode": "some", "scope": "My-Scope", "texts": []},
                       "info": {"source": label, "call": "thin_dumps"}})
        events.append({"ev": {"op": "thin", "h": post, "n": reg.n(o), "rec": json_node(json.loads(text))},
                       "info": {"source": label, "call": "thin_dumps", "text": text}})


def give(n, k):
    """Ids given to objects that are dropped right after: [scope, id, …] of each."""
    given, g = [], GEMDJson(scope="My-Scope")
    for i in range(n):
        cls = (ProcessRun, ProcessSpec, MaterialRun, ProcessTemplate, IngredientRun)[(i // 7 + k) % 5]
        x = cls() if cls is IngredientRun else cls("same")
        fn = (gj.dumps, g.dumps, g.copy, lambda y: set_uuids(y, "Set"), lambda y: flatten(y, "fl"),
              lambda y: g.thin_dumps(MaterialRun("m", process=y) if cls is ProcessRun else y))[(i // 3 + k) % 6]
        fn(x)
        given += [[s.lower(), str(v)] for s, v in x.uids.items()]
    return given


def child(args):
    import random
    n, k = args
    random.seed(0)
    return give(n, k)


def fresh(ctx, events):
    """Ids are new whatever happened to the objects before, to the random state, and in other processes."""
    n = 400 if ctx.thorough else 120
    given = []
    state = random.getstate()
    for k in range(6):
        random.seed(0)      # other libraries do that
        given += give(n, k)
    random.setstate(state)
    same = [(n, 1)] * 4
    for how in ("fork", "spawn"):
        with multiprocessing.get_context(how).Pool(2, maxtasksperchild=1) as pool:
            for ids in pool.map_async(child, same, chunksize=1).get(150):
                given += ids
    ctx.coverage["ids_given"] = len(given)
    events.append({"ev": {"op": "fresh", "given": given}, "info": {"source": "fresh ids", "call": "fresh"}})


def run(ctx):
    t = ctx.thorough
    events = []
    r = ctx.rng
    with calm():
        for i, (label, objs, row) in enumerate(shapes(ctx, None if t else 150)):
            root = r.choice([objs, r.choice(objs), {"a": objs[:3], "b": tuple(objs[2:])}])
            event(ctx, label, root, objs, OPS, events, r.choice(list(OPS)))
        fresh(ctx, events)
        for ids, ops in (("mixed", OPS), ("none", OPS), ("many", WITH_IDS), ("one", WITH_IDS)):
            for i, (label, objs, g) in enumerate(randoms(ctx, 280 if t else 40, links=.15, ids=ids,
                                                         twins=ops is OPS)):
                root = g.container(objs, 3) if r.random() < .6 else objs
                key = list(ops)[i] if i < len(ops) else r.choice(list(ops))
                event(ctx, f"{label}, ids {ids}", root, objs, ops, events, key)
    ctx.sample(events[0]["info"])
    ctx.sample(events[-1])
    ctx.judge("HeapTrace", events, label="serialize")
    ctx.coverage["calls"] = {k: sum(e["info"]["call"] == k for e in events) for k in WITH_IDS}
