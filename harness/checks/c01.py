"""C01: two-way links always agree in both directions."""
from vp.core import Graph, replay
from vp.links import LinkWorld, make, norm

import gemd.json as gj
from gemd.entity.link_by_uid import LinkByUID

CFG = """SPECIFICATION Spec
CONSTANTS Which = "{w}"
 Obj <- ObjDef
 Kind <- KindDef
 Explore <- ExploreDef
INVARIANTS InvTwoWay InvWellKinded InvRejected
"""
TCFG = """SPECIFICATION TSpec
CONSTANTS Obj <- TObj
 Kind <- TKind
 Explore = {}
CHECK_DEADLOCK FALSE
"""
K = {"P": "process_run", "M": "material_run", "I": "ingredient_run", "E": "measurement_run",
     "Q": "process_spec", "N": "material_spec", "J": "ingredient_spec", "F": "measurement_spec"}


def model(ctx, w):
    r = ctx.tlc("MCLinks", CFG.format(w=w))
    edges = [{"from": norm(e["from"]), "to": norm(e["to"]), "op": e["op"], "out": e["out"]}
             for e in r.lines("EDGE")]
    init = edges and next(iter(edges))["from"]   # breadth-first: the first edge leaves Init
    return Graph(edges, init)


def histories(ctx, n, length):
    """Random histories on a larger universe; every event carries the states around it."""
    kinds = UNIVERSE
    rng = ctx.rng
    events = []
    for h in range(n):
        w = LinkWorld(kinds, twins=h % 2 == 0, rng=rng, lazy=True)
        w.near = h % 4 == 1
        for _ in range(length):
            pre = w.project()
            names = list(kinds)
            known = None
            missing = [x for x in names if x not in w.obj]
            op = None
            if missing and rng.random() < 0.5:
                o = rng.choice(missing)
                op = {"op": "construct", "o": o}
                for f in ("process", "material"):
                    op[f] = pick(rng, w, o, f)
                known = w.known(op)
                if known and rng.random() < .9:
                    continue
                out = w.apply(op)
            elif rng.random() < 0.06 and w.obj and not w.near:   # reloading would resolve such links
                op = {"op": "reload"}
                order = list(w.obj)
                new = gj.loads(gj.dumps([w.obj[x] for x in order]))
                w.obj = dict(zip(order, new))
                out = "ok"
            elif w.obj:
                o = rng.choice(list(w.obj))
                fs = [f for f in ("process", "material") if pre["fwd"][o][f] != "na"]
                if not fs:
                    continue
                f = rng.choice(fs)
                op = {"op": "assign", "o": o, "f": f, "t": pick(rng, w, o, f)}
                known = w.known(op)
                if known and rng.random() < .9:
                    continue
                out = w.apply(op)
            if op is None:
                continue
            post = w.project()
            key = known[0] if known and post == known[1] else None
            events.append({"ev": dict(op, pre=pre, post=post, out=out), "key": key,
                           "info": {"twins": w.twins}})
            if key:
                break
    return events


UNIVERSE = {c + str(i): K[c] for c, m in
            (("P", 3), ("M", 3), ("I", 3), ("E", 3), ("Q", 2), ("N", 2), ("J", 3), ("F", 1)) for i in range(m)}


def crowds(ctx):
    """Many objects on one counterpart, moved one by one, and looked at three at a time."""
    rng = ctx.rng
    events = []
    for c, f, target in (("I", "process", "P"), ("J", "process", "Q"), ("E", "material", "M")):
        n = 1300 if c != "J" else 130      # ingredient specs are sought by comparison
        ends = [make(K[target], target + str(i)) for i in range(2)]
        objs = [make(K[c], str(i)) if c != "I" else make(K[c], "", uids={"id": str(i)}) for i in range(n)]
        link = LinkByUID("scope", "elsewhere")
        for phase in range(2):
            for x in objs if phase == 0 else rng.sample(objs, n // 2):
                setattr(x, f, ends[0] if phase == 0 else rng.choice(ends + [None, link]))
            for i in range(0, n, 3):
                w = LinkWorld(UNIVERSE, lazy=True)
                w.obj = {target + str(k): y for k, y in enumerate(ends)}
                w.obj.update({c + str(k): y for k, y in enumerate(objs[i:i + 3])})
                st = w.project()
                for part in ("ings", "meas"):
                    st[part] = {k: [y for y in v if y[0] != "?"] for k, v in st[part].items()}
                events.append({"ev": {"op": "look", "pre": st, "post": st, "out": "ok"},
                               "info": f"{n} objects, {i}", "key": None})
    return events


def pick(rng, w, o, f):
    k = w.kinds[o]
    has = {"process": k.split("_")[0] in ("ingredient", "material"),
           "material": k.startswith("ingredient") or k == "measurement_run"}
    if not has[f]:
        return "na"
    want = f + "_" + k.split("_")[1]
    good = [x for x in w.obj if w.kinds[x] == want]
    r = rng.random()
    if r < 0.75 and good:
        return rng.choice(good)
    if r < 0.93:
        return rng.choice(["none", "link"])
    return rng.choice(["junk"] + [x for x in w.obj])


def run(ctx):
    names = ["ingrun", "ingspec", "outrun", "outspec", "measrun", "mixrun", "crossi", "crossm"]
    if ctx.thorough:
        names += ["mixspec", "mix2run"]
    for w in names:
        g = model(ctx, w)
        kinds = {o: K.get(o[0]) for o in g.state[g.init]["fwd"]}
        if w.endswith("spec"):
            kinds = {o: k.replace("_run", "_spec") for o, k in kinds.items()}
        ctx.sample({"model": w, "transitions": g.n, "first": next(iter(g.adj.values()))[0][0]})
        for twins in (True, False):
            replay(ctx, g, lambda: LinkWorld(kinds, twins, ctx.rng), f"{w} twins={twins}")
    events = histories(ctx, 40 if not ctx.thorough else 600, 60)
    ctx.sample(events[-1])
    with ctx.limit(300):
        events += crowds(ctx)
    ctx.judge("LinksTrace", events, cfg=TCFG, label="recorded history",
              keyf=lambda ev, _: ev["key"])
    ctx.coverage["exhaustive"] = True
    ctx.coverage["note"] = "exhaustive for the named small models; the histories are sampled"
