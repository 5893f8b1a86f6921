"""C08: links by id resolve exactly, with scopes ignoring case."""
import json
import tempfile

import gemd.json as gj
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.object import (ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
                                IngredientRun, MeasurementSpec, MeasurementRun)
from gemd.entity.template import (PropertyTemplate, ConditionTemplate, ParameterTemplate,
                                  ProcessTemplate, MaterialTemplate, MeasurementTemplate)
from gemd.entity.bounds import IntegerBounds
from gemd.util import make_index, substitute_objects, substitute_links

from vp.graphs import calm
from vp.obs import attempt

B = IntegerBounds(0, 1)
MAKE = [ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
        lambda n, uids: IngredientRun(uids=uids), MeasurementSpec, MeasurementRun,
        lambda n, uids: PropertyTemplate(n, bounds=B, uids=uids),
        lambda n, uids: ConditionTemplate(n, bounds=B, uids=uids),
        lambda n, uids: ParameterTemplate(n, bounds=B, uids=uids),
        ProcessTemplate, MaterialTemplate, MeasurementTemplate]
SPELL = [{"s": "auto", "S": "Auto", "t": "my-id", "T": "MY-id", "x": "elsewhere"},
         {"s": "id", "S": "ID", "t": "auto", "T": "AUTO", "x": "id2"},
         {"s": "scope one", "S": "Scope One", "t": "é-scope", "T": "É-scope", "x": "scope"},
         {"s": "a", "S": "A", "t": "b", "T": "B", "x": "ab"},
         {"s": "id-id", "S": "ID-id", "t": "id", "T": "Id", "x": "id-id-id"},
         {"s": "a rather long name of a scope / with parts", "S": "A rather long name of a scope / with parts",
          "t": "a rather long name of a scope", "T": "A RATHER long name of a scope", "x": "a rather"}]


def build(make, u, sp, ids, way, name="thing"):
    d = {sp[s]: ids[i] for s, i in u}
    if way == 0:
        return make(name, uids=d)
    o = make(name, uids={})
    if way == 1:
        for s, i in u:
            o.add_uid(sp[s], ids[i])
    elif way == 2:
        o.uids = d
    else:
        for s, i in u:
            o.uids[sp[s]] = ids[i]
    return o


def shown(o):
    return [[s, i] for s, i in o.uids.items()]


def row(ctx, r):
    rng = ctx.rng
    sp = rng.choice(SPELL)
    ids = rng.choice([{"1": "1", "2": "2", "3": "3"}, {"1": "Abc", "2": "abc", "3": "ABC"},
                      {"1": "x y", "2": "", "3": " x y"}])
    make = rng.choice(MAKE)
    s = None if r["s"] == "none" else sp.get(r["s"], r["s"])
    post = [[sp[a], ids[b]] for a, b in r["post"]]
    links = {(sp[a].lower(), ids[b]) for a, b in r["links"]}
    info = {"row": r, "spelling": sp, "ids": ids}

    def bad(what):
        ctx.violation(f"{r['op']}: {what}", info)
    if r["op"] == "assign":
        d = {sp[a]: ids[b] for a, b in r["u"]}
        fns = [lambda: make("n", uids=d)]
        o = make("n", uids={"keep": "k"})
        fns.append(lambda: setattr(o, "uids", d))
        for k, fn in enumerate(fns):
            out, res = attempt(fn)
            ctx.rows += 1
            if (out == "rejected") != (r["out"] == "rejected"):
                bad(f"{out}, expected {r['out']} for {d}")
        want = [["keep", "k"]] if r["out"] == "rejected" else post
        if shown(o) != want:
            bad(f"left ids {shown(o)}, expected {want}")
        return
    o = build(make, r["u"], sp, ids, rng.randrange(4))
    before = shown(o)
    if before != [[sp[a], ids[b]] for a, b in r["u"]]:
        bad(f"object given ids {r['u']} holds {before}")
        return
    ctx.rows += 1
    if r["op"] == "to_link":
        kw = {"allow_fallback": True} if r["fb"] else rng.choice([{}, {"allow_fallback": False}])
        if s is None:
            out, got = attempt(lambda: o.to_link(**kw))
        else:
            out, got = rng.choice([lambda: attempt(lambda: o.to_link(s, **kw)),
                                   lambda: attempt(lambda: o.to_link(scope=s, **kw))])()
        if (out == "rejected") != (r["out"] == "rejected"):
            bad(f"to_link({s!r}, {kw}) {out}, expected {r['out']}")
        elif out != "rejected":
            if not isinstance(got, LinkByUID) or (got.scope.lower(), got.id) not in links:
                bad(f"to_link({s!r}, {kw}) gave {got!r}, expected one of {links}")
            elif not (got == o and o == got):
                bad(f"the link {got!r} does not equal its object")
    elif r["op"] == "from_entity":
        if s is None and any(x.lower() == "auto" for x in sp.values()):
            return
        if s is None or s == "auto" and rng.random() < .5:
            got = LinkByUID.from_entity(o)
            s = "auto"
        else:
            got = LinkByUID.from_entity(o, scope=s)
        if r["out"] == "fresh":
            post = [[s, got.id]]
            links = {(s.lower(), got.id)}
        if not isinstance(got.id, str) or (got.scope.lower(), got.id) not in links:
            bad(f"from_entity({s!r}) gave {got!r}, expected one of {links}")
        elif not (got == o and o == got):
            bad(f"the link {got!r} does not equal its object")
    elif r["op"] == "equals":
        k = LinkByUID(s, ids[r["i"]])
        t = (s, ids[r["i"]])
        want = r["out"] == "yes"
        got = {"link == obj": k == o, "obj == link": o == k, "not link != obj": not k != o,
               "not obj != link": not o != k, "obj == pair": o == t, "pair == obj": t == o,
               "link in list": k in [o], "obj in list": o in [k]}
        for what, g in got.items():
            if bool(g) is not want:
                bad(f"{what} is {g} for {t} and {before}, expected {want}")
    elif r["op"] == "add":
        i = ids[r["i"]]
        out, _ = attempt(rng.choice([lambda: o.add_uid(s, i), lambda: o.uids.__setitem__(s, i),
                                     lambda: o.uids.update({s: i})]))
        if (out == "rejected") != (r["out"] == "rejected"):
            bad(f"adding {s!r} to {before}: {out}, expected {r['out']}")
    elif r["op"] == "get":
        want = None if r["out"] == "none" else ids[r["out"]]
        got = o.uids.get(s)
        has = s in o.uids
        if got != want or has != (want is not None):
            bad(f"id under {s!r} of {before} is {got!r} (has: {has}), expected {want!r}")
    if shown(o) != post:
        bad(f"left ids {shown(o)}, expected {post}")


def link_pairs(ctx):
    """A link equals the pair of its scope and id, and no other pair up to the scope's case."""
    ids = ["1", "x", "X", "x ", "Abc", "abc", "ABC", "\u00df", "ss", "", "10", "01"]
    scopes = ["auto", "id", "Other", "a b"]
    for s in scopes:
        for i in ids:
            k = LinkByUID(s, i)
            pairs = [(t, j) for t in scopes for j in ids] + [(s,), (i,), (i, s), (s, i, i), (), (s, None), (None, i)]
            for p in pairs:
                ctx.rows += 1
                want = p == (s, i)
                got = [k == p, p == k, not k != p, not p != k, k in [p], p in [k]]
                if any(x is not want for x in got):
                    ctx.violation(f"{k!r} against the pair {p} gives {got}, expected {want}")
            for j in ids:
                if (k == LinkByUID(s, j)) is not (i == j):
                    ctx.violation(f"two links in scope {s!r} with ids {i!r} and {j!r}: equal is {i != j}")
            if {k: 1}.get((s, i)) != 1 or {(s, i): 1}.get(LinkByUID(s, i)) != 1:
                ctx.violation(f"{k!r} is not found by its pair in a dictionary, or the other way around")


def resolve(ctx, r):
    rng = ctx.rng
    sp = rng.choice(SPELL)
    ids = rng.choice([{"1": "1", "2": "2"}, {"1": "Abc", "2": "abc"}])
    # object 2 is always given an id, of its own
    one = build(ProcessRun, r["u"], sp, ids, rng.randrange(4), "one")
    two = build(ProcessRun, r["v"], sp, ids, rng.randrange(4), "two")
    link = LinkByUID(sp[r["s"]], ids[r["i"]])
    want = [None, one, two][r["to"]]
    info = {"row": r, "spelling": sp, "ids": ids}

    def check(what, got, same=None):
        ctx.rows += 1
        if want is None:
            ok = isinstance(got, LinkByUID) and (got.scope, got.id) == (link.scope, link.id)
        else:
            ok = isinstance(got, ProcessRun) and got.name == want.name and (same is None or got is same[r["to"]])
        if not ok:
            ctx.violation(f"{what}: {link!r} became {got!r}, expected "
                          f"{'the link itself' if want is None else want.name}", info)
    routes = ["load", "load field", "index", "index in place", "pairs", "links", "field", "thin"]
    for route in rng.sample(routes, 3):
        objs = [one, two]
        rng.shuffle(objs)
        if route.startswith("load"):
            d = json.loads(gj.dumps([one, two]))
            lk = {"type": "link_by_uid", "scope": link.scope, "id": link.id}
            if route == "load":
                d["object"].append(lk)
                a, b, got = gj.loads(json.dumps(d))
            else:
                d["context"].append({"type": "measurement_run", "name": "m", "uids": {"h": "h"}, "material": None})
                d["context"].append({"type": "material_run", "name": "h", "uids": {"hold": "er"}, "process": lk})
                d["object"].append({"type": "link_by_uid", "scope": "HOLD", "id": "er"})
                a, b, h = gj.loads(json.dumps(d))
                if not isinstance(h, MaterialRun):
                    ctx.violation("loading: a link with another spelling of the scope was not resolved", info)
                    continue
                got = h.process
            check(route, got, [None, a, b])
        elif route == "index":
            check(route, substitute_objects([link], make_index(objs))[0])
        elif route == "index in place":
            x = {"k": [link]}
            substitute_objects(x, make_index(tuple(objs)), inplace=True)
            check(route, x["k"][0], [None, one, two])
        elif route in ("pairs", "links"):
            idx = {(s, i) if route == "pairs" else LinkByUID(s, i): o for o in objs for s, i in o.uids.items()}
            x = (link, 1)
            check(route, substitute_objects(x, idx)[0])
        elif route == "field":
            m = MaterialRun("m", process=link)
            substitute_objects(m, make_index(objs), inplace=True)
            check(route, m.process, [None, one, two])
            m.process = None
        else:
            m = MaterialRun("m", process=link)
            got = substitute_objects(substitute_links(m), make_index(objs))
            check(route, got.process)
    idx = make_index([one, two])
    have = {(k.scope, k.id): v for k, v in idx.items()}
    exp = {(s, i): o for o in (one, two) for s, i in o.uids.items()}
    if set(have) != set(exp) or any(have[k] is not exp[k] for k in exp):
        ctx.violation("make_index does not index every id of every object", dict(info, got=repr(have)))


def run(ctx):
    path = tempfile.mktemp(dir=ctx.scratch, suffix=".ndjson")
    rows = ctx.table("Ids", env={"OUT2": path})
    pairs = [json.loads(x) for x in open(path)]
    ctx.states += len(pairs)
    link_pairs(ctx)
    with calm():
        for _ in range(6 if ctx.thorough else 2):
            for r in rows:
                with ctx.limit(20):
                    row(ctx, r)
        for r in pairs * (3 if ctx.thorough else 1):
            with ctx.limit(20):
                resolve(ctx, r)
    ctx.sample(rows[0])
    ctx.sample(pairs[0])
    ctx.coverage["exhaustive"] = True
    ctx.coverage["note"] = "every id configuration of two scopes in two spellings and two ids"
