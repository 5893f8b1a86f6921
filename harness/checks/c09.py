"""C09: the case-insensitive map behaves as one map over case-folded keys."""
import copy
import pickle

from vp.core import Graph, replay

from gemd.entity.case_insensitive_dict import CaseInsensitiveDict

CFG = """SPECIFICATION Spec
CONSTANTS Letters = {l}
 Vals = {v}
 MaxUpd = {m}
INVARIANTS InvOneSpelling InvRefused EmitView
"""
# concrete spellings of the model's keys; values are tagged objects so identity is visible
SPELLINGS = [{"a": ("a", "A"), "b": ("b", "B"), "c": ("c", "C")},
             {"a": ("my_id", "My_ID"), "b": ("id", "Id"), "c": ("auto", "aUtO")},
             {"a": ("\u00e9\u00df", "\u00c9\u00df"), "b": ("zz", "zZ"), "c": ("k k", "K k")}]
# and of its values: ordinary ones, and ones that count as false
VALUES = [{1: "one", 2: ["two"]}, {1: "", 2: []}, {1: 0, 2: False}]


class World:
    def __init__(self, table, vals):
        self.table = {(l, w): ss[i] for l, ss in table.items()
                      for i, w in enumerate(("lower", "upper"))}
        self.back = {s: k for k, s in self.table.items()}
        self.vals = copy.deepcopy(vals)
        self.d = CaseInsensitiveDict()

    def k(self, k):
        return self.table[tuple(k)]

    def val(self, v):
        for n, x in self.vals.items():
            if type(x) is type(v) and x == v:
                return n
        return 0 if v is None else "?" + repr(v)

    def apply(self, op):
        d, o, res = self.d, op["op"], None
        ps = [(self.k(k), self.vals[v]) for k, v in op.get("ps", ())]
        v = self.vals.get(op.get("v"))
        via = op.get("via")
        try:
            if o == "set":
                d[self.k(op["k"])] = v
            elif o == "del":
                del d[self.k(op["k"])]
            elif o == "pop":
                res = d.pop(self.k(op["k"]))
            elif o == "pop_default":
                res = d.pop(self.k(op["k"]), v)
            elif o == "get_default":
                res = d.get(self.k(op["k"]), v)
            elif o == "setdefault":
                res = d.setdefault(self.k(op["k"]), v)
            elif o == "popitem":
                res = d.popitem()[1]
            elif o == "clear":
                d.clear()
            elif o == "update":
                if via == "pairs":
                    d.update(ps)
                elif via == "mapping":
                    d.update(dict(ps))
                elif via == "kwargs":
                    d.update(**dict(ps))
                elif via == "mixed":
                    d.update(ps[:1], **dict(ps[1:]))
                elif via == "cid":
                    d.update(CaseInsensitiveDict(ps))
                else:
                    before = d
                    d |= ps
                    if d is not before:
                        return {"res": "|= replaced the map", "val": 0}
            elif o == "rebuild":
                self.d = (CaseInsensitiveDict(ps) if via == "pairs" else
                          CaseInsensitiveDict(dict(ps)) if via == "mapping" else
                          CaseInsensitiveDict(**dict(ps)))
            elif o == "copy":
                new = (d.copy() if via is None else copy.copy(d) if via == "copy.copy" else
                       copy.deepcopy(d) if via == "deepcopy" else
                       pickle.loads(pickle.dumps(d)) if via == "pickle" else
                       CaseInsensitiveDict(d.items()))
                if new is d or not isinstance(new, CaseInsensitiveDict):
                    return {"res": "not a new map", "val": 0}
                d.clear()           # the copy is independent of the original
                self.d = new
        except (KeyError, ValueError, TypeError):
            return {"res": "rejected", "val": 0}
        return {"res": "ok", "val": self.val(res)}

    def project(self):
        d = self.d
        items = [[list(self.back.get(k, ("?", k))), self.val(v)] for k, v in d.items()]
        bad = []
        if list(d) != [k for k, _ in d.items()] or list(d.keys()) != list(d) or \
                list(map(self.val, d.values())) != [v for _, v in items]:
            bad.append("iteration")
        read = []
        for k, s in self.table.items():
            try:
                v = self.val(d[s])
            except KeyError:
                v = 0
            if self.val(d.get(s)) != v:
                bad.append("get " + s)
            read.append({"k": list(k), "has": s in d, "val": v})
        if bool(d) != (len(d) > 0):
            bad.append("truth")
        view = {"items": items, "len": len(d), "read": sorted(read, key=str)}
        if bad:
            view["bad"] = bad
        return view


def run(ctx):
    confs = [('{"a", "b"}', "{1, 2}", 2), ('{"a", "b", "c"}', "{1}", 2)]
    if ctx.thorough:
        confs += [('{"a", "b", "c"}', "{1, 2}", 1), ('{"a", "b"}', "{1}", 3)]
    for letters, vals, m in confs:
        r = ctx.tlc("CIDict", CFG.format(l=letters, v=vals, m=m), mem="6g")
        views = {}
        for e in r.lines("VIEW"):
            v = e["view"]
            v["read"] = sorted(v["read"], key=lambda x: str({"k": x["k"], "has": x["has"],
                                                            "val": x["val"]}))
            views[str(e["st"])] = v
        edges = [{"from": views[str(e["from"])], "to": views[str(e["to"])], "op": e["op"],
                  "out": e["out"]} for e in r.lines("EDGE")]
        g = Graph(edges, views["[]"])
        ctx.sample({"letters": letters, "values": vals, "transitions": g.n, "op": edges[len(edges) // 2]["op"]})
        for table, values in zip(SPELLINGS, VALUES):
            table = {k: v for k, v in table.items() if k in letters}
            replay(ctx, g, lambda: World(table, values), f"map {letters} {m}", max_len=3000)
    ctx.coverage["exhaustive"] = True
