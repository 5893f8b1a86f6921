"""C14: a value inconsistent with its template is treated as the level says."""
import json

from vp.core import Graph, replay
from vp.boundsreal import content
from vp.domain import families
from vp.obs import attempt

from gemd.entity.attribute import Condition, Parameter, Property
from gemd.entity.template import ConditionTemplate, ParameterTemplate, PropertyTemplate
from gemd.entity.link_by_uid import LinkByUID
from gemd.entity.bounds_validation import set_validation_level, WarningLevel

CFG = "SPECIFICATION Spec\nINVARIANTS InvRejected InvFatal InvOrder\n"
PAIRS = [(Property, PropertyTemplate), (Condition, ConditionTemplate),
         (Parameter, ParameterTemplate)]


class World:
    def __init__(self, attr, tmpl, fam, rng, others):
        self.f = families()[fam]
        self.attr, self.rng, self.others = attr, rng, others
        mine = rng.choice(["T1", "T2", "T3", "-"])     # the template that the link refers to
        self.t = {n: tmpl(n, bounds=self.f[b], uids={"scope": "tmpl"} if n == mine else None) for n, b in (("T1", "A"), ("T2", "AB"), ("T3", "X"))
                  if self.f[b] is not None}
        self.t["link"] = LinkByUID("scope", "tmpl")
        self.lvl = WarningLevel.WARNING
        set_validation_level(self.lvl)
        self.x = attr("attr")
        self.kept = self.contents()
        self.junk = ["a", 1.5, object(), [], self.f["A"]]

    def contents(self):
        return {k: content(v) for k, v in self.f.items() if v is not None}

    def val(self, v):
        if v == "junk":
            return self.rng.choice(self.junk + [self.t["T1"]])
        return None if v == "none" else self.f[v]

    def tmpl(self, t):
        if t == "junk":
            return self.rng.choice(self.junk + [self.f["a"]] + [c("o", bounds=self.f["A"])
                                                               for c in self.others])
        return None if t == "none" else self.t[t]

    def apply(self, op):
        def do():
            o = op["op"]
            if o == "level":
                set_validation_level(self.rng.choice([op["l"], WarningLevel(op["l"])]))
            elif o == "bounds":
                self.t["T1"].bounds = self.f["A" if op["b"] == "a" else "B"]
            elif o == "value":
                self.x.value = self.val(op["v"])
            elif o == "template":
                self.x.template = self.tmpl(op["t"])
            else:
                kw = [("value", self.val(op["v"])), ("template", self.tmpl(op["t"]))]
                self.rng.shuffle(kw)
                kw = {k: v for k, v in kw if v is not None or self.rng.random() < .5}
                self.x = self.attr("attr", **kw)
        return attempt(do)[0]

    def name(self, x, table):
        if x is None:
            return "none"
        return next((n for n, y in table.items() if y is x), "?")

    def project(self):
        from gemd.entity.bounds_validation import get_validation_level
        if self.contents() != self.kept:
            return "a value or bounds changed"
        return {"lvl": int(get_validation_level()), "val": self.name(self.x.value, self.f),
                "tmpl": self.name(self.x.template, self.t),
                "tb": {"A": "a", "B": "b"}.get(self.name(self.t["T1"].bounds, self.f), "?")}

    def close(self):
        set_validation_level(WarningLevel.WARNING)


def run(ctx):
    edges = list(ctx.tlc("Attribute", CFG).lines("EDGE"))
    init = edges[0]["from"]
    for fam, f in families().items():
        es = edges if f["AB"] is not None else [e for e in edges if '"T2"' not in json.dumps(e)]
        g = Graph(es, init)
        ctx.sample({"family": fam, "transitions": g.n, "op": es[len(es) // 2]["op"]})
        for attr, tmpl in PAIRS:
            others = [t for _, t in PAIRS if t is not tmpl]
            replay(ctx, g, lambda: World(attr, tmpl, fam, ctx.rng, others),
                   f"{attr.__name__} {fam}", max_len=3000)
    ctx.coverage["exhaustive"] = True
    ctx.assumptions.append("values a and b stand for all values inside/outside: containment "
                           "itself is C11")
