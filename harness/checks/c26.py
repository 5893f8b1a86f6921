"""C26: a run always reflects its current spec's name, labels and template."""
from vp.core import Graph, replay

import gemd.json as gj
from gemd.entity.object import (IngredientRun, IngredientSpec, ProcessRun, ProcessSpec,
                                MaterialRun, MaterialSpec, MeasurementRun, MeasurementSpec)
from gemd.entity.template import ProcessTemplate, MaterialTemplate, MeasurementTemplate
from gemd.entity.link_by_uid import LinkByUID

CFG = "SPECIFICATION Spec\nCONSTANT Ingredient = {i}\nINVARIANTS InvKept\n"
OTHERS = [(ProcessRun, ProcessSpec, ProcessTemplate), (MaterialRun, MaterialSpec, MaterialTemplate),
          (MeasurementRun, MeasurementSpec, MeasurementTemplate)]
LABELS = {"e": [], "x": ["label x"]}
NAMES = [{"p": "p", "q": "q"}, {"p": "", "q": " "}, {"p": "q", "q": "Q"}]


class World:
    def __init__(self, run, spec, tmpl, rng, names):
        self.nm = names
        self.R, self.T, self.rng = run, tmpl, rng
        self.ing = run is IngredientRun
        if self.ing:
            self.o = {"S1": spec(names["p"], labels=[]), "S2": spec(names["q"], labels=["label x"])}
            self.junk = [ProcessSpec("p"), IngredientRun(), "p", 5]
        else:
            self.o = {"S1": spec(names["p"]), "S2": spec(names["q"]), "T1": tmpl("T1"), "T2": tmpl("T2")}
            self.junk = [run("p"), tmpl("t"), "p", IngredientSpec("p")]
        for n, x in self.o.items():
            x.uids["id"] = n
        self.mem = {"spec": "none", "nm": {"S1": "p", "S2": "q"}, "lb": {"S1": "e", "S2": "x"},
                    "tm": {"S1": "none", "S2": "none"}}
        self.o["run"] = self.new(spec=None)

    def new(self, **kw):
        x = self.R(**kw) if self.ing else self.R("run", **kw)
        x.uids["id"] = "run"
        return x

    def target(self, t):
        return None if t == "none" else LinkByUID("id", "S9") if t == "link" else \
            self.rng.choice(self.junk) if t == "junk" else self.o[t]

    def apply(self, op):
        o = op["op"]
        run = self.o["run"]
        try:
            if o == "spec":
                run.spec = self.target(op["t"])
            elif o == "construct":
                self.o["run"] = self.new(spec=self.target(op["t"]))
            elif o == "rename":
                self.o[op["s"]].name = self.nm[op["n"]]
            elif o == "relabel":
                s = self.o[op["s"]]
                if op["via"] == "assign":
                    s.labels = LABELS[op["l"]]
                elif op["l"] == "e":
                    s.labels.clear()
                else:
                    s.labels[:] = LABELS["x"]
            elif o == "template":
                self.o[op["s"]].template = self.target(op["t"])
            elif o == "reload":
                names = list(self.o)
                self.o = dict(zip(names, gj.loads(gj.dumps([self.o[n] for n in names]))))
            elif o == "copy":
                names = list(self.o)
                self.o = dict(zip(names, gj.GEMDJson().copy([self.o[n] for n in names])))
            elif o == "set_on_run":
                setattr(run, op["f"], {"name": "p", "labels": ["z"], "template": None}[op["f"]])
        except Exception:
            return "rejected"
        return "ok"

    def ref(self, x):
        if x is None:
            return "none"
        if isinstance(x, LinkByUID):
            return "link" if x.id == "S9" else "?link"
        return next((n for n, y in self.o.items() if y is x), "?")

    def name(self, x):
        return "none" if x is None else next((n for n, y in self.nm.items() if y == x), "?")

    def lab(self, x):
        return "none" if x is None else next((n for n, y in LABELS.items() if list(x) == y), "?")

    def project(self):
        run = self.o["run"]
        S = ("S1", "S2")
        spec = self.ref(run.spec)
        s = {"spec": spec, "nm": {k: self.name(self.o[k].name) if self.ing else n
                                  for k, n in zip(S, "pq")},
             "lb": {k: self.lab(self.o[k].labels) if self.ing else l for k, l in zip(S, "ex")},
             "tm": {k: self.ref(self.o[k].template) for k in S}, "kn": "-", "kl": "-"}
        v = {"name": self.name(run.name) if self.ing else run.name, "labels": "-",
             "template": self.ref(run.template)}
        if self.ing:
            v["labels"] = self.lab(run.labels)
            if spec not in S:
                s["kn"], s["kl"] = v["name"], v["labels"]
        return {"s": s, "v": v}


def run(ctx):
    for ing, classes in ((True, [(IngredientRun, IngredientSpec, None)]), (False, OTHERS)):
        edges = list(ctx.tlc("Derive", CFG.format(i=str(ing).upper())).lines("EDGE"))
        g = Graph(edges, edges[0]["from"])
        ctx.sample({"ingredient": ing, "transitions": g.n, "op": edges[-1]["op"]})
        for R, S, T in classes:
            for names in NAMES if ing else NAMES[:1]:
                replay(ctx, g, lambda: World(R, S, T, ctx.rng, names), R.__name__, max_len=2000)
    ctx.coverage["exhaustive"] = True
