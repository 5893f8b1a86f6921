"""C28: serialized types map to the right classes, including extensions."""
import json
import os
import sys
import functools
import inspect
import itertools

from vp.core import Graph, replay
from vp.samples import instances

import gemd.entity
from gemd.json import GEMDJson
import gemd.json as gj
from gemd.entity.dict_serializable import DictSerializable

CFG = "SPECIFICATION Spec\nCONSTANT MaxDefs = {n}\nCONSTANT Skips = {skips}\nCONSTANT Mixes = {mix}\nINVARIANTS InvOwner InvSkip\n"
COUNT = itertools.count()


def load(text, rng):
    r = rng.randrange(3)
    if r == 0:
        return gj.loads(json.dumps({"context": [], "object": json.loads(text)}))
    if r == 1:
        return GEMDJson().raw_loads(text)
    return GEMDJson(scope="other").raw_loads(json.dumps([json.loads(text)]))[0]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.pre = f"vp{next(COUNT)}_"
        self.classes, self.d = [], []
        self.base = DictSerializable

    def apply(self, op):
        if op["op"] == "tamper":
            m = DictSerializable.class_mapping
            m.pop(self.pre + "t", None)
            m[self.pre + "u"] = int
            m[self.pre + "new"] = int
            m.clear()
            if self.classes:
                self.classes[-1].class_mapping.clear()
            return "ok"
        parent = self.classes[op["parent"] - 1] if op["parent"] else DictSerializable
        parents = (parent,) + ((self.classes[op["extra"] - 1],) if op["extra"] else ())
        kw = {} if op["typ"] == "none" else {"typ": self.pre + op["typ"]}
        if op["skip"] != "none":
            kw["skip"] = {op["skip"]}

        own = f"own{len(self.classes) + 1}"      # each class has a field of its own
        ns = {}
        exec(f"def init(self, x=None, y=7, p=3, q=4, {own}=None):\n"
             f"    self.x, self.y, self.p, self.q, self.{own} = x, y, p, q, {own}\n", ns)
        init = ns["init"]
        try:
            cls = type(DictSerializable)(self.rng.choice(["Same", f"C{len(self.classes) + 1}"]), parents,
                                         {"__init__": init}, **kw)
        except Exception:
            return "rejected"
        self.classes.append(cls)
        self.d.append({"parent": op["parent"], "extra": op["extra"], "typ": op["typ"], "skip": op["skip"]})
        return "ok"

    def close(self):
        """Let go of the classes, where that is possible: each makes every later load slower."""
        reg = getattr(type(DictSerializable), "_class", None)
        if isinstance(reg, dict):
            for t in [t for t in reg if t.startswith(self.pre)]:
                del reg[t]

    def num(self, c):
        return self.classes.index(c) + 1 if c in self.classes else "?" + repr(c)

    def project(self):
        own = {}
        for t in ("t", "u"):
            rec = {"type": self.pre + t, "x": [1, "a"], "y": None, "unknown": 3}
            rec.update({f"own{i + 1}": i for i in range(len(self.classes))})
            try:
                o = load(json.dumps(rec), self.rng)
                own[t] = self.num(type(o))
                if o.x != [1, "a"] or o.y is not None or hasattr(o, "unknown") or \
                        {k: v for k, v in vars(o).items() if k.startswith("own")} != \
                        {f"own{own[t]}": own[t] - 1}:
                    own[t] = "wrong fields"
            except Exception:
                own[t] = 0
            reg = DictSerializable.class_mapping.get(self.pre + t)
            if own[t] != (0 if reg is None else self.num(reg)):
                own[t] = ["registry disagrees", own[t]]
        inst = []
        for i, c in enumerate(self.classes):
            own_i = f"own{i + 1}"
            o = c(x="v", y=len(inst), **{own_i: "mine"})
            try:
                rec = json.loads(GEMDJson().raw_dumps(o))
                t = rec["type"][len(self.pre):]
                b = load(json.dumps(rec), self.rng)
                same = (b.x, b.y, b.p, b.q) == (o.x, o.y, o.p, o.q) and o.as_dict() == dict(rec, type=o.typ) \
                    and rec[own_i] == "mine" and (type(b) is not c or getattr(b, own_i) == "mine")
                inst.append({"typ": t, "loads": self.num(type(b)) if same else "wrong fields",
                             "fields": sorted(set(rec) - {"type", own_i})})
            except Exception:
                inst.append({"typ": "none", "loads": 0, "fields": []})
        try:
            load(json.dumps({"type": self.pre + "new", "x": 1}), self.rng)
            return "a record of an unregistered type was loaded"
        except Exception:
            pass
        return {"d": list(self.d), "v": {"own": own, "n": len(self.classes), "inst": inst}}


def own_fields(cls, o, typ):
    """A user's subclass with a field of its own that is not serialized."""
    def init(self, *args, **kwargs):
        cls.__init__(self, *args, **kwargs)
        self._vp_note = "kept out"
    sub = type(cls)("Noted", (cls,), {"__init__": functools.wraps(cls.__init__)(init),
                                      "vp_note": property(lambda self: self._vp_note)},
                    typ=typ, skip={"_vp_note"})
    sub.__init__.__signature__ = inspect.signature(cls.__init__)
    names = inspect.signature(cls.__init__).parameters
    x = sub(**{k: v for k, v in o.as_dict().items() if k in names})
    bad = []
    if set(x.as_dict()) != set(o.as_dict()):
        bad.append(f"as_dict of a subclass: {set(x.as_dict()) ^ set(o.as_dict())}")
    E = gemd.entity
    if isinstance(o, E.MaterialRun):
        E.MeasurementRun("m", material=x)
    elif isinstance(o, E.ProcessRun):
        E.MaterialRun("m", process=x), E.IngredientRun(process=x)
    elif isinstance(o, E.ProcessSpec):
        E.MaterialSpec("m", process=x), E.IngredientSpec("i", process=x)
    if set(x.as_dict()) != set(o.as_dict()):
        bad.append(f"as_dict with counterparts: {set(x.as_dict()) ^ set(o.as_dict())}")
    y = gj.loads(gj.dumps(x))
    if type(y) is not sub or y.vp_note != "kept out" or y != x:
        bad.append("the subclass does not survive a round trip")
    return bad + extra_field(sub, o, typ)


def extra_field(cls, o, typ):
    """A user's subclass with a constructor argument of its own that is serialized."""
    if isinstance(o, (gemd.entity.CategoricalBounds, gemd.entity.CompositionBounds, gemd.entity.MolecularStructureBounds)):
        return []       # these write their fields themselves

    def init(self, *args, vp_extra=None, **kwargs):
        cls.__init__(self, *args, **kwargs)
        self.vp_extra = vp_extra
    sub = type(cls)("Extra", (cls,), {"__init__": init}, typ=typ)
    sig = inspect.signature(cls.__init__)
    sub.__init__.__signature__ = sig.replace(parameters=[
        p for p in sig.parameters.values() if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)] + [
        inspect.Parameter("vp_extra", inspect.Parameter.KEYWORD_ONLY, default=None)])
    for extra in ({"a": [1, 2.5]}, None, "", [], "text"):
        x = sub(vp_extra=extra, **{k: v for k, v in o.as_dict().items() if k in sig.parameters})
        if set(x.as_dict()) != set(o.as_dict()) | {"vp_extra"}:
            return [f"as_dict of a subclass with one more field: {set(x.as_dict()) ^ set(o.as_dict())}"]
        for y in (gj.loads(gj.dumps(x)), GEMDJson().copy(x), GEMDJson().raw_loads(GEMDJson().raw_dumps(x))):
            if type(y) is not sub or y.vp_extra != extra:
                return [f"the field of a subclass is lost: {extra} became {getattr(y, 'vp_extra', 'nothing')}"]
    return []


def library(ctx, lib):
    """The library's own types, then each replaced by a subclass (in a child process)."""
    objs = instances()
    mapping = DictSerializable.class_mapping
    for typ, name in lib.items():
        cls = getattr(gemd.entity, name)
        o = objs[name]
        rec = json.loads(GEMDJson().raw_dumps(o))
        ctx.rows += 1
        b = load(json.dumps(dict(rec, zzz=1)), ctx.rng)
        if rec["type"] != typ or cls.typ != typ or type(b) is not cls or \
                mapping.get(typ) is not cls or json.loads(GEMDJson().raw_dumps(b)) != rec:
            ctx.violation(f"type {typ} does not map to {name}",
                          {"record": rec, "loaded": repr(b), "registered": repr(mapping.get(typ))})
    for typ, name in lib.items():
        ctx.rows += 1
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                cls = getattr(gemd.entity, name)
                rec = json.loads(GEMDJson().raw_dumps(objs[name]))
                bad = []
                for stranger in ("Stranger", name):
                    try:
                        type(DictSerializable)(stranger, (DictSerializable,), {"__module__": cls.__module__},
                                               typ=typ)
                        bad.append("a stranger took the type")
                    except Exception:
                        pass
                if type(load(json.dumps(rec), ctx.rng)) is not cls:
                    bad.append("a refused claim changed loading")
                plain = type(cls)("Plain", (cls,), {})
                if type(load(json.dumps(rec), ctx.rng)) is not cls:
                    bad.append("a subclass took the type without claiming it")
                sub = type(cls)("Sub", (cls,), {}, typ=typ)
                for j in (GEMDJson(), GEMDJson(scope="x")):
                    x = load(json.dumps(rec), ctx.rng)
                    if type(x) is not sub:
                        bad.append("the subclass is not loaded")
                    elif json.loads(GEMDJson().raw_dumps(x)) != rec:
                        bad.append("fields differ")
                bad += own_fields(sub, objs[name], typ)
                if plain.typ != typ or sub.typ != typ:
                    bad.append("typ")
                os.write(w, json.dumps(bad).encode())
            except BaseException as e:
                os.write(w, json.dumps([f"error {type(e).__name__}: {e}"]).encode())
            finally:
                os._exit(0)
        os.close(w)
        bad = json.loads(os.read(r, 100000).decode() or '["no answer"]')
        os.close(r)
        os.waitpid(pid, 0)
        if bad:
            ctx.violation(f"extending {name}: {bad}", {"typ": typ, "bad": bad})


def run(ctx):
    r = ctx.tlc("Registry", CFG.format(n=5 if ctx.thorough else 4, skips='{"none"}', mix="FALSE"))
    lib = next(r.lines("LIB"))
    with ctx.limit(100):
        library(ctx, lib)
    worlds = [r, ctx.tlc("Registry", CFG.format(
        n=3, skips='{"none", "p", "q"}' if ctx.thorough else '{"none", "p"}', mix="TRUE"))]
    for r in worlds:
        edges = list(r.lines("EDGE"))
        for e in edges:
            for k in ("from", "to"):
                e[k]["v"]["own"] = dict(e[k]["v"]["own"])
        g = Graph(edges, edges[0]["from"])
        ctx.sample({"transitions": g.n, "op": edges[-1]["op"], "library types": len(lib)})
        replay(ctx, g, lambda: World(ctx.rng), "registry", max_len=12)
    ctx.coverage["exhaustive"] = True
