"""
Projection of GEMD object graphs onto the heaps of Heap.tla.

A heap is a sequence of nodes, one per registered object.  A node has its class (k), its ids (u),
its own content flattened to path -> atom (f), and its reverse references (b).  Only public
attributes are read, by the table below.
"""
from enum import Enum

from gemd.entity.base_entity import BaseEntity
from gemd.entity.dict_serializable import DictSerializable
from gemd.entity.link_by_uid import LinkByUID

OBJ = ["name", "notes", "file_links", "tags"]
QTY = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
TPL = ["name", "description", "tags"]
FIELDS = {
    "PropertyTemplate": TPL + ["bounds"], "ConditionTemplate": TPL + ["bounds"],
    "ParameterTemplate": TPL + ["bounds"],
    "ProcessTemplate": TPL + ["conditions", "parameters", "allowed_names", "allowed_labels"],
    "MaterialTemplate": TPL + ["properties"],
    "MeasurementTemplate": TPL + ["properties", "conditions", "parameters"],
    "ProcessSpec": OBJ + ["template", "conditions", "parameters"],
    "ProcessRun": OBJ + ["spec", "conditions", "parameters", "source"],
    "MaterialSpec": OBJ + ["template", "process", "properties"],
    "MaterialRun": OBJ + ["spec", "process", "sample_type"],
    "IngredientSpec": OBJ + QTY + ["labels", "material", "process"],
    "IngredientRun": OBJ + QTY + ["labels", "material", "process", "spec"],
    "MeasurementSpec": OBJ + ["template", "conditions", "parameters"],
    "MeasurementRun": OBJ + ["spec", "material", "properties", "conditions", "parameters", "source"],
    # parts of objects
    "Property": ["name", "value", "template", "origin", "notes", "file_links"],
    "Condition": ["name", "value", "template", "origin", "notes", "file_links"],
    "Parameter": ["name", "value", "template", "origin", "notes", "file_links"],
    "PropertyAndConditions": ["property", "conditions"],
    "FileLink": ["filename", "url"], "PerformedSource": ["performed_by", "performed_date"],
    "NominalReal": ["nominal", "units"], "UniformReal": ["lower_bound", "upper_bound", "units"],
    "NormalReal": ["mean", "std", "units"], "NominalInteger": ["nominal"],
    "UniformInteger": ["lower_bound", "upper_bound"], "NominalCategorical": ["category"],
    "DiscreteCategorical": ["probabilities"], "NominalComposition": ["quantities"],
    "EmpiricalFormula": ["formula"], "Smiles": ["smiles"], "InChI": ["inchi"],
    "RealBounds": ["lower_bound", "upper_bound", "default_units"],
    "IntegerBounds": ["lower_bound", "upper_bound"], "CategoricalBounds": ["categories"],
    "CompositionBounds": ["components"], "MolecularStructureBounds": [],
}
BACK = {"ProcessSpec": ["ingredients", "output_material"], "ProcessRun": ["ingredients", "output_material"],
        "MaterialRun": ["measurements"]}


def kind(x):
    """The library's class that x is an instance of."""
    return next((c.__name__ for c in type(x).__mro__ if c.__name__ in FIELDS), type(x).__name__)


def token(x):
    """Type-tagged text of a primitive."""
    if x is None:
        return "none"
    if isinstance(x, Enum):
        return "str:" + str(x.value)
    for t in (bool, int, float, str, bytes):
        if isinstance(x, t):
            return f"{t.__name__}:{x!r}" if t in (float, bytes) else f"{t.__name__}:{x}"
    return f"{type(x).__name__}:{x!r}"


def atom(t, v="", r=0, s=""):
    return {"t": t, "v": v, "r": r, "s": s}


def norm_scope(s):
    return s.lower() if isinstance(s, str) else repr(s)


def link_atom(x):
    return atom("link", f"{x.scope}|{x.id}", 0, f"{norm_scope(x.scope)}|{x.id}")


class Reg:
    """Numbers objects by identity; keeps them alive."""

    def __init__(self):
        self.objs, self.num = [], {}

    def n(self, obj):
        k = id(obj)
        if k not in self.num:
            self.objs.append(obj)
            self.num[k] = len(self.objs)
        return self.num[k]

    # ------------------------------------------------------------ flattening
    def flat(self, path, x, out):
        if isinstance(x, BaseEntity):
            out[path] = atom("ref", "", self.n(x))
        elif isinstance(x, LinkByUID):
            out[path] = link_atom(x)
        elif isinstance(x, DictSerializable):
            k = kind(x)
            out[path] = atom("part", k)
            for f in FIELDS.get(k, ()):
                self.flat(f"{path}.{f}", getattr(x, f), out)
        elif isinstance(x, (list, tuple)):
            out[path] = atom("seq", str(len(x)))
            for i, y in enumerate(x):
                self.flat(f"{path}.{i + 1}", y, out)
        elif isinstance(x, (set, frozenset)):
            objs = [y for y in x if isinstance(y, DictSerializable)]
            out[path] = atom("set", " ".join(sorted(token(y) for y in x
                                                    if not isinstance(y, DictSerializable))))
            for i, y in enumerate(objs):   # no order: only for traversals
                self.flat(f"{path}.e{i + 1}", y, out)
        elif hasattr(x, "items"):
            keys = sorted(x.items(), key=lambda kv: token(kv[0]) if not isinstance(
                kv[0], DictSerializable) else str(kv[0]))
            out[path] = atom("map", str(len(keys)))
            for i, (k, y) in enumerate(keys):
                if isinstance(k, (DictSerializable, tuple)):
                    self.flat(f"{path}.key{i + 1}", k, out)
                    self.flat(f"{path}.val{i + 1}", y, out)
                else:
                    self.flat(f"{path}[{token(k)}]", y, out)
        else:
            out[path] = atom("prim", token(x))
        return out

    def node(self, obj):
        c = kind(obj)
        f = {}
        for name in FIELDS[c]:
            self.flat(name, getattr(obj, name), f)
        b = {}
        for name in BACK.get(c, ()):
            x = getattr(obj, name)
            xs = [] if x is None else [x] if isinstance(x, DictSerializable) else list(x)
            b[name] = [self.n(y) if isinstance(y, BaseEntity) else 0 for y in xs]
        u = [[s, str(i), f"{norm_scope(s)}|{i}", norm_scope(s)] for s, i in obj.uids.items()]
        return {"k": c, "u": u, "f": f, "b": b}

    def snap(self, *roots):
        """The heap of everything registered and reachable from it; and the roots' own structure."""
        rs = [self.flat("", r, {}) for r in roots]
        nodes, i = [], 0
        while i < len(self.objs):
            nodes.append(self.node(self.objs[i]))
            i += 1
        return (nodes, *rs)

    def aliases(self, root=None):
        """Places that hold one and the same mutable part, list, mapping or set: lists of [node, path].

        Node 0 is the root.  Objects and links are not parts.
        """
        found, keep = {}, []

        def walk(n, path, x):
            if isinstance(x, (BaseEntity, LinkByUID)):
                return
            if isinstance(x, (DictSerializable, list, set)) or hasattr(x, "items"):
                keep.append(x)
                found.setdefault(id(x), []).append([n, path])
                if len(found[id(x)]) > 1:
                    return
            if isinstance(x, DictSerializable):
                for f in FIELDS.get(kind(x), ()):
                    walk(n, f"{path}.{f}", getattr(x, f))
            elif isinstance(x, (list, tuple)):
                for i, y in enumerate(x):
                    walk(n, f"{path}.{i + 1}", y)
            elif hasattr(x, "items"):
                for k, y in x.items():
                    walk(n, f"{path}[{k}]", y)
        walk(0, "", root)
        for i, o in enumerate(list(self.objs)):
            for f in FIELDS[kind(o)]:
                if (kind(o), f) != ("IngredientRun", "labels"):    # its specification's
                    walk(i + 1, f, getattr(o, f))
            walk(i + 1, "uids", o.uids)
        return [p for p in found.values() if len(p) > 1]


# ---------------------------------------------------------------- records in JSON text
CLASS = {"link_by_uid": "LinkByUID", "inchi": "InChI"}


def class_of(typ):
    return CLASS.get(typ) or "".join(w.capitalize() for w in typ.split("_"))


def json_flat(path, x, out, top=False):
    if isinstance(x, dict) and isinstance(x.get("type"), str):
        c = class_of(x["type"])
        if c == "LinkByUID":
            out[path] = atom("link", f"{x['scope']}|{x['id']}", 0, f"{norm_scope(x['scope'])}|{x['id']}")
            return out
        if not top:
            out[path] = atom("part", c)
        for f, y in x.items():
            if f == "type" or (top and f == "uids"):
                continue
            p = f if top else f"{path}.{f}"
            if c in ("CategoricalBounds", "CompositionBounds") and isinstance(y, list):
                out[p] = atom("set", " ".join(sorted(map(token, y))))
            else:
                json_flat(p, y, out)
    elif isinstance(x, list):
        out[path] = atom("seq", str(len(x)))
        for i, y in enumerate(x):
            json_flat(f"{path}.{i + 1}", y, out)
    elif isinstance(x, dict):
        out[path] = atom("map", str(len(x)))
        for k, y in x.items():
            json_flat(f"{path}[{token(k)}]", y, out)
    else:
        out[path] = atom("prim", token(x))
    return out


def json_node(rec):
    """The node of a serialized object, read from the JSON itself."""
    u = [[s, str(i), f"{norm_scope(s)}|{i}", norm_scope(s)] for s, i in (rec.get("uids") or {}).items()]
    return {"k": class_of(rec["type"]), "u": u, "f": json_flat("", rec, {}, top=True), "b": {}}


def copy_node(obj):
    """The node of an object outside any heap (a flattened copy)."""
    return Reg().node(obj)
