"""C10: type-checked lists behave as lists and never admit a foreign element."""
from vp.core import Graph, replay

from gemd.entity.valid_list import ValidList
from gemd.entity.setters import validate_list

CFG = """SPECIFICATION Spec
CONSTANTS Hook = {h}
 MaxLen = {n}
 MaxArg = {m}
INVARIANTS InvAdmitted InvRefused
"""


class A:
    def __init__(self, label):
        self.label = label

    def __eq__(self, other):
        return isinstance(other, A) and other.label == self.label

    def __hash__(self):
        return hash(self.label)

    def __bool__(self):
        """Elements and replacements may well be falsy."""
        return self.label not in ("a", "k")


class B(A):
    """Subclasses of an allowed type are allowed."""


class Bad:
    label = "bad"


class World:
    def __init__(self, hook, rng, via):
        self.calls, self.rng, self.hook, self.via = 0, rng, hook, via
        self.l = self.build([])

    def trigger(self, x):
        self.calls += 1
        if x.label == "boom":
            raise ValueError("refused by hook")
        if x.label == "c":
            return A("k")
        return None

    def build(self, q):
        types = self.rng.choice([(A, str), [A, str], [str, A]])
        make = validate_list if self.via else ValidList
        return make(q, types, trigger=self.trigger if self.hook else None)

    def e(self, e):
        return "n" if e == "n" and not self.hook else Bad() if e == "bad" else \
            (B if self.rng.random() < .3 else A)(e)

    def q(self, q):
        items = [self.e(e) for e in q]
        r = self.rng.randrange(6)
        if r > 3 and "bad" not in q and ("n" not in q or not self.hook):     # a checked list, of the same or other types
            return ValidList(items, self.rng.choice([(A, str), [str, A], (str, A), (A, str, int)]))
        return items if r == 0 else tuple(items) if r == 1 else iter(items) if r == 2 \
            else (x for x in items)

    def lab(self, x):
        return x if isinstance(x, str) else getattr(x, "label", "?")

    def apply(self, op):
        o, l = op["op"], self.l
        self.calls, val = 0, ""
        sl = op.get("sl")
        if sl:
            sl = slice(*[None if x == 99 else x for x in sl[:2]] + [None if sl[2] == 1 and
                       self.rng.random() < .5 else sl[2]])
        try:
            if o == "append":
                l.append(self.e(op["e"]))
            elif o == "insert":
                l.insert(op["i"], self.e(op["e"]))
            elif o == "extend":
                l.extend(self.q(op["q"]))
            elif o == "iadd":
                k = l
                k += self.q(op["q"])
                if k is not l:
                    return {"res": "+= made a new list"}
            elif o == "extend_self":
                l.extend(l)
            elif o == "iadd_self":
                l += l
            elif o == "setitem":
                l[op["i"]] = self.e(op["e"])
            elif o == "setslice":
                l[sl] = self.q(op["q"])
            elif o == "delitem":
                del l[op["i"]]
            elif o == "delslice":
                del l[sl]
            elif o == "pop":
                val = self.lab(l.pop(op["i"]))
            elif o == "remove":
                l.remove("n" if op["e"] == "n" and not self.hook else A(op["e"]))
            elif o == "clear":
                l.clear()
            elif o == "reverse":
                l.reverse()
            elif o == "imul":
                l *= op["i"]
                self.l = l
            elif o == "rebuild":
                self.l = self.build(self.q(op["q"]))
        except Exception:
            return {"res": "rejected", "calls": 0, "val": ""}
        return {"res": "ok", "calls": self.calls, "val": val}

    def project(self):
        return [self.lab(x) for x in self.l]


def run(ctx):
    n, m = (4, 3) if ctx.thorough else (3, 2)
    for hook in (True, False):
        r = ctx.tlc("TypedList", CFG.format(h=str(hook).upper(), n=n if hook else 2, m=m), mem="6g")
        edges = list(r.lines("EDGE"))
        g = Graph(edges, [])
        ctx.sample({"hook": hook, "transitions": g.n, "op": edges[len(edges) // 2]["op"]})
        for via in (False, True) if not hook or ctx.thorough else (False,):
            replay(ctx, g, lambda: World(hook, ctx.rng, via), f"list hook={hook}", max_len=3000)
    ctx.coverage["exhaustive"] = True
