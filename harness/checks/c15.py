"""C15: scoped validation levels always restore the level they replaced."""
import contextlib

from vp.core import Graph, replay
from vp.obs import attempt

from gemd.entity.attribute import Condition
from gemd.entity.bounds import IntegerBounds
from gemd.entity.template import ConditionTemplate
from gemd.entity.value import NominalInteger
from gemd.entity.object import IngredientSpec, ProcessSpec
from gemd.entity.template import ProcessTemplate
from gemd.entity.value import NominalReal
from gemd.entity import bounds_validation as bv
from gemd.entity.bounds_validation import WarningLevel

CFG = "SPECIFICATION Spec\nCONSTANT MaxDepth = {d}\nINVARIANTS InvLevel InvRestore\n"
TCFG = "SPECIFICATION TSpec\nCONSTANT MaxDepth = 99\nCHECK_DEADLOCK FALSE\n"
BAD = [3, -1, "FATAL", None, 1.5, "", object()]
ACT = {"ok": 0, "warned": 1, "rejected": 2}
T = ConditionTemplate("t", bounds=IntegerBounds(0, 1))
OBJ = ProcessTemplate("o", conditions=[[T, IntegerBounds(0, 0)]])


def acts():
    """The level as everything that consults it behaves."""
    seen = {ACT[attempt(lambda: Condition("c", template=T, value=NominalInteger(7)))[0]],
            ACT[attempt(lambda: IngredientSpec("i", mass_fraction=NominalReal(3, "")))[0]],
            ACT[attempt(lambda: IngredientSpec("i", absolute_quantity=NominalReal(-3, "g")))[0]]}
    p = ProcessSpec("p", template=OBJ)
    seen.add(ACT[attempt(lambda: p.conditions.append(
        Condition("c", template=T, value=NominalInteger(1))))[0]])
    return seen.pop() if len(seen) == 1 else sorted(seen)


class Boom(Exception):
    pass


class World:
    def __init__(self, rng):
        self.rng, self.cms, self.stack, self.prep = rng, [], [], None
        bv.set_validation_level(WarningLevel.WARNING)

    def level(self, l):
        return self.rng.choice(BAD) if l == 9 else self.rng.choice([l, WarningLevel(l)])

    def apply(self, op):
        o = op["op"]
        try:
            if o == "set":
                bv.set_validation_level(self.level(op["l"]))
            elif o == "enter":
                now = int(bv.get_validation_level())
                cm = bv.validation_level(self.level(op["l"]))
                cm.__enter__()
                self.cms.append(cm)
                self.stack.append(now)
            elif o == "prepare":
                self.prep = (op["l"], bv.validation_level(self.level(op["l"])))
            elif o == "enter_prepared":
                now = int(bv.get_validation_level())
                self.prep[1].__enter__()
                self.cms.append(self.prep[1])
                self.stack.append(now)
                self.prep = None
            elif o == "leave":
                cm = self.cms.pop()
                self.stack.pop()
                exc = {"normal": None, "error": Boom("x"), "interrupt": KeyboardInterrupt(),
                       "stop_iteration": StopIteration()}[op["way"]]
                if exc is None:
                    cm.__exit__(None, None, None)
                else:
                    try:
                        if cm.__exit__(type(exc), exc, None):
                            return "swallowed the error"
                    except BaseException as e:
                        if e is not exc:
                            return "replaced the error"
        except Exception:
            return "rejected"
        return "ok"

    def project(self):
        lvl = int(bv.get_validation_level())
        a = acts()
        return {"lvl": lvl if a == lvl else [lvl, a], "stack": list(self.stack),
                "prep": -1 if self.prep is None else self.prep[0]}

    def close(self):
        while self.cms:
            self.cms.pop().__exit__(None, None, None)
        bv.set_validation_level(WarningLevel.WARNING)


class Program:
    """A random program of nested with-statements, left in every way Python has."""

    def __init__(self, rng):
        self.rng, self.steps = rng, []

    def log(self, op, out="ok"):
        self.steps.append({"op": op, "out": out, "lvl": int(bv.get_validation_level()),
                           "acts": acts()})

    def block(self, depth):
        rng = self.rng
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < .3:
                lv = rng.choice([0, 1, 2, 9])
                try:
                    bv.set_validation_level(rng.choice(BAD) if lv == 9 else lv)
                    self.log({"op": "set", "l": lv})
                except Exception:
                    self.log({"op": "set", "l": lv}, "rejected")
            elif depth < 4:
                self.scope(depth)

    def scope(self, depth):
        lv = self.rng.randrange(3)
        way = self.rng.choice(["fall", "raise", "return", "break", "continue", "gen", "nested2",
                               "reraise"])
        enter, left = {"op": "enter", "l": lv}, {"op": "leave", "way": "normal"}

        def body():
            self.log(enter)
            self.block(depth + 1)
        if way == "fall":
            with bv.validation_level(lv):
                body()
        elif way in ("raise", "reraise"):
            try:
                with bv.validation_level(lv):
                    try:
                        body()
                        raise Boom
                    except Boom:
                        if way == "reraise":
                            raise ValueError
                        raise
            except (Boom, ValueError):
                pass
        elif way == "return":
            def f():
                with bv.validation_level(lv):
                    body()
                    return 1
            f()
        elif way == "break":
            while True:
                with bv.validation_level(lv):
                    body()
                    break
        elif way == "continue":
            for _ in range(1):
                with bv.validation_level(lv):
                    body()
                    continue
        elif way == "gen":
            def g():
                with bv.validation_level(lv):
                    body()
                    yield
            it = g()
            next(it)
            it.close()
        else:
            @contextlib.contextmanager
            def between():
                self.log(enter)
                yield
                self.log(left)
            with bv.validation_level(lv), between(), bv.validation_level(2 - lv):
                self.log({"op": "enter", "l": 2 - lv})
                self.block(depth + 1)
        self.log(left)

    def run(self):
        start = self.rng.randrange(3)
        bv.set_validation_level(start)
        try:
            self.block(0)
        finally:
            bv.set_validation_level(WarningLevel.WARNING)
        return {"start": start, "steps": self.steps}


def run(ctx):
    edges = list(ctx.tlc("Levels", CFG.format(d=4 if ctx.thorough else 3)).lines("EDGE"))
    g = Graph(edges, edges[0]["from"])
    ctx.sample({"transitions": g.n, "op": edges[-1]["op"]})
    replay(ctx, g, lambda: World(ctx.rng), "levels", max_len=2000)
    events = [Program(ctx.rng).run() for _ in range(2000 if ctx.thorough else 200)]
    ctx.sample(max(events, key=lambda e: len(e["steps"])))
    ctx.judge("LevelsTrace", [{"ev": e} for e in events], cfg=TCFG, label="program")
    ctx.coverage["exhaustive"] = True
