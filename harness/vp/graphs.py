"""Graphs of real objects: every small shape of Shapes.tla, and random rich ones."""
import contextlib
import logging

from gemd.entity.bounds_validation import WarningLevel, validation_level
from gemd.entity.object import (ProcessSpec, ProcessRun, MaterialSpec, MaterialRun, IngredientSpec,
                                IngredientRun, MeasurementSpec, MeasurementRun)

from .gen import Gen
from .heap import Reg
from . import obs  # noqa: F401  silences logging's last resort handler


@contextlib.contextmanager
def calm():
    """Values need not fit their templates here; loading would only log that."""
    with validation_level(WarningLevel.IGNORE), obs.quiet():
        logging.disable(logging.WARNING)
        try:
            yield
        finally:
            logging.disable(logging.NOTSET)


def build_shape(row, kind, g, specs="none", twins=False):
    """The objects of a shape: [process1, process2, material1, material2, ingr1, ingr2, meas]."""
    s, r = row["shape"], g.rng
    run = kind == "run"

    def nm(x):
        return x[:-1] if twins else x
    if run:
        sp = {}
        if specs != "none":
            keys = ["p1", "p2", "m1", "m2", "i1", "i2", "e1"]
            cls = {"p": ProcessSpec, "m": MaterialSpec, "i": IngredientSpec, "e": MeasurementSpec}
            for k in keys:
                k0 = k[0] if specs == "shared" else k
                sp.setdefault(k0, cls[k[0]](nm(k0 + "1"), uids=g.uids()))
                sp[k] = sp[k0]
        P = [ProcessRun(nm(f"P{i}"), spec=sp.get(f"p{i}"), uids=g.uids()) for i in (1, 2)]
        M = [MaterialRun(nm(f"M{i}"), spec=sp.get(f"m{i}"), uids=g.uids()) for i in (1, 2)]
        ings = [IngredientRun(spec=sp.get(f"i{i}"), uids=g.uids()) for i in (1, 2)]
        E = [MeasurementRun(nm("E1"), spec=sp.get("e1"), uids=g.uids())]
    else:
        P = [ProcessSpec(nm(f"P{i}"), uids=g.uids()) for i in (1, 2)]
        M = [MaterialSpec(nm(f"M{i}"), uids=g.uids()) for i in (1, 2)]
        ings = [IngredientSpec(nm(f"I{i}"), uids=g.uids()) for i in (1, 2)]
        E = []
    todo = []
    for i in (0, 1):
        if s["mp"][i]:
            todo.append((M[i], "process", P[s["mp"][i] - 1]))
        if s["ip"][i]:
            todo.append((ings[i], "process", P[s["ip"][i] - 1]))
        if s["im"][i]:
            todo.append((ings[i], "material", M[s["im"][i] - 1]))
    if s["em"] and run:
        todo.append((E[0], "material", M[s["em"] - 1]))
    r.shuffle(todo)
    for o, f, t in todo:
        setattr(o, f, t)
    return P + M + ings + E


def shape_rows(ctx):
    if not hasattr(ctx, "_shapes"):
        ctx._shapes = ctx.table("Shapes")
    return ctx._shapes


def shapes(ctx, n=None, ids="mixed"):
    """(label, objects, row) for n of the shapes (all if None), runs and specs, with and without specs."""
    rows = shape_rows(ctx)
    rows = rows if n is None else ctx.rng.sample(rows, n)
    for row in rows:
        kind = ctx.rng.choice(["run", "run", "spec"])
        if kind == "spec" and row["shape"]["em"]:
            kind = "run"
        specs = ctx.rng.choice(["none", "own", "shared"])
        g = Gen(ctx.rng, ids=ids)
        yield f"shape {kind} {specs}", build_shape(row, kind, g, specs, ctx.rng.random() < .4), row


def randoms(ctx, n, size=1, **kw):
    for _ in range(n):
        g = Gen(ctx.rng, **kw)
        objs = g.objects(size)
        ctx.rng.shuffle(objs)
        yield "random graph", objs, g


def check_shape(ctx, row, objs):
    """The reach and connection the model computes for a shape are those of the real objects."""
    reg = Reg()
    for o in objs:
        reg.n(o)
    return reg
