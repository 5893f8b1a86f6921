"""C11: bounds contain exactly the bounds and values that lie within them."""
from vp.boundsreal import INTS, LABELS, REALS, Realiser, content
from vp.core import CaseTimeout


def sweep(ctx, rows, real, label, items=None):
    """Compare the answer of every pair; rows: x, yes, open (indices from 1)."""
    objs = [list(real.all(r["x"])) for r in rows]
    snap = [[content(o) for o in os] for os in objs]
    for i, r in enumerate(rows):
        b = objs[i][0]
        yes, opn = set(r["yes"]), set(r["open"])
        try:
            with ctx.limit(60):
                if b.contains(None) is not False:
                    ctx.violation(f"{label}: {content(b)} claims to contain nothing at all")
                for j, os in enumerate(objs):
                    if j + 1 in opn:
                        continue
                    for o in os:
                        ctx.rows += 1
                        try:
                            got = b.contains(o)
                        except Exception as e:
                            got = f"{type(e).__name__}: {e}"
                        if got is not (j + 1 in yes):
                            ctx.violation(
                                f"{label}: does {content(b)} contain {content(o)}? the model says "
                                f"{j + 1 in yes}, the code {got}", {"x": r["x"], "y": rows[j]["x"]})
        except CaseTimeout:
            ctx.violation(f"{label}: containment in {content(b)} does not terminate")
        if content(b) != snap[i][0]:
            ctx.violation(f"{label}: asking changed {snap[i][0]} into {content(b)}")
    for os, ss, r in zip(objs, snap, rows):
        for o, s in zip(os, ss):
            if content(o) != s:
                ctx.violation(f"{label}: being asked about changed {s} into {content(o)}", r["x"])


def run(ctx):
    rows = ctx.table("BoundsContains")
    ctx.sample({"row": rows[len(rows) // 2]["x"], "contains": len(rows[len(rows) // 2]["yes"])})
    for _ in range(4 if ctx.thorough else 1):
        sweep(ctx, rows, Realiser(ctx.rng), "all kinds and units")
    # order only: integer intervals over the ranks, mapped to extreme integers and reals
    idx = [i for i, r in enumerate(rows) if r["x"]["k"] == "int"]
    pos = {j + 1: n + 1 for n, j in enumerate(idx)}
    ints = [{"x": rows[i]["x"], "open": [], "yes": [pos[j] for j in rows[i]["yes"]]} for i in idx]
    for m in INTS[1:]:
        sweep(ctx, ints, Realiser(ctx.rng, ints=m), f"integers {m}")
    for m in REALS:
        for u in ["none", "m", "degC", "percent"]:
            rs = [dict(r, x=dict(r["x"], k="real", u=u)) for r in ints]
            sweep(ctx, rs, Realiser(ctx.rng, reals=m), f"reals {m} {u}")
    # sets of other labels
    idx = [i for i, r in enumerate(rows) if r["x"]["k"] in ("cat", "comp")]
    pos = {j + 1: n + 1 for n, j in enumerate(idx)}
    sets = [{"x": rows[i]["x"], "open": [pos[j] for j in rows[i]["open"] if j in pos],
             "yes": [pos[j] for j in rows[i]["yes"] if j in pos]} for i in idx]
    for m in LABELS:
        sweep(ctx, sets, Realiser(ctx.rng, labels=m), f"labels {str(m)[:60]}")
    ctx.coverage["exhaustive"] = True
    ctx.assumptions += ["equal endpoints in different units whose conversion rounds are left open",
                        "a normal distribution counts as its mean, as documented"]
