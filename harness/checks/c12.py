"""C12: merging bounds gives the smallest bounds containing all of them."""
from fractions import Fraction

from vp.boundsreal import INTS, LABELS, REALS, Realiser, content
from vp.core import CaseTimeout
from vp.obs import attempt


def close(got, want, unit):
    # the model's radian is an integer number of arc seconds
    digits = 5 if unit in ("degree", "radian") else 9
    return abs(Fraction(got) - want) <= Fraction(1, 10 ** digits) * max(abs(want), 1)


def expected(ctx, row, t, res, real, what):
    """Is the content of res what the model says (the model's numbers are in the target's unit)?"""
    x = row["t"]
    if type(res) is not type(t):
        return f"{what} is a {type(res).__name__}"
    if x["k"] in ("cat", "comp"):
        got = res.categories if x["k"] == "cat" else res.components
        return None if set(got) == set(real.labels(row["s"])) else \
            f"{what} holds {str(got)[:300]}, expected {row['s']}"
    if x["k"] == "int":
        want = [real.ints[row["lo"][0]], real.ints[row["hi"][0]]]
        got = [res.lower_bound, res.upper_bound]
        return None if want == got else f"{what} is {got}, expected {want}"
    if x["k"] == "real":
        if res.default_units != t.default_units:
            return f"{what} is in {res.default_units}, expected {t.default_units}"
        for got, n, side in ((res.lower_bound, row["lo"], "lo"), (res.upper_bound, row["hi"], "hi")):
            if real.reals is not None:
                ok = got == real.reals[n[0]]
                want = real.reals[n[0]]
            else:
                want = Fraction(n[0], n[1])
                exact = any(Fraction(o[side]) == want and o["u"] == x["u"]
                            for o in [x] + row["q"])
                ok = got == want if exact else close(got, want, x["u"])
            if not ok:
                return f"{what} has {side} {got}, expected {float(want)}"
    return None


def poke(b):
    """Change everything inside a bounds."""
    for f in ("categories", "components"):
        if hasattr(b, f):
            getattr(b, f).add("poked")
            return
    if hasattr(b, "upper_bound"):
        b.upper_bound = b.upper_bound + 1 if abs(b.upper_bound) < 1e300 else b.upper_bound
        b.lower_bound = b.upper_bound


def check_row(ctx, row, real, label):
    rng = ctx.rng
    t = real.bounds(row["t"])
    near = t       # another bounds made from the very same argument
    if row["t"]["k"] in ("cat", "comp"):
        shared = set(real.labels(row["t"]["s"]))
        t, near = type(t)(shared), type(t)(shared)
    kept = content(near)
    q = [rng.choice(list(real.all(x))) for x in row["q"]]
    snap = [content(o) for o in [t] + q]

    def bad(msg):
        ctx.violation(f"{label}: {snap[0]} with {snap[1:]}: {msg}",
                      {"row": row, "target": snap[0], "others": snap[1:]})
    ctx.rows += 1
    out, res = attempt(lambda: t.union(*q))
    if [content(o) for o in [t] + q] != snap:
        return bad(f"the merging form changed its arguments: {[content(o) for o in [t] + q]}")
    if (out != "rejected") != row["ok"]:
        return bad(f"union was {out}, the model says {'accepted' if row['ok'] else 'refused'}: {res}")
    if row["ok"]:
        err = expected(ctx, row, t, res, real, "the union")
        if err:
            return bad(err)
        poke(res)
        if [content(o) for o in [t] + q] != snap:
            return bad("changing the result of union changed an argument")
    out, err = attempt(lambda: t.update(*q))
    if [content(o) for o in q] != snap[1:]:
        return bad("the updating form changed an argument")
    if (out != "rejected") != row["ok"]:
        return bad(f"update was {out}, the model says {'accepted' if row['ok'] else 'refused'}: {err}")
    if row["ok"]:
        fresh = real.bounds(row["t"])
        err = expected(ctx, row, fresh, t, real, "the updated bounds")
        if err:
            return bad(err)
        if q:
            poke(t)
            if [content(o) for o in q] != snap[1:]:
                return bad("changing the updated bounds changed an argument")
    elif content(t) != snap[0]:
        return bad(f"a refused update changed its target to {content(t)}")
    if near is not t and content(near) != kept:
        return bad(f"another bounds made from the same set changed to {content(near)}")


def run(ctx):
    rows = ctx.table("BoundsMerge")
    ctx.sample({"row": rows[len(rows) // 2]})
    reps = 5 if ctx.thorough else 1
    real = Realiser(ctx.rng)
    for row in rows * reps:
        with ctx.limit(20):
            check_row(ctx, row, real, "merge")
    same = [r for r in rows if r["t"]["k"] == "int" and r["ok"]]

    def some():
        return same * reps if ctx.thorough else ctx.rng.sample(same, min(600, len(same)))
    for m in INTS[1:]:
        for row in some():
            check_row(ctx, row, Realiser(ctx.rng, ints=m), f"integers {m}")
    for m in REALS:
        for u in ["none", "m", "degC"]:
            for row in some():
                row = dict(row, t=dict(row["t"], k="real", u=u),
                           q=[dict(x, k="real", u=u) for x in row["q"]])
                check_row(ctx, row, Realiser(ctx.rng, reals=m), f"reals {m} {u}")
    sets = [r for r in rows if r["t"]["k"] in ("cat", "comp") and r["ok"]]
    for m in LABELS:
        for row in sets * reps if ctx.thorough else ctx.rng.sample(sets, min(150, len(sets))):
            check_row(ctx, row, Realiser(ctx.rng, labels=m), f"labels {str(m)[:60]}")
    # the merge of large collections, in any order, is the merge of their extremes
    big = {}
    for r in rows:
        if r["ok"] and len(r["q"]) == 3:
            big.setdefault(str(r["t"]), []).append(r)
    for k, rs in big.items():
        for _ in range(3 * reps):
            part = ctx.rng.sample(rs, min(8, len(rs)))
            row = dict(part[0], q=[x for r in part for x in r["q"]],
                       s=sorted({c for r in part for c in r["s"]}),
                       lo=min((r["lo"] for r in part), key=lambda n: Fraction(*n)),
                       hi=max((r["hi"] for r in part), key=lambda n: Fraction(*n)))
            ctx.rng.shuffle(row["q"])
            check_row(ctx, row, real, "large merge")
    # one or two that matter, somewhere among many that do not
    odd = [r for r in rows if r["ok"] and 1 <= len(r["q"]) <= 3]
    for row in ctx.rng.sample(odd, min(len(odd), 2000 if ctx.thorough else 250)):
        q = list(row["q"]) + [row["t"]] * ctx.rng.choice([7, 15, 31, 63, 100])
        ctx.rng.shuffle(q)
        with ctx.limit(20):
            check_row(ctx, dict(row, q=q), real, "among many")
    ctx.coverage["exhaustive"] = True
    ctx.assumptions.append("endpoints converted from another unit are compared to 9 digits")
