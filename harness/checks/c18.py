"""C18: unit strings canonicalise idempotently to the same unit."""
import math

from vp.units import Units

from gemd.units import parse_units, convert_units, get_base_units, change_definitions_file


def close(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-9)


class Check:
    def __init__(self, ctx):
        self.ctx, self.rng, self.u = ctx, ctx.rng, Units(ctx)
        self.seen = {}        # canonical form (specification) -> canonical string (code)
        self.back = {}        # canonical string -> meaning (specification)
        self.texts = []

    def one(self, e, row, text):
        """A rendering of an expression whose meaning the specification gave as row."""
        ctx = self.ctx
        ctx.rows += 1
        info = {"expression": text, "items": e, "specification": row}
        try:
            with ctx.limit(20):
                s = parse_units(text)
        except Exception as x:
            return ctx.violation(f"parse_units({text!r}) is refused: {x!r}", info)
        info["parsed"] = s
        if not isinstance(s, str):
            return ctx.violation(f"parse_units({text!r}) gives {s!r}", info)
        try:
            again = parse_units(s)
        except Exception as x:
            return ctx.violation(f"parse_units({text!r}) gives {s!r}, which is refused: {x!r}", info)
        if again != s:
            return ctx.violation(f"parse_units({text!r}) gives {s!r}, which parses to {again!r}", info)
        want = self.seen.setdefault(row["canon"], s)
        if want != s:
            return ctx.violation(f"equivalent spellings give {want!r} and {s!r} ({text!r})", info)
        mean = (tuple(sorted(row["dims"].items())), row["factor"])
        was = self.back.setdefault(s, mean)
        if was[0] != mean[0] or not close(was[1], mean[1]):
            return ctx.violation(f"{text!r} has the canonical form {s!r} of a different unit", info)
        # what the canonical form denotes
        base = self.u.base_expr(row["dims"])
        off = row["lone"] and self.u.unit[row["canon"][0][2]]["off"]
        try:
            for x in (s, text):
                f = convert_units(1.0, x, base) - convert_units(0.0, x, base)
                if not close(f, row["factor"]) and not (off and math.isclose(f, row["factor"], rel_tol=1e-6)):
                    return ctx.violation(f"{x!r} (from {text!r}) denotes {f} {base}, the "
                                         f"specification says {row['factor']}", info)
            b, f, o = get_base_units(s)
            if not close(f, row["factor"]) or (not off and abs(o) > 0):
                return ctx.violation(f"get_base_units({s!r}) = {b}, {f}, {o}; the specification says "
                                     f"factor {row['factor']}", info)
            if parse_units(str(b)) != parse_units(base or "dimensionless"):
                return ctx.violation(f"{s!r} has base unit {b}, the specification says {base}", info)
            unit = parse_units(text, return_unit=True)
            if f"{unit}" != s or parse_units(unit) != unit:
                return ctx.violation(f"parse_units({text!r}, return_unit=True) is {unit}, not {s}", info)
        except Exception as x:
            return ctx.violation(f"{s!r} (from {text!r}) cannot be used: {x!r}", info)
        self.texts.append((text, s))

    # ------------------------------------------------------------ refused expressions
    BAD = ["gibberish", "KG", "JOULE", "METER", "meterr", "zorkmid", "kgg", "SECONDS"]

    def corrupt(self, text):
        """Malformed variants of a good expression, and why."""
        r = self.rng
        w = r.choice(self.BAD)
        return r.choice([
            ("unknown unit", f"{text} * {w}"), ("unknown unit", f"{w} / {text}"),
            ("unknown unit", f"({text}) {w}"), ("unknown unit", f"m/5 {w}"),
            ("foreign operator", f"{text} {r.choice(':;,=@$?!&|<>~')} m"),
            ("dangling operator", f"{text} {r.choice(['*', '/', '**', '^'])}"),
            ("leading operator", f"{r.choice(['*', '/', '**'])} {text}"),
            ("unbalanced", f"({text}"), ("unbalanced", f"{text})"), ("unbalanced", f"m/(s * {text}"),
            ("leading scaling factor", f"{r.choice(['2', '2.5', '1e3', '10^3', '100'])} m"),
            ("leading scaling factor", f"3 * s * ({text})"),
            ("only a number", r.choice(["16", "16.2", "1e3", "10^3", "0.5"])),
            ("scaling factor after its unit", f"({text}) * m 2.5"),
            ("scaling factor with exponent", f"({text}) / 2.5 s^2"),
            ("scaling factor with exponent", f"({text}) / 5^2"),
            ("repeated scaling factor", f"({text}) * 1.1 3.5"),
            ("zero scaling factor", f"({text}) / 0 m"), ("zero scaling factor", f"({text}) * 0"),
        ])

    def refuse(self, text):
        ctx = self.ctx
        why, bad = self.corrupt(text)
        ctx.rows += 1
        for again in range(2):
            try:
                with ctx.limit(20):
                    s = parse_units(bad)
            except Exception:
                continue
            return ctx.violation(f"{bad!r} ({why}) is accepted as {s!r}"
                                 + (" the second time" if again else ""), {"expression": bad})

    def batch(self, exprs, renderings):
        rows = self.u.ask(exprs)
        todo = [(e, row) for e, row in zip(exprs, rows) for _ in range(renderings)]
        self.rng.shuffle(todo)
        for i, (e, row) in enumerate(todo):
            text = self.u.render(e)
            if i == 0:
                self.ctx.sample({"expression": text, "canon": row["canon"], "factor": row["factor"]})
            self.one(e, row, text)
            if self.rng.random() < .15:
                self.refuse(text)


def run(ctx):
    change_definitions_file()
    c = Check(ctx)
    u, r = c.u, ctx.rng
    for x in (5, 2.5, [], ("m",), {}, object(), b"m", True):
        try:
            s = parse_units(x)
        except Exception:
            continue
        ctx.violation(f"parse_units({x!r}) gives {s!r}")
    if parse_units(None) is not None:
        ctx.violation("parse_units(None) is not None")
    # every spelling of every unit and prefix, alone and inside products
    single = [[{"op": "*", "sc": "none", "pre": p, "u": n, "k": 2}]
              for n in u.names for p in ["none"] + u.prefixes
              if p == "none" or u.unit[n]["long"] or u.unit[n]["short"]]
    c.batch(single, 6 if ctx.thorough else 3)
    # every pair of small items (exhaustive over a small universe)
    small = [{"op": o, "sc": s, "pre": "none", "u": n, "k": k}
             for o in "*/" for s in ("none", "q", "e3", "h") for n in ("meter", "second")
             for k in (2, -2, 4, 1)] + \
            [{"op": o, "sc": s, "pre": "none", "u": "", "k": 2} for o in "*/" for s in ("q", "e3", "p5")]
    pairs = [u.legal([dict(a), dict(b)]) for a in small for b in small if a["u"] and a["op"] == "*"]
    if not ctx.thorough:
        pairs = r.sample(pairs, 900)
    c.batch(pairs, 2)
    # random larger expressions
    n = 12000 if ctx.thorough else 1500
    c.batch([u.expr() for _ in range(n)], 3)
    few = r.sample(u.names, 4)
    c.batch([u.expr(names=few, scale=.5) for _ in range(n // 3)], 3)
    ctx.coverage["distinct_canonical_forms"] = len(c.seen)
    # nothing depends on what was parsed before: fresh definitions, another order
    r.shuffle(c.texts)
    for turn in range(2):
        change_definitions_file()
        for text, s in c.texts[:4000 if ctx.thorough else 800]:
            ctx.rows += 1
            if r.random() < .1:
                c.refuse(text)
            try:
                got = parse_units(text)
            except Exception as x:
                got = f"refused: {x!r}"
            if got != s:
                ctx.violation(f"{text!r} gave {s!r} at first and {got!r} after other expressions",
                              {"expression": text})
        c.texts.reverse()
    ctx.assumptions += [
        "unit table, prefixes, aliases and scaling spellings are those listed in Units.tla (84 units)",
        "canonical forms of 100 and 1e2 need not agree; powers of the scaled term need parentheses"]
