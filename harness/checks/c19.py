"""C19: unit conversion is consistent, invertible and dimension-safe."""
import copy
import math

from vp.units import Units

from gemd.units import parse_units, convert_units, get_base_units, change_definitions_file

REL = 1e-9
PLAIN = ["count", "radian", "bit", "percent", "mole", "steradian", "becquerel", "hertz",
         "revolutions_per_minute", "counts_per_second", "degree", "byte", "turn", "candela", "lumen",
         "lux", "parts_per_million", "katal"]


class Check:
    def __init__(self, ctx):
        self.ctx, self.rng, self.u = ctx, ctx.rng, Units(ctx)
        u = self.u
        one = [[{"op": "*", "sc": "none", "pre": "none", "u": n, "k": 2}] for n in u.names]
        self.kin = {}
        for e, r in zip(one, u.ask(one)):
            self.kin.setdefault(tuple(sorted(r["dims"].items())), []).append(e[0]["u"])
        self.same = {n: ns for ns in self.kin.values() for n in ns}

    # ------------------------------------------------------------ expressions of the same dimensions
    def variant(self, e):
        """Replace units by others of the same dimensions; reorder; change the scaling."""
        r, u = self.rng, self.u
        e = copy.deepcopy(e)
        for it in e:
            if "in" in it:
                it["in"] = self.variant(it["in"])
                continue
            if it["u"] and r.random() < .7:
                it["u"] = r.choice(self.same[it["u"]])
                d = u.unit[it["u"]]
                it["pre"] = r.choice(u.prefixes + ["none"] * 6) if d["long"] or d["short"] else "none"
            if r.random() < .2 and it["k"] == 2 and it["u"]:
                it["sc"] = r.choice([s for s in u.scales if not s.startswith("neg")])
        if r.random() < .5:
            first, rest = e[0], e[1:]
            r.shuffle(rest)
            e = [first] + rest
        if r.random() < .1:
            n = r.choice(u.names)
            e += [{"op": "*", "sc": "none", "pre": "none", "u": n, "k": 2},
                  {"op": "/", "sc": "none", "pre": "none", "u": r.choice(self.same[n]), "k": 2}]
        return u.legal(e)

    def spoil(self, e):
        """Almost the same dimensions."""
        r, e = self.rng, copy.deepcopy(e)
        n = r.choice(PLAIN + ["radian", "count", "bit", "meter", "second"])
        e.append({"op": r.choice("*/"), "sc": "none", "pre": "none", "u": n, "k": 2})
        return e

    def number(self):
        r = self.rng
        return r.choice([0, 1, -1, 1.0, 0.0, 3, -7, 1e-5, 123456.789, -2.5, 1e12, 2 ** 31,
                         r.uniform(-100, 100), r.uniform(0, 1), 10 ** r.uniform(-20, 20), 37.0])

    def tol(self, row, x):
        """Rounding: relative to the largest intermediate number."""
        return REL * max(abs(x * row["fa"]), abs(row["za"]), abs(row["zb"])) / abs(row["fb"])

    def pair(self, a, b, row):
        ctx = self.ctx
        ta, tb, x = self.u.render(a), self.u.render(b), self.number()
        if self.rng.random() < .3:
            ta = parse_units(ta)
        if self.rng.random() < .3:
            tb = parse_units(tb)
        info = {"value": x, "from": ta, "to": tb, "specification": row}
        ctx.rows += 1
        if row["ok"] == "open":
            return
        try:
            with ctx.limit(20):
                y = convert_units(x, ta, tb)
        except Exception as err:
            if row["ok"] == "ok":
                ctx.violation(f"convert_units({x!r}, {ta!r}, {tb!r}) is refused: {err!r}", info)
            return
        if row["ok"] == "refused":
            return ctx.violation(f"convert_units({x!r}, {ta!r}, {tb!r}) = {y!r}, but the units are "
                                 "of different kinds", info)
        if ta == tb and (y != x or type(y) is not type(x)):
            ctx.violation(f"convert_units({x!r}, {ta!r}, {tb!r}) = {y!r}", info)
        want = x * row["ratio"] if not (row["hasza"] or row["haszb"]) else \
            (x * row["fa"] + row["za"] - row["zb"]) / row["fb"]
        if not isinstance(y, (int, float)) or not abs(y - want) <= self.tol(row, x):
            return ctx.violation(f"convert_units({x!r}, {ta!r}, {tb!r}) = {y!r}, the specification "
                                 f"says {want!r}", info)
        back = convert_units(y, tb, ta)
        if not abs(back - x) <= 4 * self.tol(row, x) * abs(row["fb"] / row["fa"]):
            ctx.violation(f"{x!r} {ta!r} converts to {y!r} {tb!r} and back to {back!r}", info)
        return ta, tb, x, y

    def bases(self, a, row):
        """The reported base unit, factor and offset of the first unit of the pair."""
        ctx, t, x = self.ctx, self.u.render(a), self.number()
        for arg in (t, parse_units(t, return_unit=True)):
            b, f, o = get_base_units(arg)
            ctx.rows += 1
            if parse_units(str(b)) != parse_units(self.u.base_expr(row["dims"]) or "dimensionless"):
                ctx.violation(f"get_base_units({t!r}) names {b}, the specification says {row['dims']}")
            if not math.isclose(f, row["fa"], rel_tol=REL) or \
                    not abs(o - row["za"]) <= REL * max(1.0, abs(row["za"])):
                ctx.violation(f"get_base_units({t!r}) gives factor {f} and offset {o}, the specification "
                              f"says {row['fa']} and {row['za']}")
        y = convert_units(x, t, str(b))
        if not abs(y - (x * f + o)) <= REL * max(abs(x * f), abs(o), abs(y)):
            ctx.violation(f"convert_units({x!r}, {t!r}, {str(b)!r}) = {y!r}, but get_base_units gives "
                          f"{x * f + o!r}")

    def batch(self, pairs):
        rows = self.u.ask_pairs(pairs)
        n = {"ok": 0, "refused": 0, "open": 0}
        for (a, b), row in zip(pairs, rows):
            n[row["ok"]] += 1
            done = self.pair(a, b, row)
            if done and n["ok"] % 500 == 1:
                self.ctx.sample({"from": done[0], "to": done[1], "value": done[2], "gives": done[3]})
            if self.rng.random() < .5:
                self.bases(a, row)
        for k, v in n.items():
            self.ctx.coverage["pairs_" + k] = self.ctx.coverage.get("pairs_" + k, 0) + v

    def triples(self, n):
        """a -> b -> c and a -> c agree."""
        r, u, ctx = self.rng, self.u, self.ctx
        for _ in range(n):
            ns = r.choice([x for x in self.kin.values() if len(x) > 1])
            a, b, c = [u.spell("none", r.choice([m for m in ns if u.unit[m]["alone"] or u.unit[m]["long"]
                                                 or u.unit[m]["short"]])) for _ in range(3)]
            if r.random() < .5 and "degree_Celsius" not in ns:
                e = u.item(scale=0)
                tail = f" {r.choice('*/')} {u.render([dict(e, op='*')])}"
                a, b, c = a + tail, b + tail, c + tail
            x = self.number()
            direct, via = convert_units(x, a, c), convert_units(convert_units(x, a, b), b, c)
            ctx.rows += 1
            size = max(abs(direct), abs(x), 500.0) if "degree_Celsius" in ns else abs(direct)
            if not abs(direct - via) <= REL * max(size, 1e-300):
                ctx.violation(f"{x!r} {a!r} is {direct!r} {c!r} directly and {via!r} via {b!r}")


def run(ctx):
    change_definitions_file()
    c = Check(ctx)
    u, r = c.u, ctx.rng

    def one(n, pre="none"):
        return [{"op": "*", "sc": "none", "pre": pre, "u": n, "k": 2}]
    # every pair of units in the table (sampled in the quick tier), and all pairs of one kind
    pairs = [(one(a), one(b)) for ns in c.kin.values() for a in ns for b in ns]
    cross = [(one(a), one(b)) for a in u.names for b in u.names]
    pairs += cross if ctx.thorough else r.sample(cross, 1500)
    pairs += [(one(a), one(b)) for a in PLAIN for b in PLAIN]
    c.batch(pairs)
    # dimensionless text
    for t in ("", "1", "dimensionless", "m/m", "percent"):
        for n in ("count", "radian", "bit", "mole", "byte", "turn", "steradian"):
            for a, b in ((t, n), (n, t)):
                ctx.rows += 1
                try:
                    y = convert_units(2.0, a, b)
                except Exception:
                    continue
                ctx.violation(f"convert_units(2.0, {a!r}, {b!r}) = {y!r}, but the units are of different kinds")
    n = 8000 if ctx.thorough else 900
    es = [u.expr() for _ in range(n)]
    c.batch([(e, c.variant(e)) for e in es] + [(e, c.spoil(c.variant(e))) for e in es[:n // 2]]
            + [(c.spoil(e), c.variant(e)) for e in es[:n // 4]])
    c.triples(6000 if ctx.thorough else 800)
    ctx.assumptions += ["equal up to rounding means within 1e-9 of the largest intermediate number",
                        "temperature scale versus temperature difference is left open"]
