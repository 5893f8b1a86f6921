"""Unit expressions of Units.tla: unit table, random expressions, renderings, evaluation."""
import json
import keyword
import math
import os
import tempfile


class Units:
    """The unit table, scales and prefixes as the specification defines them."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rows = ctx.table("Units", env={"QUERY": ""})
        meta = rows[0]
        self.base, self.short, self.scales = meta["base"], meta["short"], meta["scales"]
        self.unit = {r["name"]: r for r in rows[1:]}
        self.names = sorted(self.unit)
        self.prefixes = sorted(self.short)

    # -------------------------------------------------- questions to the specification
    def ask(self, exprs):
        path = tempfile.mktemp(dir=self.ctx.scratch, suffix=".ndjson")
        with open(path, "w") as fh:
            for e in exprs:
                fh.write(json.dumps({"e": e}) + "\n")
        rows = self.ctx.table("Units", env={"QUERY": path})
        os.unlink(path)
        assert len(rows) == len(exprs)
        for r in rows:
            r["canon"] = tuple(sorted(map(tuple, r["canon"])))
            r["dims"] = {k: v / 4 for k, v in dict(r["dims"]).items()} if r["dims"] else {}
            r["factor"] = self.value(dict(r["num"]) if r["num"] else {})
        return rows

    def ask_pairs(self, pairs):
        path = tempfile.mktemp(dir=self.ctx.scratch, suffix=".ndjson")
        with open(path, "w") as fh:
            for a, b in pairs:
                fh.write(json.dumps({"a": a, "b": b}) + "\n")
        rows = self.ctx.table("Units", env={"QUERY": path})
        os.unlink(path)
        assert len(rows) == len(pairs)
        for r in rows:
            for k in ("fa", "fb", "ratio", "za", "zb"):
                r[k] = self.value(dict(r[k]) if r[k] else {})
            r["za"] = r["za"] if r["hasza"] else 0.0
            r["zb"] = r["zb"] if r["haszb"] else 0.0
            r["dims"] = {k: v / 4 for k, v in dict(r["dims"]).items()} if r["dims"] else {}
        return rows

    @staticmethod
    def value(num):
        """Evaluate a product of prime powers (exponents in quarters)."""
        log, sign = 0.0, 1
        exact_n, exact_d, whole = 1, 1, True
        for k, v in num.items():
            if k == "neg":
                sign = -1 if (v // 4) % 2 else 1
                continue
            x = math.pi if k == "pi" else int(k)
            log += v / 4 * math.log(x)
            if v % 4 or k == "pi":
                whole = False
            elif v > 0:
                exact_n *= x ** (v // 4)
            else:
                exact_d *= x ** (-v // 4)
        return sign * (exact_n / exact_d if whole else math.exp(log))

    def base_expr(self, dims):
        return " * ".join(f"{self.base[k]} ** {v:g}" for k, v in sorted(dims.items())) or ""

    # -------------------------------------------------- expressions
    def pick(self, names=None):
        r = self.rng
        u = self.unit[r.choice(names or self.names)]
        pre = "none"
        if (u["long"] or u["short"]) and r.random() < .5:
            pre = r.choice(self.prefixes)
        if pre == "none" and not (u["alone"] or u["long"] or u["short"]):
            pre = "kilo"
        return pre, u["name"]

    def item(self, names=None, scale=.25, ks=(2, 2, 2, 2, -2, 4, -4, 6, 1, 3, -1)):
        r = self.rng
        pre, u = self.pick(names)
        it = {"op": r.choice(["*", "/", " ", "/"]), "sc": "none", "pre": pre, "u": u,
              "k": r.choice(ks)}
        if r.random() < scale:
            it["sc"] = r.choice([s for s in self.scales if s != "none"])
            if it["sc"].startswith("neg") and it["k"] % 2:
                it["k"] = 2
            if r.random() < .25:
                it.update(pre="none", u="")
        return it

    def expr(self, n=None, names=None, scale=.25, groups=.12, depth=0):
        r = self.rng
        n = n or r.choice([1, 2, 2, 3, 3, 4])
        q = []
        for i in range(n):
            if depth == 0 and r.random() < groups:
                it = {"op": r.choice("*/"), "k": r.choice([2, 2, 4, -2]),
                      "in": self.expr(r.choice([1, 2, 2, 3]), names, scale, 0, 1)}
            else:
                it = self.item(names, scale)
                if not it["u"] and (it["k"] != 2 or not q):
                    it["k"] = 2
            if not q:
                it["op"] = "*"
                if it.get("u") == "":
                    it["pre"], it["u"] = self.pick(names)
            q.append(it)
        return self.legal(q)

    @staticmethod
    def legal(q):
        """Adjust juxtaposition to where it means multiplication."""
        for a, b in zip(q, q[1:]):
            if b["op"] == " " and ("in" in a or "in" in b or b.get("sc") != "none" or not a["u"]
                                   or not b["u"]):
                b["op"] = "*"
        q[0]["op"] = "*"
        return q

    # -------------------------------------------------- renderings
    def spell(self, pre, u):
        r, d = self.rng, self.unit[u]
        if pre == "none":
            return r.choice(sorted(d["alone"]) + sorted(d["long"]) + sorted(d["short"]))
        pairs = [pre + x for x in sorted(d["long"])]
        pairs += [p + x for p in sorted(self.short[pre]) for x in sorted(d["short"])]
        return r.choice(pairs)

    def power(self, k, plain=True):
        r = self.rng
        if k == 2:
            return r.choice(["", "", "", "^1", "**1.0"])
        if plain and k == 4 and r.random() < .15:
            return "²"
        if plain and k == 6 and r.random() < .15:
            return "³"
        num = f"{k / 2:g}"
        forms = [num, num, f"({num})", num + "e0"]
        if k % 2 == 0:
            forms += [num + ".0", f" {num}"]
        else:
            forms += [f"({k}/2)"] + ([num.replace("0.", ".")] if "0." in num else [])
        if k < 0:
            forms += [num.replace("-", "- "), num.replace("-", "-+")]
        return r.choice(["^", "**", " ** ", " ^ "]) + r.choice(forms)

    def render_item(self, it, first, last_number):
        r = self.rng
        if "in" in it:
            return f"({r.choice(['', ' '])}{self.render(it['in'])})" + self.power(it["k"], False)
        if it["sc"] == "none":
            s = self.spell(it["pre"], it["u"])
            if s == "%":
                return "%" if it["k"] == 2 else "percent" + self.power(it["k"])
            return s + self.power(it["k"])
        num = r.choice(sorted(self.scales[it["sc"]]))
        if last_number and "10" in num:
            num = min(self.scales[it["sc"]], key=lambda x: ("10" in x, x))
        if not it["u"]:
            return r.choice([num, num, f"({num})"])
        u = self.spell(it["pre"], it["u"])
        glue = " "
        if r.random() < .2 and u[0] not in "eEjJ_xobXOBlL%" and not keyword.iskeyword(u) \
                and num[-1].isdigit() and "^" not in num and "**" not in num:
            glue = ""
        s = num + glue + u
        if it["k"] != 2:
            return f"({s})" + self.power(it["k"], False)
        return f"({s})" if first or r.random() < .2 else s

    def render(self, q):
        r, out, last_number = self.rng, "", False
        for i, it in enumerate(q):
            s = self.render_item(it, i == 0, last_number or (i and q[i - 1].get("sc") != "none"))
            if i == 0:
                out = s
            elif it["op"] == " ":
                out += r.choice([" ", "  ", " * "]) + s
            else:
                sp = r.choice(["", "", " ", " "])
                out += sp + it["op"] + r.choice([sp, " "]) + s
            last_number = "in" not in it and not it["u"]
        return out
