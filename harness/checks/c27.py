"""C27: enumerated fields accept every spelling of a member and nothing else."""
import contextlib
import io
import json
import warnings

import numpy as np

import gemd.json as gj
from gemd.enumeration import Origin, SampleType
from gemd.enumeration.base_enumeration import BaseEnumeration, migrated_enum
from gemd.entity.attribute import Condition, Parameter, Property
from gemd.entity.object import MaterialRun

WORDS = {"a": "Apple", "b": "blue Berry", "c": "CHERRY_3", "z": "zz"}
FAILED = object()


class Text(str):
    """A string of the user's own kind."""


def attempt(f):
    try:
        return f()
    except Exception:
        return FAILED


def spellings(word, rng, pad=True):
    mix = "".join(rng.choice([c.upper(), c.lower()]) for c in word)
    res = [word, word.lower(), word.upper(), word.title(), mix, Text(mix), np.str_(word.upper())]
    if pad:
        res += [" " + word, word.upper() + "  ", "\t" + mix + "\n"]
    return res


def resolves(ctx, cls, spelling, want, what):
    """want: the member, or None."""
    ctx.rows += 1
    got = [attempt(lambda: cls.from_str(spelling)), attempt(lambda: cls.from_str(
        spelling, exception=False))]
    strict = [attempt(lambda: cls(spelling)), attempt(lambda: cls.from_str(spelling,
                                                                            exception=True))]
    ok = all(x is want for x in got) and all(x is (FAILED if want is None else want)
                                             for x in strict)
    if not ok:
        ctx.violation(f"{what}: {spelling!r} should resolve to {want!r}",
                      {"spelling": spelling, "lenient": repr(got), "strict": repr(strict)})


def definition(ctx, row):
    rng = ctx.rng
    members = []
    for m in row["def"]:
        word = lambda t: rng.choice(spellings(WORDS[t], rng, pad=rng.random() < .3))  # noqa: E731
        syn = [word(t) for t in sorted(m["syn"])]
        rng.shuffle(syn)
        value = word(m["value"])
        if not m["str"]:
            bad = rng.choice([5, None, 2.5, True])
            members.append(rng.choice([(bad,), (value, bad), (bad, value), bad]))
        else:
            members.append((value, *syn) if syn or rng.random() < .5 else value)
    cls = attempt(lambda: BaseEnumeration("E", [(f"M{i}", m) for i, m in enumerate(members)]))
    ctx.rows += 1
    if (cls is not FAILED) != row["allowed"]:
        ctx.violation("definition " + ("refused" if cls is FAILED else "accepted"),
                      {"members": members, "row": row})
        return
    if cls is FAILED:
        return
    ms = list(cls)
    for i, m in enumerate(ms):
        v = members[i] if isinstance(members[i], str) else members[i][0]
        if not (isinstance(m, str) and m == v and str(m) == v and m.value == v
                and hash(m) == hash(v) and {v: 1}.get(m) == 1
                and json.loads(json.dumps({"k": m}))["k"] == v and cls[f"M{i}"] is m
                and attempt(lambda: cls(m)) is m and attempt(lambda: cls.from_str(m)) is m):
            ctx.violation("a member does not behave as its value string",
                          {"members": members, "member": repr(m)})
    if rng.random() < .5:
        migrated(ctx, cls, members, ms)
    for t, i in row["resolve"].items():
        for s in spellings(WORDS[t], rng):
            resolves(ctx, cls, s, ms[i - 1] if i else None, f"enumeration {members}")
    for s in ["", " ", "app", "Applee", "apple,", "blueBerry", "blue  berry"]:
        resolves(ctx, cls, s, None, f"enumeration {members}")


def migrated(ctx, cls, members, ms):
    """A symbol declared as renamed stays usable and means the member it was renamed to."""
    i = ctx.rng.randrange(len(ms))
    new = ctx.rng.choice([members[i]] if isinstance(members[i], str) else list(members[i]))
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        d = attempt(lambda: migrated_enum(old_value="OLD", new_value=new, deprecated_in="1.0",
                                          removed_in="99.0")(cls))
        ctx.rows += 1
        got = [attempt(lambda: d.OLD), attempt(lambda: d["OLD"])]
        same = [attempt(lambda: d[f"M{k}"]) for k in range(len(ms))] + [attempt(lambda: getattr(d, f"M{k}"))
                                                                         for k in range(len(ms))]
        if d is not cls or any(x is not ms[i] for x in got) or list(d) != ms or \
                any(x is not y for x, y in zip(same, ms + ms)) or attempt(lambda: d["NEVER"]) is not FAILED:
            ctx.violation("a migrated symbol does not give its new member",
                          {"members": members, "new": new, "got": repr(got), "others": repr(same)})


def field(ctx, name, words, fields):
    rng = ctx.rng
    cls = {"origin": Origin, "sample_type": SampleType}[name]
    if [m.value for m in cls] != list(words):
        ctx.violation(f"{name}: members differ", {"members": [m.value for m in cls]})
    makers = {"origin": [lambda **k: Property("x", **k), lambda **k: Condition("x", **k),
                         lambda **k: Parameter("x", **k)],
              "sample_type": [lambda **k: MaterialRun("x", **k)]}[name]
    for make in makers:
        for w in words:
            want = cls(w)
            for s in spellings(w, rng) + [want]:
                ctx.rows += 1
                a = attempt(lambda: getattr(make(**{name: s}), name))
                o = make()
                attempt(lambda: setattr(o, name, s))
                b = getattr(o, name)
                c = attempt(lambda: getattr(gj.loads(gj.dumps(make(**{name: s}))), name))
                text = attempt(lambda: json.loads(gj.GEMDJson().raw_dumps(make(**{name: s})))[name])
                if not (a is want and b is want and c is want and text == w):
                    ctx.violation(f"{name}: {s!r} is not taken as {want!r}",
                                  {"constructed": repr(a), "assigned": repr(b), "loaded": repr(c),
                                   "json": repr(text)})
        foreign = [x for f, ws in fields.items() for x in ws if x not in words]
        for s in foreign + ["", "x", None, 5, 2.5, True, [], words[0] + "s",
                            words[0][:-1]]:
            ctx.rows += 1
            a = attempt(lambda: make(**{name: s}))
            o = make(**{name: words[1]})
            b = attempt(lambda: setattr(o, name, s))
            if a is not FAILED or b is not FAILED or getattr(o, name) is not cls(words[1]):
                ctx.violation(f"{name}: {s!r} is accepted", {"value": repr(s)})
    for w in words:
        for s in spellings(w, rng):
            resolves(ctx, cls, s, cls(w), name)
    for s in ["", "nothing", words[0] + " x"]:
        resolves(ctx, cls, s, None, name)
    if attempt(lambda: cls.from_str(None)) is not None or \
            attempt(lambda: cls.from_str(None, exception=True)) is not FAILED:
        ctx.violation(f"{name}: None is not handled", {})


def run(ctx):
    rows = ctx.table("Enum", f"CONSTANT MaxMembers = {3 if ctx.thorough else 2}\n")
    ctx.sample(rows[len(rows) // 2])
    for row in rows:
        definition(ctx, row)
    fields = next(ctx.last.lines("FIELDS"))
    for name, words in fields.items():
        field(ctx, name, words, fields)
    ctx.coverage["exhaustive"] = True
