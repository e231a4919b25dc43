"""C19: dates, times, names and prefixes are values: equality, hash and text agree."""
from __future__ import annotations

import dataclasses

from symx.runner import Case
from .common import *  # noqa: F401,F403
from pyudunits2._datetime import DateTime, Time
from pyudunits2._unit_reference import Name, Prefix, UnitReference

PROPERTY = "C19"
BOUNDS = {
    "quick": "times with any hour -99..99, minute and second 0..99 or microsecond 0..999999 (two at a time in smaller ranges); pairs of times and of "
    "date-times with any integer fields, 5 kinds of time zone and 3 kinds of source text; names, prefixes and unit references whose texts "
    "are any 1-2 of 3 letters, one field changed",
    "thorough": "as quick (the fields are unbounded integers for equality; the text bounds are the fields' widths)",
}
OUTSIDE = ["fields that are not integers; minutes, seconds and microseconds below zero (not times)"]
ASSUMPTIONS = []

FIELDS = ("hour", "minute", "second", "microseconds")


def both(ctx, conds):
    conds = [c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds]
    c = z3.And(conds + [z3.BoolVal(True)])
    return ctx.branch(c) if ctx.symbolic else z3.is_true(z3.simplify(c))


def verdicts(ctx, a, b, same, label, detail):
    ctx.check(bool(a == b) == same, label, f"{detail}: == is {not same}")
    ctx.check(bool(b == a) == same, label, f"{detail}: == the other way is {not same}")
    ctx.check(bool(a != b) != same, label, f"{detail}: != is {same}")
    if same:
        ctx.check(hash(a) == hash(b), label + ": hash", f"{detail}: {hash(a)} {hash(b)}")
    ctx.check(len({a, b}) == (1 if same else 2), label + ": set", detail)
    ctx.check(({a: 1}.get(b) == 1) == same, label + ": dict", detail)


def times(ctx):
    xs = [ctx.int(f"a{i}") for i in range(4)]
    n = ctx.choose("given", [4, 3, 2])
    ys = []
    for i in range(4):
        # each field of the other is the same or any integer
        ys.append(ctx.int(f"b{i}") if ctx.choose(f"v{i}", [0, 1]) else xs[i])
    a, b = Time(*xs[:n]), Time(*ys[:n])
    xs, ys = xs[:n] + [0] * (4 - n), ys[:n] + [0] * (4 - n)
    same = both(ctx, [zi(x) == zi(y) for x, y in zip(xs, ys)])
    verdicts(ctx, a, b, same, "times", f"{xs} {ys}")
    for name, x in zip(FIELDS, xs):
        ctx.check(zi(getattr(a, name)) == zi(x), "times: fields", name)
    c = Time(**dict(zip(FIELDS, xs)))
    verdicts(ctx, a, c, True, "times", f"{xs} by name")


TZ = ["UTC", "GMT", "", "time", "time0"]


def zone(ctx, tag, kind):
    if kind == "time":
        i = ctx.int("tz" + tag)
        return Time(i, 30), ("t", i)
    if kind == "time0":
        return Time(0, 0), ("t0",)
    return kind, (kind,)


def date_times(changed):
    def run(ctx):
        y, m, d, h, us = (ctx.int(n) for n in ("y", "m", "d", "h", "us"))
        y2, m2, d2, h2, us2 = y, m, d, h, us
        za = zb = "UTC"
        ka = kb = ("UTC",)
        if changed == "none":
            pass
        elif changed == "year":
            y2 = ctx.int("y2")
        elif changed == "month":
            m2 = ctx.int("m2")
        elif changed == "day":
            d2 = ctx.int("d2")
        elif changed == "swap":
            m2, d2 = d, m
        elif changed == "time":
            h2, us2 = ctx.int("h2"), ctx.int("us2")
        else:
            za, ka = zone(ctx, "a", ctx.choose("za", TZ))
            zb, kb = zone(ctx, "b", ctx.choose("zb", TZ))
        raw = ctx.choose("raw", [(None, None), ("x", "y"), (None, "x")])
        a = DateTime(y, m, d, Time(h, 0, 0, us), za, raw_content=raw[0])
        b = DateTime(y2, m2, d2, Time(h2, 0, 0, us2), zb, raw_content=raw[1])
        pairs = [(y, y2), (m, m2), (d, d2), (h, h2), (us, us2)]
        conds = [zi(p) == zi(q) for p, q in pairs]
        if len(ka) == len(kb) == 2:
            conds.append(zi(ka[1]) == zi(kb[1]))
        else:
            conds.append(ka == kb)
        same = both(ctx, conds)
        verdicts(ctx, a, b, same, "date-times", f"{changed} raw {raw} zones {ka} {kb}")
        ctx.check(a.raw_content == raw[0] and a.tz_offset == za, "date-times: fields", changed)
        for name, x in (("year", y), ("month", m), ("day", d)):
            ctx.check(zi(getattr(a, name)) == zi(x), "date-times: fields", name)

    return run


def defaults(ctx):
    y, m, d = ctx.int("y"), ctx.int("m"), ctx.int("d")
    a = DateTime(y, m, d)
    verdicts(ctx, a, DateTime(y, m, d, Time(0, 0), "UTC"), True, "defaults", "midnight UTC")
    verdicts(ctx, a, DateTime(year=y, month=m, day=d, time=Time(0, 0, 0, 0), raw_content="z"), True, "defaults", "named")
    other = ctx.choose("other", [None, 0, "UTC", (1, 2, 3), Time(0, 0), object()])
    ctx.check((a == other) is False and (a != other) is True, "others", repr(other))
    t = Time(ctx.int("h"), ctx.int("mi"))
    other = ctx.choose("other2", [None, 0, "00:00", (0, 0, 0, 0), a])
    ctx.check((t == other) is False and (t != other) is True, "others", repr(other))
    for obj, name in ((a, "year"), (a, "time"), (t, "hour"), (t, "microseconds")):
        try:
            setattr(obj, name, 5)
        except dataclasses.FrozenInstanceError:
            continue
        ctx.fail("frozen", name)
    ctx.reach("frozen")


# the names of the registry
LETTERS = [(97, 99)]


def text_or(ctx, name, other, none=True):
    """The other text, any text, or none."""
    kind = ctx.choose(name, ["same", "any"] + (["none"] if none else []))
    if kind == "same":
        return other
    return None if kind == "none" else ctx.string(name + "s", 2, LETTERS, minlen=1)


def like(ctx, a, b):
    """Are the two texts, or the two tuples of texts, the same?"""
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(like(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, Name):
        return like(ctx, (a.singular, a.plural), (b.singular, b.plural))
    return same_text(ctx, a, b)


def frozen(ctx, obj, names):
    for n in names:
        before = getattr(obj, n)
        try:
            setattr(obj, n, "other")
        except AttributeError:
            pass
        ctx.check(getattr(obj, n) is before, "frozen", f"{type(obj).__name__}.{n} can be changed")


def names(ctx):
    a, b = (ctx.string(n, 2, LETTERS, minlen=1) for n in "ab")
    x = Name(a, ctx.choose("plural", [None, b]))
    y = Name(text_or(ctx, "c", a, False), text_or(ctx, "d", x.plural))
    same = like(ctx, x, y)
    verdicts(ctx, x, y, same, "names", f"{x} {y}")
    frozen(ctx, x, ("singular", "plural"))
    ctx.check(not (x == a) and x != a and Name(a).plural is None, "names", "another kind")


def prefixes(ctx):
    a, b = (ctx.string(n, 2, LETTERS, minlen=1) for n in "ab")
    v = ctx.choose("value", ["1e3", "1000", ".01"])
    x = Prefix(a, v, ctx.choose("symbols", [(), (b,), (b, a)]))
    w = ctx.choose("other value", [v, "1e3", "1000"])
    y = Prefix(text_or(ctx, "c", a, False), w, ctx.choose("others", [x.symbols, (), (a,), (a, b)]))
    same = like(ctx, x.name, y.name) and v == w and like(ctx, x.symbols, y.symbols)
    verdicts(ctx, x, y, same, "names", f"{x} {y}")
    frozen(ctx, x, ("name", "value", "symbols"))
    ctx.check(Prefix(a, v).symbols == (), "names", "no symbols")


PARTS = {"name": (None, Name("m"), Name("m", "ms")), "symbols": ((), "S"), "alias_names": ((), (Name("n"),)), "alias_symbols": ((), "S"), "description": ("", "d")}


def references(ctx):
    a = ctx.string("a", 2, LETTERS, minlen=1)
    b = ctx.string("b", 2, LETTERS, minlen=1)
    changed = ctx.choose("changed", [None] + list(PARTS))
    kw, other = {}, {}
    for k, options in PARTS.items():
        put = lambda v, t: (t,) if v == "S" else v  # noqa: E731
        kw[k] = put(ctx.choose(k, options), a)
        other[k] = put(ctx.choose("other " + k, options), b) if k == changed else kw[k]
    x, y = UnitReference(**kw), UnitReference(**other)
    same = all(like(ctx, kw[k], other[k]) for k in PARTS)
    verdicts(ctx, x, y, same, "names", f"{x} {y}")
    frozen(ctx, x, PARTS)
    e = UnitReference()
    ctx.check((e.name, e.symbols, e.alias_names, e.alias_symbols) == (None, (), (), ()), "names", f"{e}")


def read(ctx, text):
    """The fields the printed time shows: (hour, minute, second, microseconds)."""
    parts = text.split(":")
    if not 2 <= len(parts) <= 3:
        raise ValueError(text)
    value = ctx.int_of_text if ctx.symbolic else int
    frac = 0
    if len(parts) == 3 and "." in parts[2]:
        parts[2], f = parts[2].split(".")
        if not 1 <= len(f) <= 6:
            raise ValueError(text)
        frac = value(f) * 10 ** (6 - len(f))
    out = [value(p) for p in parts] + [0] * (3 - len(parts))
    return out + [frac]


def shown(fields):
    def run(ctx):
        lim = {"hour": (-99, 99), "minute": (0, 99), "second": (0, 99), "microseconds": (0, 999999)}
        if len(fields) == 2:
            # (each alone covers its whole range)
            lim = {"hour": (-12, 12), "minute": (0, 60), "second": (0, 12), "microseconds": (0, 99999)}
        kw = {}
        for f in FIELDS:
            if f in fields:
                kw[f] = ctx.int(f, *lim[f])
            else:
                kw[f] = {"hour": 7, "minute": 5, "second": 0, "microseconds": 0}[f]
        t = Time(**kw)
        ctx.int_text = "digits"
        text = str(t)
        ctx.int_text = "name"
        try:
            got = read(ctx, text)
        except ValueError:
            return ctx.fail("text", f"{kw} prints as {text!r}")
        for f, g in zip(FIELDS, got):
            ctx.check(zi(g) == zi(kw[f]), "text", f"{kw} prints as {text!r}: {f}")
        # the same text again, and the same for an equal time
        ctx.int_text = "digits"
        ctx.check(same_text(ctx, str(Time(**kw)), text), "text: stable", text)

    return run


def cases(tier):
    yield Case("times", times, ("times", "times: hash"))
    for c in ("none", "year", "month", "day", "swap", "time", "zone"):
        yield Case(f"date-times[{c}]", date_times(c), ("date-times", "date-times: hash"))
    for fn in (names, prefixes, references):
        yield Case(fn.__name__, fn, ("names", "frozen"))
    yield Case("defaults", defaults, ("defaults", "others", "frozen"))
    for fs in (("hour",), ("minute",), ("second",), ("microseconds",), ("hour", "minute"), ("second", "microseconds")) + ((FIELDS,) if tier == "thorough" else ()):
        yield Case("text[" + ",".join(fs) + "]", shown(fs), ("text",))
