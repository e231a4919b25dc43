"""C01: dimensionality is a homomorphism."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403

PROPERTY = "C01"
BOUNDS = {
    "quick": "expressions of up to 3 operands (5 with definitions expanded) over 4 dimensional and 1 "
    "dimensionless basis units, a defined unit m^p s^q with any integers p, q, prefixed units, "
    "offset and logarithmic units; every exponent is any integer (unbounded)",
    "thorough": "as quick with up to 4 operands and a chain of three definitions",
}
OUTSIDE = ["expressions with more operands than the bound", "non-integer exponents (the grammar has none)"]
ASSUMPTIONS = ["operands are units of a system in which every name is registered once"]


def system(ctx, deep):
    s = base_system()
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    p, q = ctx.int("p"), ctx.int("q")
    units = {k: base_unit(k) for k in ("m", "s", "kg", "K", "rad")}
    foo = units["m"].pow(p, ctx.lit(p)).mul(units["s"].pow(q, ctx.lit(q)), "*")
    define(s, "foo", foo.text, symbols=("fo",), plural="foos")
    units["foo"] = foo.named("foo")
    bar = U("60", dims={}).mul(units["foo"]).div(units["kg"].pow(2, "2", ""))
    define(s, "bar", bar.text)
    units["bar"] = bar.named("bar")
    units["kfo"] = foo.named("kfo")
    units["kilofoo"] = foo.named("kilofoo")
    units["kilometers"] = units["m"].named("kilometers")
    off = units["K"].shift(273, "273")
    define(s, "cel", off.text)
    units["cel"] = off.named("cel")
    lg = units["bar"].log("lg")
    define(s, "bel", lg.text)
    units["bel"] = lg.named("bel")
    units["7"] = U("7", dims={})
    units["2.5"] = U("2.5", dims={})
    return s, units


def verify(ctx, s, u, label="dims"):
    unit = s.unit(u.text)
    d = unit.dimensionality()
    check_dims(ctx, d, u.dims, label, u.text)
    want = nonzero_dims(ctx, u.dims)
    ctx.check(unit.is_dimensionless() == (not want), "dimensionless", u.text)
    inv = d.inverted()
    check_dims(ctx, inv, {k: -n for k, n in u.dims.items()}, "inverted", u.text)
    mapping(ctx, d, u.text)
    mapping(ctx, inv, u.text)
    ctx.check(bool(inv.inverted() == d), "inverted", u.text)
    again = s.unit(u.text).dimensionality()
    ctx.check(bool(again == d), "equal", u.text)
    ctx.check(bool(d == want), "equal", f"{u.text} == {want}")
    ctx.check(not bool(d == {**want, "meter": want.get("meter", 0) + 1}), "unequal", u.text)
    return unit, d, want


def mapping(ctx, d, text):
    """Every way to read a dimensionality gives the same orders."""
    items = list(d.items())
    ctx.check(len(d) == len(items), "mapping", text)
    for part, i in ((d.keys(), 0), (d.values(), 1)):
        part = list(part)
        ctx.check(len(part) == len(items), "mapping", text)
        for x, item in zip(part, items):
            ctx.check(x == item[i], "mapping", text)
    ctx.check(len({str(b) for b, _ in items}) == len(items), "mapping", text)
    for other in (None, 1, "m", items):
        ctx.check((d == other) is False and (d != other) is True, "mapping", f"{text} == {other!r}")


def pair(op, powers, group, deep):
    """a OP b, each optionally raised to any integer, in every kind of unit."""

    def run(ctx):
        s, units = system(ctx, deep)
        a = units[ctx.choose("a", group)]
        b = units[ctx.choose("b", list(units))]
        if "a" in powers:
            n = ctx.int("n")
            a = a.pow(n, ctx.lit(n))
        if "b" in powers:
            k = ctx.int("k")
            b = b.pow(k, ctx.lit(k))
        r = a.div(b, op) if op.strip() in ("/", "per") else a.mul(b, op)
        if "r" in powers:
            j = ctx.int("j")
            r = r.pow(j, ctx.lit(j))
        verify(ctx, s, r)

    return run


def triple(ops, shape, pool, deep):
    def run(ctx):
        s, units = system(ctx, deep)
        a, b, c = (units[ctx.choose(n, pool)] for n in "abc")
        n = ctx.int("n")
        where = ctx.choose("pow", ["none", "inner", "b", "c"])

        def comb(x, y, op):
            return x.div(y, op) if op == "/" else x.mul(y, op)

        if where == "b":
            b = b.pow(n, ctx.lit(n))
        if where == "c":
            c = c.pow(n, ctx.lit(n))
        if shape == "left":
            x = comb(a, b, ops[0])
            if where == "inner":
                x = x.pow(n, ctx.lit(n))
            r = comb(x, c, ops[1])
        else:
            x = comb(b, c, ops[1])
            if where == "inner":
                x = x.pow(n, ctx.lit(n))
            r = comb(a, x, ops[0])
        verify(ctx, s, r)

    return run


def four(ops, pool):
    def run(ctx):
        s, units = system(ctx, True)
        us = [units[ctx.choose(n, pool)] for n in "abcd"]
        n = ctx.int("n")

        def comb(x, y, op):
            return x.div(y, op) if op == "/" else x.mul(y, op)

        shape = ctx.choose("shape", [0, 1, 2])
        a, b, c, d = us
        if shape == 0:
            r = comb(comb(a, b, ops[0]), comb(c, d, ops[2]).pow(n, ctx.lit(n)), ops[1])
        elif shape == 1:
            r = comb(comb(comb(a, b, ops[0]).pow(n, ctx.lit(n)), c, ops[1]), d, ops[2])
        else:
            r = comb(a, comb(b, comb(c, d, ops[2]), ops[1]).pow(n, ctx.lit(n)), ops[0])
        verify(ctx, s, r)

    return run


WRAPS = ["shift", "log", "shiftmul", "logmul", "logdiv", "shiftpow", "loglog", "numlog", "logshift"]


def wrapped(w, pool):
    def run(ctx):
        return wrap(ctx, w, pool)

    return run


def wrap(ctx, w, pool):
    """Offsets and logarithms leave the dimensionality alone."""
    s, units = system(ctx, False)
    a = units[ctx.choose("a", pool or list(units))]
    n = ctx.int("n")
    how = ctx.choose("how", ["none", "pow", "mulpow"])
    if how == "pow":
        a = a.pow(n, ctx.lit(n))
    elif how == "mulpow":
        a = units["kg"].mul(a.pow(n, ctx.lit(n)))
    fn = ctx.choose("fn", ["lg", "ln", "lb", "log"]) if "log" in w else None
    keep = dict(a.dims)
    if w == "shift":
        r = a.shift(5, "5")
    elif w == "shiftmul":
        r = a.shift(5, "5").mul(units["kg"], " ")
    elif w == "shiftpow":
        r = a.shift(-5, "-5").pow(3, "3")
    elif w == "log":
        r = a.log(fn)
    elif w == "loglog":
        r = a.log(fn).log(fn)
    elif w == "numlog":
        r = U("10 " + a.log(fn).text, dims=keep, prec=1)
    elif w == "logmul":
        r = U(a.log(fn).text + " 10", dims=keep, prec=1)
    elif w == "logdiv":
        r = U(a.log(fn).text + "/10", dims=keep, prec=1)
    elif w == "logshift":
        r = a.shift(5, "5").log(fn)
    if "shift" in w:
        # shifting a time unit makes a date: decided by C12
        one = [k for k in keep if not zero(ctx, keep[k])]
        if one == ["second"] and ctx.branch(zi(keep["second"]) == 1):
            raise_infeasible()
    verify(ctx, s, r, "wrapped dims")


def raise_infeasible():
    from symx.engine import Infeasible

    raise Infeasible()


def basis_units(ctx):
    """The basis units themselves."""
    s, units = system(ctx, False)
    a = ctx.choose("a", ["m", "s", "kg", "K", "rad"])
    via = ctx.choose("via", ["lookup", "expr", "plural"])
    name = LONG[a] if via != "plural" else LONG[a] + "s"
    u = s.unit_by_name_or_symbol(name) if via == "lookup" else s.unit(name)
    d = u.dimensionality()
    check_dims(ctx, d, base_unit(a).dims, "basis", name)
    check_dims(ctx, d.inverted(), {k: -1 for k in base_unit(a).dims}, "basis", name)
    ctx.check(u.is_dimensionless() == (a == "rad"), "basis", name)
    ctx.check(u.is_time_unit() == (a == "s"), "basis", name)


def time_units(ctx):
    """A time unit is exactly one of dimension time^1."""
    s, units = system(ctx, False)
    u = units[ctx.choose("a", list(units))]
    n = ctx.int("n")
    u = u.pow(n, ctx.lit(n))
    want = nonzero_dims(ctx, u.dims)
    unit = s.unit(u.text)
    istime = list(want) == ["second"] and ctx.branch(zi(want["second"]) == 1)
    ctx.check(bool(unit.is_time_unit()) == bool(istime), "time unit", u.text)


LOGPRODUCT = "log-product"


def log_products(ctx):
    """Products of a logarithm with a dimensional unit (a known finding: see
    the findings file)."""
    s, units = system(ctx, False)
    a, b = (units[ctx.choose(x, ["m", "foo", "bar"])] for x in "ab")
    n = ctx.int("n")
    b = b.pow(n, ctx.lit(n))
    fn = ctx.choose("fn", ["lg", "ln"])
    lg = U(a.log(fn).text, dims=dict(a.dims))
    name = ctx.choose("as", ["inline", "named"])
    if name == "named":
        define(s, "level", lg.text)
        lg = lg.named("level")
    how = ctx.choose("how", ["lg b", "b lg", "lg/b", "b/lg"])
    r = {"lg b": lambda: lg.mul(b), "b lg": lambda: b.mul(lg), "lg/b": lambda: lg.div(b), "b/lg": lambda: b.div(lg)}[how]()
    ctx.reach("log products")
    try:
        got = dims_of(s.unit(r.text).dimensionality())
    except ValueError:  # refused, as by UDUNITS-2
        return
    if name == "inline" and "/" not in how and not zero(ctx, n):
        lost = dims_of(s.unit(a.text).dimensionality())
        if set(got) == set(lost) and all(g == lost[k] if isinstance(g := zi(got[k]), int) else not ctx.branch(g != zi(lost[k])) for k in got):
            ctx.known(LOGPRODUCT, f"{r.text} has the dimensionality {got}")
            return
    verify(ctx, s, r, "log products")


def cases(tier):
    pool = ["m", "s", "kg", "K", "rad", "foo", "bar", "kfo", "kilofoo", "kilometers", "cel", "7", "2.5"]
    half = [pool[:5], pool[5:9], pool[9:]]
    for op in (" ", "/"):
        for i, g in enumerate(half):
            for powers in ("ab", "r") if op == " " else ("b", "abr"):
                yield Case(f"pair[{op}|{powers}|{i}]", pair(op, powers, g, False), ("dims", "equal", "inverted", "mapping"))
    for op in ("*", ".", "·", " per ", " / "):
        yield Case(f"pair[{op}|]", pair(op, "", ["m", "foo", "kilometers"], False), ("dims",))
    tri = ["foo", "bar", "rad"] if tier == "quick" else ["m", "s", "foo", "bar", "kfo", "rad", "7"]
    for o1 in (" ", "/"):
        for o2 in (" ", "/"):
            for shape in ("left", "right"):
                yield Case(f"triple[{o1}{o2}{shape}]", triple((o1, o2), shape, tri, False), ("dims",))
    for w in WRAPS:
        few = ["m", "s", "rad", "foo", "bar", "kfo", "cel", "7"] if tier == "quick" else None
        yield Case(f"wrapped[{w}]", wrapped(w, few), ("wrapped dims",))
    yield Case("basis", basis_units, ("basis",))
    yield Case("time", time_units, ("time unit",))
    yield Case("log products", log_products, ("log products",))
    if tier == "thorough":
        for o1 in (" ", "/"):
            for o2 in (" ", "/"):
                for o3 in (" ", "/"):
                    yield Case(f"four[{o1}{o2}{o3}]", four((o1, o2, o3), ["m", "foo", "bar", "kfo"]), ("dims",))
