"""C06: convertibility verdicts are symmetric and match the converter."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .zoo import DIRECT, INVERSE, OTHER, zoo

PROPERTY = "C06"
BOUNDS = {
    "quick": "pairs of products of powers of up to 3 basis units with any integer exponents (unbounded), written in "
    "3 ways, one level of definitions, dimensionless factors; every pair of 23 linear, offset and logarithmic "
    "units; reference-date units of 3 forms against every kind of unit",
    "thorough": "as quick with 3 symbolic exponents on both sides in every combination",
}
OUTSIDE = []
ASSUMPTIONS = []


def expected(ctx, d1, d2):
    """Equal, or each other's inverse (decided on this path)."""
    keys = sorted(set(d1) | set(d2))
    eq = [zi(d1.get(k, 0)) == zi(d2.get(k, 0)) for k in keys]
    inv = [zi(d1.get(k, 0)) == -zi(d2.get(k, 0)) for k in keys]

    def conj(cs):
        if all(isinstance(c, bool) for c in cs):
            return all(cs)
        return ctx.branch(z3.And([c if not isinstance(c, bool) else z3.BoolVal(c) for c in cs]))

    return conj(eq) or conj(inv)


def judge(ctx, u, v, want, detail):
    ctx.check(bool(u.is_convertible_to(v)) == want, "verdict", detail)
    ctx.check(bool(v.is_convertible_to(u)) == want, "symmetric", detail)
    ctx.check(bool(u.is_convertible_to(u)), "reflexive", detail)
    for x, y in ((u, v), (v, u)):
        try:
            Converter(x, y)
            made = True
        except pyudunits2.IncompatibleUnitsError:
            made = False
        ctx.check(made == want, "converter", f"{detail}: constructed {made}")


def system(ctx):
    s = base_system()
    n, k = ctx.int("n"), ctx.int("k")
    us = {x: base_unit(x) for x in ("m", "s", "kg", "K", "rad")}
    foo = num(ctx, ctx.real("a", nonzero=True)).mul(us["m"].pow(n, ctx.lit(n))).mul(us["s"].pow(k, ctx.lit(k)), "·")
    define(s, "foo", foo.text)
    us["foo"] = foo.named("foo")
    off = us["foo"].shift(3, "3")
    us["foo@"] = off
    lg = us["foo"].log("lg")
    define(s, "lgf", lg.text)
    us["lgf"] = lg.named("lgf")
    return s, us


LEFT = {
    "foo": lambda u: u["foo"],
    "foo kg": lambda u: u["foo"].mul(u["kg"]),
    "rad/foo": lambda u: u["rad"].div(u["foo"]),
    "foo@": lambda u: u["foo@"],
    "lgf": lambda u: u["lgf"],
    "foo/m": lambda u: u["foo"].div(u["m"]),
}
RIGHT = {
    "m^i s^j": lambda u, i, j: u["m"].pow(*i).mul(u["s"].pow(*j)),
    "m^i/s^j": lambda u, i, j: u["m"].pow(*i).div(u["s"].pow(*j)),
    "(m^i kg)^j": lambda u, i, j: u["m"].pow(*i).mul(u["kg"]).pow(*j),
    "foo^i": lambda u, i, j: u["foo"].pow(*i),
    "kg s^i": lambda u, i, j: u["kg"].mul(u["s"].pow(*i)),
    "rad^i": lambda u, i, j: u["rad"].pow(*i),
    "1": lambda u, i, j: U("1", dims={}),
    "lg(re m^i)": lambda u, i, j: u["m"].pow(*i).log("ln"),
    "1/foo": lambda u, i, j: U("1", dims={}).div(u["foo"]),
}


def symbolic(left, rights):
    def run(ctx):
        s, us = system(ctx)
        i, j = ctx.int("i"), ctx.int("j")
        u = LEFT[left](us)
        v = RIGHT[ctx.choose("right", rights)](us, (i, ctx.lit(i)), (j, ctx.lit(j)))
        d = dict(nonzero_dims(ctx, u.dims))
        if left == "foo@" and list(d) == ["second"] and ctx.branch(zi(d["second"]) == 1):
            raise Infeasible()  # a date: below
        want = expected(ctx, u.dims, v.dims)
        judge(ctx, s.unit(u.text), s.unit(v.text), want, f"{u.text} and {v.text}")

    return run


def kinds(ctx):
    s, us = zoo(ctx)
    names = DIRECT + INVERSE + OTHER
    u, v = us[ctx.choose("u", names)], us[ctx.choose("v", names)]
    want = expected(ctx, u.dims, v.dims)
    judge(ctx, s.unit(u.text), s.unit(v.text), want, f"{u.text} and {v.text}")


def dates(ctx):
    s, us = zoo(ctx)
    e = ctx.real("e", nonzero=True)
    define(s, "hour", f"{ctx.lit(e)} s")
    text = ctx.choose("date", ["s since 2000-01-01", "hour @ 2001-02-03T12", "(hour rad) from 5", "s since 1999-12-31 23:59"])
    date = s.unit(text)
    other = ctx.choose("other", ["s", "hour", "1/s", "m", "1", "off", "lgm", "s since 2000-01-01", "hour @ 7"])
    o = s.unit(other)
    ctx.check(isinstance(date, DateUnit), "is date", text)
    ctx.check(not date.is_convertible_to(o), "date", f"{text} to {other}")
    ctx.check(not o.is_convertible_to(date), "date", f"{other} to {text}")
    ctx.check(not date.is_convertible_to(date), "date", f"{text} to itself")
    for x, y in ((date, o), (o, date), (date, date)):
        try:
            Converter(x, y)
            ok = False
        except pyudunits2.IncompatibleUnitsError:
            ok = True
        ctx.check(ok, "date converter", f"{text} and {other}")


def three(ctx):
    """Three symbolic exponents on both sides."""
    s = base_system()
    us = {x: base_unit(x) for x in ("m", "s", "kg")}
    side = []
    for t in "pq":
        e = [ctx.int(t + str(i)) for i in range(3)]
        u = us["m"].pow(e[0], ctx.lit(e[0])).mul(us["s"].pow(e[1], ctx.lit(e[1])))
        k = us["kg"].pow(e[2], ctx.lit(e[2]))
        side.append(u.mul(k) if t == "p" else u.div(k))
    u, v = side
    want = expected(ctx, u.dims, v.dims)
    judge(ctx, s.unit(u.text), s.unit(v.text), want, f"{u.text} and {v.text}")


ZERO = "zero-scale"
NOTHING = ["{z} m", "m/{z}", "{z}^-1 m", "({z} m)^-1", "none", "knone/s", "lg(re {z} m)", "{z}", "1/{z}", "{z} m @ 3"]


def nothing(ctx):
    """Units of no size (a known finding: see the findings file)."""
    s, us = system(ctx)
    z = ctx.choose("zero", ["0", "0.0", "-0"])
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    define(s, "none", f"{z} m", symbols=("no",))
    us["sized"] = num(ctx, ctx.real("b", nonzero=True)).mul(us["m"]).div(us["s"])
    text = ctx.choose("text", NOTHING).format(z=z)
    u = s.unit(text)
    v = s.unit(ctx.choose("to", ["m", "1", "1/m", us["sized"].text, "0 m", "lg(re m)"]))
    verdict = bool(u.is_convertible_to(v))
    ctx.check(bool(v.is_convertible_to(u)) == verdict, "zero", text)
    for x, y in ((u, v), (v, u)):
        try:
            Converter(x, y)
            made = True
        except pyudunits2.IncompatibleUnitsError:
            made = False
        except (KeyError, ZeroDivisionError) as e:
            ctx.check(verdict, "zero", f"{text}: {type(e).__name__}: {e}")
            ctx.known(ZERO, f"{x} -> {y}: {type(e).__name__}: {e}")
            continue
        ctx.check(made == verdict, "zero", f"{text}: constructed {made}")


LOGPRODUCT = "log-product"


def log_products(ctx):
    """Products of two logarithms, which UDUNITS-2 refuses (a known finding:
    see the findings file)."""
    s, us = system(ctx)
    define(s, "lgk", "ln(re kg)")
    x = ctx.choose("x", ["lgf", "lg(re foo)", "lgk"])
    text = ctx.choose("text", ["{x} lgk", "lgk/{x}", "s {x} lgk", "lgk^2 {x}"]).format(x=x)
    ctx.reach("log products")
    try:
        u = s.unit(text)
        v = s.unit(ctx.choose("to", [text, "m"]))
        verdict = bool(u.is_convertible_to(v))
        ctx.check(bool(v.is_convertible_to(u)) == verdict, "log products", text)
    except ValueError:  # refused, as by UDUNITS-2
        return
    try:
        Converter(u, v)
        made = True
    except pyudunits2.IncompatibleUnitsError:
        made = False
    except ValueError as e:
        ctx.check(verdict and "two unit transformations" in str(e), "log products", f"{text}: {e}")
        ctx.known(LOGPRODUCT, f"{u} -> {v}: {type(e).__name__}: {e}")
        return
    ctx.check(made == verdict, "log products", f"{text}: constructed {made}")


def cases(tier):
    rights = list(RIGHT)
    for left in LEFT:
        for r in rights:
            yield Case(f"symbolic[{left}|{r}]", symbolic(left, [r]), ("verdict", "symmetric", "converter"))
    yield Case("kinds", kinds, ("verdict", "symmetric", "converter"))
    yield Case("nothing", nothing, ("zero",))
    yield Case("log products", log_products, ("log products",))
    yield Case("dates", dates, ("date", "date converter"))
    if tier == "thorough":
        yield Case("three", three, ("verdict",))
