"""C07: two units compare equal exactly when they mean the same."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .zoo import DIRECT, INVERSE, OTHER, zoo

PROPERTY = "C07"
BOUNDS = {
    "quick": "every ordered pair of 23 linear, offset and logarithmic units with symbolic coefficients (scales any "
    "positive reals, equal or not; offsets and multiples any distinct reals); 40 spellings of 14 units; products of "
    "2 factors with any integer exponents on both sides; 17 concrete scales from 1e-300 to 1e200 (relative differences down to 1e-9) in 9 forms",
    "thorough": "as quick with 3 symbolic exponents per side, and the pairs under every logarithm",
}
OUTSIDE = [
    "units whose scales only agree up to floating-point rounding (0.1 m * 3 against 0.3 m)",
    "offsets that agree without being written alike",
    "two reference-date units",
]
ASSUMPTIONS = ["numbers are exact reals"]

RAD = {"radian": 1}


def scales_equal(ctx, a, b):
    if not ctx.symbolic:
        return sympy.simplify(a - b) == 0
    if sympy.simplify(a - b) == 0:
        return True
    smt = ctx.smt()
    n1, d1 = smt.tr(a)
    n2, d2 = smt.tr(b)
    return ctx.branch(n1 * d2 == n2 * d1)


def same_meaning(ctx, u, v):
    """Do the two units mean the same, on this path?"""
    for k in sorted(set(u.dims) | set(v.dims)):
        x, y = zi(u.dims.get(k, 0)), zi(v.dims.get(k, 0))
        if not ctx.branch(x == y):
            return False
    return same_kind(ctx, u, v)


def same_kind(ctx, u, v):
    if u.kind != v.kind:
        return False
    if u.kind == "log":
        return (
            u.base == v.base
            and sympy.simplify(u.k - v.k) == 0
            and sympy.simplify(u.offset - v.offset) == 0
            and same_kind(ctx, u.ref, v.ref)
        )
    if u.kind == "off" and sympy.simplify(u.offset - v.offset) != 0:
        return False
    return scales_equal(ctx, u.scale, v.scale)


def distinct_offsets(ctx):
    c, d, k = (ctx.real(x) for x in "cdk")
    for x in (c, d, c - d, c + d, k - 1):
        ctx.assume(x != 0)


def judge(ctx, s, u, v, want, label):
    x, y = s.unit(u.text), s.unit(v.text)
    ctx.check((x == y) is want, label, f"({u.text} == {v.text}) is not {want}")
    ctx.check((y == x) is want, "symmetric", f"({v.text} == {u.text}) is not {want}")
    ctx.check((x != y) is (not want), "not equal", f"{u.text} != {v.text}")
    ctx.check(x == x and y == s.unit(v.text), "reflexive", f"{u.text}, {v.text}")
    if want:
        expr = Converter(x, y).expression
        ctx.same(expr, V, "equal units convert unchanged", f"{u.text} -> {v.text}: {expr}")


def pairs(left, rights, fns):
    def run(ctx):
        s, us = zoo(ctx, ctx.choose("fn", fns), rad=RAD)
        distinct_offsets(ctx)
        u, v = us[left], us[ctx.choose("v", rights)]
        judge(ctx, s, u, v, same_meaning(ctx, u, v), "verdict")

    return run


# groups of spellings of one unit (over the zoo, plus what `spell` adds)
GROUPS = [
    ["foo", "foos", "F", "{a} m", "m {a}", "{a}*m", "({a}) meter", "meters·{a}", "m/(1/{a})", "foo^1", "(foo)", "1 foo", "alias", "also"],
    ["bar", "{b} foo rad", "rad*foo {b}", "{b} {a} m rad", "radian ({a} {b}) meter", "m {b}/(1/(rad {a}))"],
    ["foo s", "s foo", "{a} m s", "second·F", "(m s) {a}", "s*s*foo/s"],
    ["foo/s", "F s-1", "foo s^-1", "{a} m/s", "1/(s/foo)", "s^-1*foo", "foo per s" , "{a} m s⁻¹"],
    ["foo^2", "foo*foo", "{a} m*{a} m", "(a m)^2", "{a}^2*m^2", "foo**2", "foo²", "1/foo^-2", "foo^3/foo"],
    ["off", "m @ {c}", "meter from {c}", "(m) @ {c}", "(m @ {c})"],
    ["soff", "bar @ {d}", "{b} foo rad @ {d}", "rad*{a} {b} m @ {d}"],
    ["ooff", "soff @ {c}", "(bar @ {d}) @ {c}", "(bar @ {c}) @ {d}"],
    ["lgm", "lg(re m)", "lg(re: m)", "lg(re meter)", "lg(re (m))", "1 lg(re m)"],
    ["lgfoo", "ln(re foo)", "ln(re {a} m)", "ln(re m {a})"],
    ["lgoff", "lb(re off)", "lb(re m @ {c})"],
    ["lglg", "lg(re lgm)", "lg(re lg(re m))"],
    ["lg(re m)", "log(re m)", "lgm"],
    ["foo/foo", "1", "m/m", "foo^0", "m^0*s^0", "s/s foo/foo", ""],
    ["off foo", "m foo", "{a} m^2", "foo off", "(off)(foo)"],
    ["2 off", "2 m", "m*2", "(1/0.5) m"],
    ["rad/foo", "rad^2/(foo rad)", "rad foo^-1", "(1/foo) rad"],
    ["kfoo", "kilofoo", "1000 foo", "kF", "1000*{a} m", "1e3 foo", "kilofoos"],
]


def spell(ctx, text, s):
    vals = {n: ctx.lit(ctx.real(n)) for n in "abcd"}
    return text.replace("(a m)", "({a} m)").format(**vals)


def spellings(i):
    def run(ctx):
        s, us = zoo(ctx, rad=RAD)
        define(s, "alias", us["foo"].text)
        define(s, "also", "alias")
        g = GROUPS[i]
        a = spell(ctx, g[ctx.choose("first", [0, 1])], s)
        b = spell(ctx, g[ctx.choose("second", range(len(g)))], s)
        x, y = s.unit(a), s.unit(b)
        ctx.check((x == y) is True, "spellings", f"{a!r} and {b!r}")
        ctx.check((y == x) is True, "spellings", f"{b!r} and {a!r}")
        ctx.check((x != y) is False, "spellings", f"{a!r} and {b!r}")
        expr = Converter(x, y).expression
        ctx.same(expr, V, "equal units convert unchanged", f"{a} -> {b}: {expr}")

    return run


def exponents(ctx):
    """Products of powers, any integer exponents."""
    s, us = zoo(ctx, rad=RAD)
    n, k, i = ctx.int("n"), ctx.int("k"), ctx.int("i")
    p = lambda u, e: us[u].pow(e, ctx.lit(e))
    shape = ctx.choose("shape", range(6))
    u, v = [
        lambda: (p("m", n).mul(p("s", k)), p("s", i).mul(p("m", n), "*")),
        lambda: (p("m", n).mul(p("m", k)), p("m", i)),
        lambda: (p("m", n).div(p("s", k)), p("m", n).mul(p("s", i))),
        lambda: (p("m", n).pow(k, ctx.lit(k)), p("m", i)),
        lambda: (p("rad", n).mul(p("m", k)), p("m", k).mul(p("rad", i))),
        lambda: (p("s", n).mul(us["kg"]).pow(k, ctx.lit(k)), us["kg"].pow(k, ctx.lit(k)).mul(p("s", i))),
    ][shape]()
    judge_exp(ctx, s, u, v)


def judge_exp(ctx, s, u, v):
    want = all(
        ctx.branch(zi(u.dims.get(q, 0)) == zi(v.dims.get(q, 0))) for q in sorted(set(u.dims) | set(v.dims))
    )
    x, y = s.unit(u.text), s.unit(v.text)
    ctx.check((x == y) is want, "exponents", f"({u.text} == {v.text}) is not {want}")
    ctx.check((y == x) is want, "exponents", f"({v.text} == {u.text}) is not {want}")


def three(ctx):
    s, us = zoo(ctx, rad=RAD)
    side = []
    for t in "pq":
        e = [ctx.int(t + str(j)) for j in range(3)]
        f = [us[x].pow(y, ctx.lit(y)) for x, y in zip(("m", "s", "kg"), e)]
        side.append(f[0].mul(f[1]).mul(f[2]) if t == "p" else f[2].mul(f[0]).div(f[1]))
    judge_exp(ctx, s, *side)


def others(ctx):
    s, us = zoo(ctx, rad=RAD)
    u = us[ctx.choose("u", DIRECT + OTHER)]
    x = s.unit(u.text)
    other = ctx.choose(
        "other", [5, "m", u.text, None, "date", ctx.real("a"), x.dimensionality(), "graph", u"1", object]
    )
    if other == "date":
        other = s.unit("s since 2000-01-01")
    elif other == "graph":
        other = pyudunits2._grammar.parse(u.text)
    ctx.check((x == other) is False, "non-units", f"{u.text} == {other!r}")
    ctx.check((other == x) is False, "non-units", f"{other!r} == {u.text}")
    ctx.check((x != other) is True, "non-units", f"{u.text} != {other!r}")


# concrete scales, no two of which are equal up to rounding
SCALES = ["1e-300", "2e-300", "1e-30", "1e-15", "2e-15", "1.000000001e-15", "1e-9", "0.999999999", "1", "1.000000001", "1.0001", "1e9", "1000000001", "1e15", "1.00000001e15", "1e200", "3e200"]
TEXTS = ["{} m", "{}", "m/{}", "({} m)^-1", "{} m s", "rad {} m @ 1", "lg(re {} m)", "m @ {}", "lg(re m) @ {}"]


def scales(i):
    """Units that differ in a number only, of any size."""

    def run(ctx):
        s = base_system()
        a, b = SCALES[i], ctx.choose("b", SCALES)
        t = ctx.choose("text", TEXTS)
        u, v = t.format(a), t.format(b)
        x, y = s.unit(u), s.unit(v)
        want = a == b
        ctx.check((x == y) is want, "scales", f"({u} == {v}) is not {want}")
        ctx.check((y == x) is want, "scales", f"({v} == {u}) is not {want}")
        ctx.check((x != y) is (not want), "scales", f"{u} != {v}")

    return run


def cases(tier):
    names = DIRECT + INVERSE + OTHER
    fns = ["lg"] if tier == "quick" else ["lg", "ln", "lb"]
    for u in names:
        yield Case(f"pairs[{u}]", pairs(u, names, fns), ("verdict", "symmetric", "equal units convert unchanged"))
    for i, g in enumerate(GROUPS):
        yield Case(f"spellings[{g[0]}]", spellings(i), ("spellings", "equal units convert unchanged"))
    yield Case("exponents", exponents, ("exponents",))
    for i, a in enumerate(SCALES):
        yield Case(f"scales[{a}]", scales(i), ("scales",))
    yield Case("others", others, ("non-units",))
    if tier == "thorough":
        yield Case("three", three, ("exponents",))
