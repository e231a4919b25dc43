"""C03: offset units convert affinely; offsets vanish inside products."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .c02 import VALUE, basis_expr, verify as verify02

PROPERTY = "C03"
BOUNDS = {
    "quick": "offset units in named chains of up to 3 definitions and shifts written in place; scales (any "
    "non-zero real) and origins (any real) symbolic; products, quotients and powers (exponents -3..3 except 1) of "
    "offset units with up to 2 further factors, shifted again or not; concrete decimal origins to 1e-9",
    "thorough": "as quick with all pairs of 15 offset expressions in both directions and nested shifts to depth 4",
}
OUTSIDE = [
    "an offset unit raised to the power one (UDUNITS-2 keeps the offset, the statement says nothing)",
    "shifts of time units (reference dates, C12)",
]
ASSUMPTIONS = ["coefficients are exact reals"]


def system(ctx):
    s = base_system()
    a, b = ctx.real("a", nonzero=True), ctx.real("b", nonzero=True)
    c1, c2, c3 = ctx.real("c1"), ctx.real("c2"), ctx.real("c3")
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    us = {k: base_unit(k) for k in ("m", "s", "kg", "K", "rad")}

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    dfn("rank", num(ctx, a).mul(us["K"]))
    dfn("cel", us["K"].shift(esym(c1), ctx.lit(c1)), symbols=("C",), plural="cels")
    dfn("fah", us["rank"].shift(esym(c2), ctx.lit(c2)))
    dfn("off", us["cel"].shift(esym(c3), ctx.lit(c3), "@"))
    dfn("offb", us["off"].shift(esym(c1), ctx.lit(c1), " from "))
    dfn("scel", num(ctx, b).mul(us["cel"]))
    dfn("soff", num(ctx, b).mul(us["cel"]).shift(esym(c3), ctx.lit(c3), " since "))
    dfn("same", us["fah"])
    us["kilocel"] = U("kilocel", "lin", 1000, us["K"].dims)
    us["cels"] = us["cel"].named("cels")
    return s, us


OPS = [" @ ", "@", " since ", " from ", " after ", " ref "]
NAMES = ["K", "rank", "cel", "fah", "off", "offb", "scel", "soff", "same", "kilocel", "cels"]
WRITTEN = ["{fah} @ d", "({cel} @ d) @ e", "(e {rank}) @ d", "(e {cel}) @ d", "(({fah} @ d) @ e) @ d", "({offb})", "(e {soff}/rad) @ d"]


def offset_expr(ctx, us, key):
    """A named offset unit or one written in place."""
    if key in us:
        return us[key]
    d = ctx.real("d")
    ld = ctx.lit(d)
    if key == "{fah} @ d":
        return us["fah"].shift(esym(d), ld, ctx.choose("op", OPS))
    if key == "({offb})":
        return U("(offb)", "off", us["offb"].scale, us["offb"].dims, us["offb"].offset)
    e = ctx.real("e", nonzero=True)
    le = ctx.lit(e)
    if key == "({cel} @ d) @ e":
        return us["cel"].shift(esym(d), ld).shift(esym(e), le)
    if key == "(e {rank}) @ d":
        return num(ctx, e).mul(us["rank"]).shift(esym(d), ld)
    if key == "(e {cel}) @ d":
        return num(ctx, e).mul(us["cel"]).shift(esym(d), ld)
    if key == "(({fah} @ d) @ e) @ d":
        return us["fah"].shift(esym(d), ld).shift(esym(e), le).shift(esym(d), ld)
    if key == "(e {soff}/rad) @ d":
        return num(ctx, e).mul(us["soff"]).div(us["rad"]).shift(esym(d), ld)
    raise AssertionError(key)


def verify(ctx, s, f, t, inverse, label, **kw):
    check_dims(ctx, s.unit(f.text).dimensionality(), f.dims, "factors", f.text)
    verify02(ctx, s, f, t, inverse, label=label, **kw)


def pairs(frm, tos, inverse):
    def run(ctx):
        s, us = system(ctx)
        f = offset_expr(ctx, us, frm)
        t = us[ctx.choose("to", tos)]
        if inverse:
            g = ctx.real("g", nonzero=True)
            t = num(ctx, g).div(t)
        if ctx.choose("direction", ["forth", "back"]) == "back":
            f, t = t, f
        verify(ctx, s, f, t, inverse, "affine")

    return run


def inside(shape, pool, few):
    """Offsets inside products, quotients and powers."""

    def run(ctx):
        s, us = system(ctx)
        x = offset_expr(ctx, us, ctx.choose("x", pool))
        y = us[ctx.choose("y", ["m", "rad", "rank", "cel"])] if "y" in shape else None
        n = ctx.choose("n", [-1, 2, 0] if few else [-1, 2, -2, 3, 0]) if "n" in shape else None
        if shape == "xy":
            u = x.mul(y)
        elif shape == "yx":
            u = y.mul(x, "*")
        elif shape == "x/y":
            u = x.div(y)
        elif shape == "y/x":
            u = y.div(x)
        elif shape == "x^n":
            u = x.pow(n, str(n))
        elif shape == "(xy)^n":
            u = x.mul(y).pow(n, str(n))
        elif shape == "y/(x m)":
            u = y.div(x.mul(us["m"]))
        elif shape == "y x^n":
            u = y.mul(x.pow(n, str(n)))
        if ctx.choose("then", ["plain", "shifted"]) == "shifted":
            h = ctx.real("h")
            u = u.shift(esym(h), ctx.lit(h))
        to = basis_expr({k: v for k, v in u.dims.items() if v})
        if ctx.choose("direction", ["to basis", "from basis"]) == "to basis":
            verify(ctx, s, u, to, False, "inside product")
        else:
            verify(ctx, s, to, u, False, "inside product")

    return run


ORIGINS = ["273.15", "-459.67", "1e2", "0", ".5", "32", "-40", "+5", "2.5e-1"]


def decimals(ctx):
    s = base_system()
    c, d = ctx.choose("c", ORIGINS), ctx.choose("d", ORIGINS)
    k = base_unit("K")
    define(s, "cel", f"K @ {c}")
    define(s, "rank", "K/1.8")
    rank = U("rank", "lin", sympy.Rational(5, 9), k.dims)
    cel = k.shift(sympy.Rational(str(float(c))), c).named("cel")
    f = rank.shift(sympy.Rational(str(float(d))), d)
    t = cel
    if ctx.choose("dir", [0, 1]):
        f, t = t, f
    verify(ctx, s, f, t, False, "decimal origin", form="tol", rel="1e-9", abs_="1e-6")


def cases(tier):
    keys = NAMES + WRITTEN
    tos = NAMES if tier == "thorough" else ["K", "rank", "fah", "offb", "soff", "scel"]
    for k in keys:
        yield Case(f"pair[{k}]", pairs(k, tos, False), ("affine",))
        yield Case(f"inverse[{k}]", pairs(k, ["K", "rank", "cel"] if tier == "quick" else NAMES, True), ("affine",))
    pool = ["cel", "fah", "offb", "soff", "(e {cel}) @ d", "({offb})", "{fah} @ d"]
    if tier == "thorough":
        pool = NAMES + WRITTEN
    for sh in ["xy", "yx", "x/y", "y/x", "x^n", "(xy)^n", "y/(x m)", "y x^n"]:
        yield Case(f"inside[{sh}]", inside(sh, pool, tier == "quick" and "n" in sh), ("inside product",))
    yield Case("decimals", decimals, ("decimal origin",))
