"""C05: conversions round-trip, compose and fix identical units."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .zoo import DIRECT, INVERSE, zoo

PROPERTY = "C05"
BOUNDS = {
    "quick": "18 linear, offset and logarithmic units over one dimension or its inverse with symbolic coefficients: "
    "every ordered pair (there and back), every unit to itself, triples from 11 of them; powers with any integer "
    "exponent for linear units; 12 concrete scales from 1e-30 to 1e30 in every pair and 5 forms, through expressions and numbers",
    "thorough": "as quick with every triple of the 18",
}
OUTSIDE = ["values outside the domain of a logarithm", "rounding"]
ASSUMPTIONS = ["coefficients are exact reals", "exp/log uninterpreted but mutually inverse"]


def conv(s, a, b):
    return Converter(s.unit(a.text), s.unit(b.text)).expression


def compose(outer, inner):
    return outer.xreplace({V: inner})


def roundtrip(frm, tos):
    def run(ctx):
        s, us = zoo(ctx, "lg")
        u, v = us[frm], us[ctx.choose("v", tos)]
        there, back = conv(s, u, v), conv(s, v, u)
        ctx.same(compose(back, there), V, "round trip", f"{u.text} -> {v.text} -> back: {there}, {back}")

    return run


def identity(ctx):
    s, us = zoo(ctx, ctx.choose("fn", ["lg", "ln", "lb"]))
    u = us[ctx.choose("u", list(us))]
    ctx.same(conv(s, u, u), V, "identity", u.text)


def triangle(frm, pool):
    def run(ctx):
        s, us = zoo(ctx, "lg")
        u, v, w = us[frm], us[ctx.choose("v", pool)], us[ctx.choose("w", pool)]
        uv, vw, uw = conv(s, u, v), conv(s, v, w), conv(s, u, w)
        ctx.same(compose(vw, uv), uw, "composition", f"{u.text} -> {v.text} -> {w.text}: {uv}, {vw}; direct {uw}")

    return run


def powers(ctx):
    """Linear units raised to any integer."""
    s, us = zoo(ctx)
    n = ctx.int("n")
    f, g = us["foo"], us["bar"]
    x = f.pow(n, ctx.lit(n))
    y = us["kfoo"].mul(us["foo"]).pow(n, ctx.lit(n)).div(g.pow(n, ctx.lit(n)))
    if ctx.choose("swap", [0, 1]):
        x, y = y, x
    how = ctx.choose("how", ["round", "self"])
    if how == "self":
        ctx.same(conv(s, x, x), V, "powers", x.text, form="log")
        return
    there, back = conv(s, x, y), conv(s, y, x)
    ctx.same(compose(back, there), V, "powers", f"{x.text} -> {y.text}", form="log")


SCALES = ["1e-30", "3e-24", "6.62607015e-34", "1e-19", "7e-16", "1e-9", "1", "12345.678", "1e12", "1e19", "5.9722e24", "1e30"]
VALUES = [1.0, -2.5, 3e7]


def extremes(frm):
    """Factors from 1e-30 to 1e30, through expressions and through numbers."""

    def run(ctx):
        s = base_system()
        define(s, "foo", f"{frm} m")
        b, c = ctx.choose("to", SCALES), ctx.choose("by", SCALES[::3])
        define(s, "bar", f"{b} m")
        form = ctx.choose("form", ["{}", "{}/s", "{}^2", "kg/{}", "{} @ 0"])
        u, v, w = (s.unit(form.format(x)) for x in ("foo", "bar", f"({c} m)"))
        uv, vu, vw, uw = Converter(u, v), Converter(v, u), Converter(v, w), Converter(u, w)
        tol = dict(form="tol", rel="1e-12")
        ctx.same(compose(vu.expression, uv.expression), V, "extremes", f"{u} -> {v} -> {u}", **tol)
        ctx.same(compose(vw.expression, uv.expression), uw.expression, "extremes", f"{u} -> {v} -> {w}", **tol)
        for x in VALUES:
            y = uv.convert(x)
            detail = f"{u} -> {v}: {x} gives {y}"
            ctx.same(sympy.Float(float(y), 17), uv.expression.xreplace({V: sympy.Float(x, 17)}), "extremes", detail, **tol)
            ctx.same(sympy.Float(float(vu.convert(y)), 17), sympy.Float(x, 17), "extremes", detail, **tol)
            ctx.same(sympy.Float(float(vw.convert(y)), 17), sympy.Float(float(uw.convert(x)), 17), "extremes", detail, **tol)

    return run


def cases(tier):
    both = DIRECT + INVERSE
    for u in both:
        yield Case(f"roundtrip[{u}]", roundtrip(u, both), ("round trip",))
    yield Case("identity", identity, ("identity",))
    yield Case("powers", powers, ("powers",))
    for a in SCALES:
        yield Case(f"extremes[{a}]", extremes(a), ("extremes",))
    pool = both if tier == "thorough" else ["m", "bar", "soff", "lgfoo", "lgs", "klg", "b/foo", "lgi", "lglg", "offi", "kfoo"]
    for u in pool:
        yield Case(f"triangle[{u}]", triangle(u, pool), ("composition",))
