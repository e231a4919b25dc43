"""Units of every kind over one dimension (and its inverse), with symbolic data."""
from __future__ import annotations

from .common import *  # noqa: F401,F403


def zoo(ctx, fn="lg", rad=None):
    s = base_system()
    a, b = ctx.real("a", positive=True), ctx.real("b", positive=True)
    c, d = ctx.real("c"), ctx.real("d")
    k = ctx.real("k", positive=True)
    la, lb, lc, ld, lk = map(ctx.lit, (a, b, c, d, k))
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    us = {x: base_unit(x) for x in ("m", "s", "kg", "K", "rad")}
    if rad:
        us["rad"].dims = rad

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    m = us["m"]
    dfn("foo", num(ctx, a).mul(m), plural="foos", symbols=("F",))
    dfn("bar", num(ctx, b).mul(us["foo"], "*").mul(us["rad"]))
    dfn("off", m.shift(esym(c), lc))
    dfn("soff", us["bar"].shift(esym(d), ld))
    dfn("ooff", us["soff"].shift(esym(c), lc))
    dfn("lgm", m.log(fn))
    dfn("lgfoo", us["foo"].log("ln"))
    dfn("lgoff", us["off"].log("lb"))
    dfn("lglg", us["lgm"].log(fn))
    dfn("lgs", us["lgm"].shift(esym(d), ld))
    define(s, "klg", f"{lk} lgm")  # a multiple of a logarithm: see C04
    us["klg"] = U("klg", "log", 1, m.dims, 0, us["lgm"].base, m, 3, esym(k))
    us["kfoo"] = U("kilofoo", "lin", 1000 * us["foo"].scale, m.dims)
    one = U("1", "lin", 1, {})
    us["1/m"] = one.div(m)
    us["b/foo"] = num(ctx, b).div(us["foo"])
    dfn("ibar", one.div(us["bar"].mul(us["rad"])))
    dfn("lgi", us["b/foo"].log(fn))
    dfn("offi", us["1/m"].shift(esym(c), lc))
    us["foo/foo"] = us["foo"].div(us["foo"])
    us["foo s"] = us["foo"].mul(us["s"])
    us["m^2"] = m.pow(2, "2")
    return s, us


def tower(ctx, us, steps, start=("foo", "m", "off", "lgm", "kfoo"), logs=("lg", "ln")):
    """A unit written in place: logarithms, shifts, factors and brackets on one
    another, in any order (no multiples of logarithms: see C04)."""
    u = us[ctx.choose("start", list(start))]
    for i in range(steps):
        kinds = ["log", "shift", "()"] + (["factor", "product"] if u.kind != "log" else [])
        how = ctx.choose(f"step{i}", kinds)
        if how == "log":
            u = u.log(logs[i % len(logs)])
        elif how == "shift":
            c = ctx.real("cd"[i % 2])
            u = u.shift(esym(c), ctx.lit(c))
        elif how == "()":
            if u.prec == 3:
                raise Infeasible()
            u = U("(" + u.text + ")", u.kind, u.scale, u.dims, u.offset, u.base, u.ref, 3, u.k)
        elif how == "factor":
            u = num(ctx, ctx.real("b", positive=True)).mul(u)
        else:
            u = u.mul(us["rad"], "*")
    return u


DIRECT = ["m", "foo", "bar", "kfoo", "off", "soff", "ooff", "lgm", "lgfoo", "lgoff", "lglg", "lgs", "klg"]
INVERSE = ["1/m", "b/foo", "ibar", "lgi", "offi"]
OTHER = ["s", "rad", "foo/foo", "foo s", "m^2"]
