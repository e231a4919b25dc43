"""C04: logarithmic units convert through the power of their base."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .zoo import tower, zoo
from .c02 import VALUE, basis_expr

PROPERTY = "C04"
BOUNDS = {
    "quick": "lg/ln/lb/log of plain, named, scaled (any positive real), compound and offset references, "
    "logarithms of logarithms, named logarithmic units and offsets on top of a logarithm; against linear "
    "units with any positive scale, both directions, inverse dimensionality, and against each other; 3 steps of logarithm, shift, factor and brackets in any order",
    "thorough": "as quick with every pair of logarithmic units and every base",
}
OUTSIDE = [
    "products of a logarithmic unit with another dimensional or logarithmic unit (UDUNITS-2 rejects them)",
    "values for which a logarithm's argument is not positive",
]
ASSUMPTIONS = [
    "exp and log are uninterpreted apart from being functions, inverse to each other, exp > 0 and the sign of log",
    "coefficients are exact reals",
]

FN = ["lg", "ln", "lb", "log"]


def system(ctx, fn):
    s = base_system()
    a, b, c = ctx.real("a", positive=True), ctx.real("b", positive=True), ctx.real("c")
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    us = {k: base_unit(k) for k in ("m", "s", "kg", "K", "rad")}

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    dfn("foo", num(ctx, a).mul(us["m"]), plural="foos")
    dfn("bar", num(ctx, b).mul(us["kg"]).mul(us["foo"].pow(2, "2", "^")).div(us["s"]))
    dfn("off", us["m"].shift(esym(c), ctx.lit(c)))
    dfn("lgm", us["m"].log(fn), plural="lgms")
    dfn("lgfoo", us["foo"].log(fn), symbols=("LF",))
    return s, us


REFS = ["m", "foo", "rad", "bar", "k m", "m/s", "off", "b m", "foo^2", "kilofoo", "(m @ c)", "bar/kg rad"]


def reference(ctx, us, key):
    if key in us:
        return us[key]
    if key == "k m":
        return U("km", "lin", 1000, us["m"].dims)
    if key == "m/s":
        return us["m"].div(us["s"])
    if key == "b m":
        d = ctx.real("d", positive=True)
        return num(ctx, d).mul(us["m"])
    if key == "foo^2":
        return us["foo"].pow(2, "2")
    if key == "kilofoo":
        return U("kilofoo", "lin", 1000 * us["foo"].scale, us["foo"].dims)
    if key == "(m @ c)":
        d = ctx.real("d")
        u = us["m"].shift(esym(d), ctx.lit(d))
        u.text, u.prec = "(" + u.text + ")", 3
        return u
    if key == "bar/kg rad":
        return us["bar"].div(us["kg"]).mul(us["rad"])
    raise AssertionError(key)


def judge(ctx, s, f, t, inverse, label, wrong=None, key=None):
    """The conversion f -> t means what it should."""
    got = Converter(s.unit(f.text), s.unit(t.text)).expression
    want = f.convert(VALUE, t, inverse)
    detail = f"{f.text} -> {t.text}: {got}, expected {want}"
    if wrong is not None:
        ctx.reach(label)
        ok, a = ctx.agrees(got, want)
        if not ok:
            bad, _ = ctx.agrees(got, wrong[0].convert(VALUE, wrong[1], inverse))
            if not bad:
                ctx.same(got, want, label, detail)
            ctx.known(key, f"{f.text} -> {t.text} is {got}")
    else:
        ctx.same(got, want, label, detail)
    ctx.check(got.free_symbols <= {VALUE}, "one free variable", detail)


def linear_target(ctx, u, inverse):
    e = ctx.real("e", positive=True)
    dims = {k: (-v if inverse else v) for k, v in u.dims.items() if v}
    if inverse and not dims:
        raise Infeasible()
    return num(ctx, e).mul(basis_expr(dims))


def single(fn, forms):
    """One logarithmic unit against a linear one."""

    def run(ctx):
        s, us = system(ctx, fn)
        form = ctx.choose("form", forms)
        if form == "lgm":
            u = us[ctx.choose("which", ["lgm", "lgfoo"])]
        elif form == "lglgm":
            u = us["lgm"].log(ctx.choose("outer", FN))
        else:
            r = reference(ctx, us, ctx.choose("ref", REFS))
            u = r.log(fn)
            if form == "loglog":
                u = u.log(ctx.choose("outer", FN))
            elif form == "shifted":
                h = ctx.real("h")
                u = u.shift(esym(h), ctx.lit(h))
            elif form == "shifted log":
                h = ctx.real("h")
                v = u.shift(esym(h), ctx.lit(h))
                v.text, v.prec = "(" + v.text + ")", 3
                u = v.log("lg")
        inverse = ctx.choose("inverse", [False, True])
        t = linear_target(ctx, u, inverse)
        if ctx.choose("direction", ["to linear", "from linear"]) == "to linear":
            judge(ctx, s, u, t, inverse, "log/linear")
        else:
            judge(ctx, s, t, u, inverse, "log/linear")

    return run


def between(fn, fn2s):
    """Two logarithmic units."""

    def run(ctx):
        s, us = system(ctx, fn)
        inverse = ctx.choose("inverse", [False, True])
        u = ctx.choose("u", ["m", "foo", "lgm", "lgfoo", "off", "lglgm"])
        u = us[u] if u in ("lgm", "lgfoo") else us["lgm"].log("lb") if u == "lglgm" else us[u].log(fn)
        t = ctx.choose("t", ["foo", "kilofoo", "off", "b m", "lgfoo", "shifted"])
        fn2 = ctx.choose("fn2", fn2s)
        if t == "lgfoo":
            if inverse:
                raise Infeasible()
            t = us["lgfoo"]
        elif t == "shifted":
            h = ctx.real("h")
            r = us["foo"]
            t = (U("1", "lin", 1, {}).div(r) if inverse else r).log(fn2).shift(esym(h), ctx.lit(h))
        else:
            r = reference(ctx, us, t)
            if inverse:
                r = U("1", "lin", 1, {}).div(r)
            t = r.log(fn2)
        if ctx.choose("direction", [0, 1]):
            u, t = t, u
        judge(ctx, s, u, t, inverse, "log/log")

    return run


KEY = "scaled-log"


def scaled(fn):
    """Multiples of logarithmic units (a known finding: see the findings file)."""

    def run(ctx):
        s, us = system(ctx, fn)
        k = ctx.real("k", positive=True)
        lk, ek = ctx.lit(k), esym(k)
        r = us[ctx.choose("ref", ["m", "foo"])]
        base = r.log(fn) if ctx.choose("named", [0, 1]) == 0 else us["lgm" if r.text == "m" else "lgfoo"]
        form = ctx.choose("form", ["k log", "log k", "log/k", "kilolog", "named"])
        if form == "k log":
            text = f"{lk} {base.text}"
        elif form == "log k":
            text = f"{base.text} {lk}"
        elif form == "log/k":
            text = f"{base.text}/{lk}"
        elif form == "kilolog":
            if base.text not in us:
                raise Infeasible()
            text, ek = "kilo" + base.text, sympy.Integer(1000)
        else:
            define(s, "dec", f"{lk} {base.text}")
            text = "dec"
        right = sympy.Integer(1) / ek if form == "log/k" else ek
        u = U(text, "log", 1, base.dims, 0, base.base, base.ref, 1, right)
        if form == "log/k":
            ref = U("", "lin", r.scale / ek, r.dims)
            bad = U(text, "log", 1, base.dims, 0, base.base, ref, 1, 1)
        else:
            bad = U(text, "log", 1, base.dims, 0, base.base, base.ref, 1, 1 / right)
        other = ctx.choose("to", ["linear", "log"])
        if other == "linear":
            inverse = ctx.choose("inverse", [False, True])
            t = linear_target(ctx, u, inverse)
        else:
            inverse, t = False, us["lgfoo"]
        if ctx.choose("direction", [0, 1]):
            judge(ctx, s, u, t, inverse, "scaled log", (bad, t), KEY)
        else:
            judge(ctx, s, t, u, inverse, "scaled log", (t, bad), KEY)

    return run


def towers(first, steps):
    """Logarithms, shifts and factors written on one another."""

    def run(ctx):
        s, us = zoo(ctx)
        u = tower(ctx, us, steps, start=(first,))
        if u.kind != "log":
            raise Infeasible()
        inverse = ctx.choose("inverse", [False, True])
        t = linear_target(ctx, u, inverse)
        if ctx.choose("direction", [0, 1]):
            judge(ctx, s, u, t, inverse, "towers")
        else:
            judge(ctx, s, t, u, inverse, "towers")

    return run


def numbers(ctx):
    """Concrete values through convert(): the base is exactly 10, 2 or e."""
    s = base_system()
    define(s, "foo", "2.5 m")
    fn = ctx.choose("fn", FN)
    v = ctx.choose("v", [2, 0, -3, 0.5])
    base = {"lg": 10.0, "log": 10.0, "lb": 2.0, "ln": 2.718281828459045}[fn]
    got = Converter(s.unit(f"{fn}(re foo)"), s.unit("m")).convert(v)
    ctx.same(sympy.Float(float(got)), sympy.Float(2.5 * base**v), "numbers", f"{fn} {v}: {got}", form="tol", rel="1e-9")
    back = Converter(s.unit("m"), s.unit(f"{fn}(re foo)")).convert(float(got))
    ctx.same(sympy.Float(float(back)), sympy.Float(float(v)), "numbers", f"{fn} {v}: {back}", form="tol", rel="1e-9", abs_="1e-9")


def cases(tier):
    for fn in FN:
        yield Case(f"single[{fn}]", single(fn, ["plain"]), ("log/linear",))
        yield Case(f"shifted[{fn}]", single(fn, ["shifted", "shifted log"]), ("log/linear",))
        if fn in ("lg", "ln") or tier == "thorough":
            yield Case(f"nested[{fn}]", single(fn, ["loglog", "lgm", "lglgm"]), ("log/linear",))
        fn2s = [fn, "ln" if fn != "ln" else "lb"] if tier == "quick" else FN
        yield Case(f"between[{fn}]", between(fn, fn2s), ("log/log",))
        if fn != "log" or tier == "thorough":
            yield Case(f"scaled[{fn}]", scaled(fn), ("scaled log",))
    for first in ("foo", "off", "lgm"):
        yield Case(f"towers[{first}]", towers(first, 3 if tier == "quick" else 4), ("towers",))
    yield Case("numbers", numbers, ("numbers",))
