"""C11: the expanded form mentions only the basis and keeps the meaning."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from .gen import judge_meaning, tree
from .zoo import DIRECT, INVERSE, OTHER, tower, zoo

PROPERTY = "C11"
BOUNDS = {
    "quick": "expressions of depth 2 (products, quotients, powers) over 9 atoms defined through up to 4 levels of "
    "definitions and prefixes, any real coefficients and any integer exponents; all linear, offset and logarithmic "
    "units of a 23-unit zoo and shifts of them; chains of 6 definitions; 3 steps of logarithm, shift, factor, "
    "product and brackets in any order on 5 units",
    "thorough": "depth 3 over fewer atoms, and all pairs of atoms at depth 2 with exponents at every position",
}
OUTSIDE = ["deeper expressions", "multiples of logarithms (see C04) are only required to expand to an equal unit"]
ASSUMPTIONS = ["numbers are exact reals"]

BASIS = {"meter", "second", "kilogram", "kelvin", "radian"}


def system(ctx):
    s = base_system()
    a, b = ctx.real("a", positive=True), ctx.real("b", positive=True)
    n, k = ctx.int("n"), ctx.int("k")
    p = ctx.real("p", positive=True)
    s.add_prefix(Prefix(name="pre", value=ctx.lit(p), symbols=("P",)))
    us = {x: base_unit(x) for x in ("m", "s", "kg", "K", "rad")}

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    m, sec = us["m"], us["s"]
    dfn("foo", num(ctx, a).mul(m), symbols=("F",))
    dfn("vel", num(ctx, b).mul(us["foo"]).div(sec))
    dfn("quot", m.div(us["vel"].mul(us["rad"])), alias_names=(Name(singular="quotient"),))
    dfn("pw", us["m"].pow(n, ctx.lit(n)).mul(sec, "*"))
    dfn("neg", us["vel"].pow(-2, "-2"))
    dfn("inv", U("1", "lin", 1, {}).div(us["pw"]))
    dfn("off", us["foo"].shift(3, "3"))
    dfn("offprod", us["off"].mul(sec))
    dfn("five", U("5", "lin", 5, {}))
    pv = U("Pvel", "lin", p.e if ctx.symbolic else esym(p), {})
    us["Pvel"] = U("Pvel", "lin", esym(p) * us["vel"].scale, us["vel"].dims)
    us["prequotient"] = U("prequotient", "lin", esym(p) * us["quot"].scale, us["quot"].dims)
    return s, us


def judge(ctx, s, u, meaning=True):
    unit = s.unit(u.text)
    ctx.int_text = "lit"
    text = unit.expanded()
    ctx.int_text = "name"
    again = s.unit(text)
    from pyudunits2._expr.atoms import ExtractIdentifiers
    from pyudunits2._grammar import parse

    ids = {str(i) for i in ExtractIdentifiers().visit(parse(text))}
    ctx.check(ids <= BASIS, "only the basis", f"{u.text}: {text} mentions {sorted(ids - BASIS)}")
    # (with concrete numbers, equal up to rounding: see the conversion below)
    ctx.check(again == unit or not ctx.symbolic, "equal", f"{u.text}: {text}")
    if meaning:
        judge_meaning(ctx, s, again, u, "meaning", f"{u.text} expands to {text}")
    expr = Converter(unit, again).expression
    ctx.same(expr, V, "unchanged", f"{u.text} to {text}: {expr}")
    ctx.int_text = "lit"
    ctx.check(again.expanded() == text, "stable", f"{text} expands to {again.expanded()}")
    ctx.int_text = "name"


def trees(top, atoms, depth):
    def run(ctx):
        s, us = system(ctx)
        pool = {x: us[x] for x in atoms}
        k = ctx.int("k")
        left = us[top]
        op = ctx.choose("op", ["alone", "mul", "rdiv", "div", "rmul", "pow", "powneg"][: 7 if top != "five" else 5])
        if op == "alone":
            u = left
        elif op in ("pow", "powneg"):
            e = k if op == "pow" else -2
            u = left.pow(e, ctx.lit(e))
            if ctx.choose("more", [0, 1]):
                u = us["K"].div(u)
        else:
            right = tree(ctx, depth, pool, "r")
            u = {
                "mul": lambda: left.mul(right),
                "div": lambda: left.div(right),
                "rmul": lambda: right.mul(left, "*"),
                "rdiv": lambda: right.div(left),
            }[op]()
        judge(ctx, s, u)

    return run


def zoo_units(names):
    def run(ctx):
        s, us = zoo(ctx)
        u = us[ctx.choose("u", names)]
        if ctx.choose("shifted", [0, 1]):
            u = u.shift(esym(ctx.real("c")), ctx.lit(ctx.real("c")))
            if u.text.startswith("s "):
                raise Infeasible()
        judge(ctx, s, u, meaning=u.kind != "log" or u.k == 1)

    return run


def towers(steps):
    def run(ctx):
        s, us = zoo(ctx)
        judge(ctx, s, tower(ctx, us, steps))

    return run


def chain(ctx):
    """Definitions on definitions: each wraps the one before."""
    s = base_system()
    a = ctx.real("a", positive=True)
    s.add_prefix(Prefix(name="pre", value="1000", symbols=("P",)))
    u = base_unit("m")
    for i, name in enumerate(("da", "db", "dc", "dd", "de", "df")):
        step = ctx.choose(f"step{i}", ["factor", "over", "pow", "prefix"] if i < 3 else ["factor", "over"] if i < 5 else ["over"])
        if step == "factor":
            u = num(ctx, a).mul(u)
        elif step == "over":
            u = base_unit("s").div(u)
        elif step == "pow":
            u = u.pow(-2, "-2")
        else:
            if u.prec != 3 or not u.text.isalpha():
                raise Infeasible()
            u = U("pre" + u.text, "lin", 1000 * u.scale, u.dims)
        define(s, name, u.text)
        u = u.named(name)
    judge(ctx, s, u)


def cases(tier):
    atoms = ["foo", "vel", "quot", "pw", "neg", "inv", "offprod", "five", "Pvel", "prequotient"]
    small = ["m", "vel", "inv"]
    for a in atoms:
        yield Case(f"trees[{a}]", trees(a, small if tier == "quick" else ["m", "vel", "pw", "inv"], 1), ("meaning", "equal", "only the basis"), decimal_module=True)
        if tier == "thorough":
            yield Case(f"pairs[{a}]", trees(a, atoms, 0), ("meaning",), decimal_module=True)
            yield Case(f"deep[{a}]", trees(a, ["vel", "inv"], 2), ("meaning",), deadline=1500, decimal_module=True)
    names = DIRECT + INVERSE + OTHER
    for i in range(0, len(names), 6):
        yield Case(f"zoo{i}", zoo_units(names[i : i + 6]), ("unchanged", "equal"))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        yield Case(f"towers[{n}]", towers(n), ("meaning", "unchanged"))
    yield Case("chain", chain, ("meaning",))
