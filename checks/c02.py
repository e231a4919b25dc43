"""C02: linear conversions multiply by the exact ratio of the scales."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403

PROPERTY = "C02"
BOUNDS = {
    "quick": "from/to units of up to 3 factors over m, s, kg, K, rad, two levels of named definitions with "
    "symbolic coefficients (any non-zero real), a prefix with a symbolic value and exponents -3..3; powers "
    "with any integer exponent (unbounded) for products of up to 2 factors and powers of powers (in place or named) with positive coefficients; "
    "concrete decimal coefficients to 1e-12 relative",
    "thorough": "as quick with three levels of definitions and a larger operand pool",
}
OUTSIDE = ["rounding of the floating-point evaluation beyond 1e-12 relative", "non-finite values"]
ASSUMPTIONS = ["coefficients are exact reals (the code computes them with 15-digit sympy floats)"]


def system(ctx, positive=False, deep=False):
    s = base_system()
    kw = dict(positive=positive, nonzero=not positive)
    a, b, c = ctx.real("a", **kw), ctx.real("b", **kw), ctx.real("c", **kw)
    s.add_prefix(Prefix(name="kilo", value=ctx.lit(c), symbols=("k",)))
    us = {k: base_unit(k) for k in ("m", "s", "kg", "K", "rad")}

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    dfn("foo", num(ctx, a).mul(us["m"].pow(2, "2", "")).div(us["s"]), plural="foos", symbols=("fo",))
    dfn("bar", num(ctx, b).mul(us["foo"], "·").div(us["kg"].mul(us["rad"])))
    if deep:
        dfn("baz", us["bar"].pow(-2, "-2", "").mul(num(ctx, b)).mul(us["kg"], "*"))
    us["kfo"] = U("kfo", "lin", esym(c) * us["foo"].scale, us["foo"].dims)
    us["kilofoos"] = us["kfo"].named("kilofoos")
    us["kilobar"] = U("kilobar", "lin", esym(c) * us["bar"].scale, us["bar"].dims)
    us["km"] = U("km", "lin", esym(c), us["m"].dims)
    return s, us


SYM = {v: k for k, v in LONG.items()}


def basis_expr(dims, text=None, ntext=str):
    """The product of basis units with the given dimensions."""
    parts = []
    for name, n in sorted(dims.items()):
        u = base_unit(SYM[name]) if name in SYM else U(name, "lin", 1, {name: 1})
        parts.append(u.pow(n, ntext(n)))
    u = parts[0] if parts else U("1", "lin", 1, {})
    for p in parts[1:]:
        u = u.mul(p, "·")
    return u


VALUE = sympy.Symbol("value")


def verify(ctx, s, frm, to, inverse, form="exact", label="conversion", **kw):
    f, t = s.unit(frm.text), s.unit(to.text)
    conv = Converter(f, t)
    got = conv.expression
    want = frm.convert(VALUE, to, inverse)
    ctx.same(got, want, label, f"{frm.text} -> {to.text}: {got}, expected {want}", form=form, **kw)
    ctx.check(got.free_symbols == {VALUE}, "one free variable", f"{frm.text} -> {to.text}: {got}")


SHAPES = [
    "X", "X Y", "X/Y", "X^n", "(X/Y)^n", "d X", "X d", "d/X", "X/(Y Z)", "X/Y/Z", "X Y^n", "X^n/Y", "(X Y)^n Z",
]


def build(ctx, us, shape, pool):
    X = us[ctx.choose("X", pool)]
    Y = us[ctx.choose("Y", pool)] if "Y" in shape else None
    Z = us[ctx.choose("Z", ["m", "kfo"])] if "Z" in shape else None
    n = ctx.choose("n", [-1, 2, -2, 3, 0, 1, -3]) if "n" in shape else None
    d = ctx.real("d", nonzero=True) if "d" in shape else None
    if shape == "X":
        return X
    if shape == "X Y":
        return X.mul(Y, ctx.choose("op", [" ", "*"]))
    if shape == "X/Y":
        return X.div(Y, ctx.choose("op", ["/", " per "]))
    if shape == "X^n":
        return X.pow(n, str(n), ctx.choose("op", ["^", "**"]))
    if shape == "(X/Y)^n":
        return X.div(Y).pow(n, str(n))
    if shape == "d X":
        return num(ctx, d).mul(X)
    if shape == "X d":
        return X.mul(num(ctx, d))
    if shape == "d/X":
        return num(ctx, d).div(X)
    if shape == "X/(Y Z)":
        return X.div(Y.mul(Z))
    if shape == "X/Y/Z":
        return X.div(Y).div(Z)
    if shape == "X Y^n":
        return X.mul(Y.pow(n, str(n)))
    if shape == "X^n/Y":
        return X.pow(n, str(n)).div(Y)
    if shape == "(X Y)^n Z":
        return X.mul(Y).pow(n, str(n)).mul(Z)
    raise AssertionError(shape)


def exact(shape, pool, deep, inverse):
    def run(ctx):
        s, us = system(ctx, deep=deep)
        u = build(ctx, us, shape, pool)
        dims = {k: v for k, v in u.dims.items() if v}
        if inverse:
            if not dims:
                raise Infeasible()
            dims = {k: -v for k, v in dims.items()}
        e = ctx.real("e", nonzero=True)
        to = num(ctx, e).mul(basis_expr(dims))
        if ctx.choose("direction", ["to basis", "from basis"]) == "to basis":
            verify(ctx, s, u, to, inverse)
        else:
            verify(ctx, s, to, u, inverse)

    return run


def named(inverse):
    """Both sides made of named definitions."""

    def run(ctx):
        s, us = system(ctx)
        f, t = ctx.choose(
            "pair",
            [
                ("foo", "kfo"),
                ("kfo", "foo"),
                ("kilobar", "bar"),
                ("bar", "kilobar"),
                ("kilofoos", "kilofoos"),
                ("kfo", "kilofoos"),
                ("bar kg", "foo"),
                ("foo/kg", "kilobar"),
                ("bar/foo", "1/kg"),
                ("foo^2", "foos kfo"),
                ("km^2/s", "foo"),
                ("rad foo", "foo"),
                ("foo", "foo rad^3"),
                ("rad", "1"),
                ("1", "rad/2"),
            ],
        )
        uf, ut = expr(us, f), expr(us, t)
        if inverse:
            ut2 = U("1", "lin", 1, {}).div(ut)
            verify(ctx, s, uf, ut2, True) if {k: v for k, v in uf.dims.items() if v} else None
        else:
            verify(ctx, s, uf, ut, False)
        ctx.reach("named")

    return run


def expr(us, text):
    """A tiny reader for the pairs above (products of names with ^ and /)."""
    import re

    toks = re.findall(r"[a-z]+|\^-?\d+|/| |\d+", text)
    u, op = None, " "
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in "/ ":
            op = t
            i += 1
            continue
        x = U(t, "lin", int(t), {}) if t.isdigit() else us["foo" if t == "foos" else t].named(t)
        if i + 1 < len(toks) and toks[i + 1][0] == "^":
            n = int(toks[i + 1][1:])
            x = x.pow(n, str(n))
            i += 1
        u = x if u is None else (u.div(x) if op == "/" else u.mul(x))
        i += 1
    return u


def symbolic_powers(shape, pool, inverse):
    """Any integer exponent, positive coefficients; compared in the log domain."""

    def run(ctx):
        s, us = system(ctx, positive=True)
        n, k = ctx.int("n"), ctx.int("k")
        X = us[ctx.choose("X", pool)].pow(n, ctx.lit(n))
        if shape == "X^n":
            u = X
        else:
            Y = us[ctx.choose("Y", pool)].pow(k, ctx.lit(k))
            u = X.mul(Y) if shape == "X^n Y^k" else X.div(Y)
            if shape == "(X^n/Y^k)^j":
                j = ctx.int("j")
                u = u.pow(j, ctx.lit(j))
        sign = -1 if inverse else 1
        dims = {d: sign * v for d, v in nonzero_dims(ctx, u.dims).items()}
        if inverse and not dims:
            raise Infeasible()
        e = ctx.real("e", positive=True)
        to = num(ctx, e).mul(basis_expr(dims, ntext=ctx.lit))
        if ctx.choose("direction", ["to basis", "from basis"]) == "to basis":
            verify(ctx, s, u, to, inverse, form="log", label="power conversion")
        else:
            verify(ctx, s, to, u, inverse, form="log", label="power conversion")

    return run


def powers_of_powers(inverse):
    """Powers of powers, written in place or through definitions."""

    def run(ctx):
        s, us = system(ctx, positive=True)
        n, k = ctx.int("n"), ctx.int("k")
        X = us[ctx.choose("X", ["m", "foo", "kfo"])].pow(n, ctx.lit(n))
        if ctx.choose("named", [0, 1]):
            define(s, "pw", X.text)
            X = X.named("pw")
        e, le = {"k": (k, ctx.lit(k)), "n": (n, ctx.lit(n)), "-2": (-2, "-2")}[ctx.choose("e", ["k", "n", "-2"])]
        u = X.pow(e, le)
        more = ctx.choose("more", ["", "/", "*"])
        if more == "/":
            u = u.div(X)
        elif more == "*":
            u = X.mul(u)
        dims = {d: (-v if inverse else v) for d, v in nonzero_dims(ctx, u.dims).items()}
        if inverse and not dims:
            raise Infeasible()
        to = basis_expr(dims, ntext=ctx.lit)
        verify(ctx, s, u, to, inverse, form="log", label="power conversion")

    return run


DECIMALS = ["2.5", "0.1", "1e3", "1.5e-7", "60", ".25", "6.02214179e23", "12.", "-3.5", "3E+2", "299792458"]


def decimals(ctx):
    """Concrete numbers in every spelling of the grammar."""
    s = base_system()
    a = ctx.choose("a", DECIMALS)
    b = ctx.choose("b", DECIMALS)
    s.add_prefix(Prefix(name="mega", value=b.lower(), symbols=("M",)))
    m = base_unit("m")
    where = ctx.choose("where", ["def/prefix", "inline", "power"])
    va, vb = esym(a), esym(b)
    if where == "def/prefix":
        define(s, "foo", f"{a} m")
        f, t = U("foo", "lin", va, m.dims), U("Mm", "lin", vb, m.dims)
        if ctx.choose("chain", [0, 1]):
            define(s, "bar", f"{b} megafoo")
            f = U("bar", "lin", va * vb * vb, m.dims)
    elif where == "inline":
        f, t = U(f"{a} m", "lin", va, m.dims), U(f"m/{b}" if b[0] != "-" else f"{b} m", "lin", 1 / vb if b[0] != "-" else vb, m.dims)
    else:
        n = ctx.choose("n", [2, -1])
        f = U(f"({a} m)^{n}", "lin", va**n, {"meter": n})
        t = U(f"({b} m)^{n}", "lin", vb**n, {"meter": n})
    verify(ctx, s, f, t, False, form="tol", rel="1e-12", label="decimal")


def blank(ctx):
    """A text with nothing in it is the number one."""
    s, us = system(ctx)
    text = ctx.choose("text", ["", " ", "\t", "  "])
    define(s, "one", text)
    none = U(ctx.choose("as", [text, "one"]), "lin", 1, {})
    a = ctx.real("k", nonzero=True)
    to = ctx.choose("to", ["number", "rad", "one"])
    other = {"number": lambda: num(ctx, a), "rad": lambda: us["rad"], "one": lambda: U("one", "lin", 1, {})}[to]()
    x = s.unit(none.text)
    ctx.check(x.is_dimensionless() and x == s.unit("1"), "blank", text)
    ctx.check(not x.is_convertible_to(s.unit("m")), "blank", text)
    verify(ctx, s, none, other, False, label="blank")
    verify(ctx, s, other, none, False, label="blank")
    verify(ctx, s, none.mul(us["foo"]) if none.text == "one" else us["foo"], us["foo"], False, label="blank")


SPOKEN = ["value", "to_value", "value_transformed_to_base_unit_scale", "x", "pi", "E", "I", "e", "oo", "lambda", "exp", "sqrt"]


NAMED = "named-value"


def spoken(ctx):
    """Units whose name means something to the code: the name of a unit is no
    more than a name, and a dimensionless basis unit is worth one."""
    s, us = system(ctx)
    name = ctx.choose("name", SPOKEN)
    plain = ctx.choose("dimensionless", [True, False])
    s.add_unit(basis(name, None, dimensionless=plain, plural=name + "_units"))
    x = U(name, "lin", 1, {} if plain else {name: 1})
    a = ctx.real("k", positive=True)
    c = ctx.real("c")
    one = num(ctx, a)
    define(s, "own", x.mul(us["foo"]).text)
    own = x.mul(us["foo"]).named("own")
    froms = ["x", "x^2", "m x", "x m^2", "m/x", "own", "shift", "log"] + ["log x"] * plain
    frm = ctx.choose("from", froms)
    f = {
        "x": lambda: x, "x^2": lambda: x.pow(2, "2"), "m x": lambda: us["m"].mul(x), "x m^2": lambda: x.mul(us["m"].pow(2, "2")),
        "m/x": lambda: us["m"].div(x), "own": lambda: own, "shift": lambda: x.mul(us["m"]).shift(esym(c), ctx.lit(c)),
        "log": lambda: one.mul(x).log("lg"), "log x": lambda: us["m"].log("lg"),
    }[frm]()  # fmt: skip
    inverse = bool(f.dims) and ctx.choose("inverse", [False, True])
    to = basis_expr({d: -n if inverse else n for d, n in f.dims.items()})
    to = one.mul(to) if f.kind == "lin" else to
    if plain and ctx.choose("again", [False, True]):
        to = to.mul(x)
    if frm == "log x":  # worth one, too
        f.text += " " + name
        got = Converter(s.unit(f.text), s.unit(to.text)).expression
        if name == "value" and (got.has(sympy.LambertW) or not ctx.agrees(got, f.convert(VALUE, to, inverse))[0]):
            ctx.known(NAMED, f"{f.text} -> {to.text} is {got}")
            return
    if ctx.choose("direction", ["to", "from"]) == "to":
        verify(ctx, s, f, to, inverse, label="spoken")
    else:
        verify(ctx, s, to, f, inverse, label="spoken")


def cases(tier):
    pool = ["m", "rad", "foo", "bar", "kfo"]
    wide = ["m", "s", "rad", "foo", "bar", "kfo", "kilofoos", "kilobar", "km"]
    deep = tier == "thorough"
    if deep:
        pool = wide + ["baz"]
        wide = pool
    for inverse in (False, True):
        tag = "inverse" if inverse else "direct"
        for shape in SHAPES:
            p = wide if "Y" not in shape else pool
            yield Case(
                f"exact[{shape}|{tag}]", exact(shape, p, deep, inverse), ("conversion",), decimal_module=True
            )
        yield Case(f"named[{tag}]", named(inverse), ("named",), decimal_module=True)
        yield Case(f"powers of powers[{tag}]", powers_of_powers(inverse), ("power conversion",), decimal_module=True)
        for shape in ("X^n", "X^n Y^k", "X^n/Y^k") + (("(X^n/Y^k)^j",) if deep else ()):
            yield Case(
                f"powers[{shape}|{tag}]",
                symbolic_powers(shape, ["m", "foo", "kfo"] if not deep else ["m", "rad", "foo", "bar", "kfo"], inverse),
                ("power conversion",),
                decimal_module=True,
            )
    yield Case("blank", blank, ("blank",))
    yield Case("spoken", spoken, ("spoken",))
    yield Case("decimals", decimals, ("decimal",))
