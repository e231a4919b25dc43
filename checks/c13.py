"""C13: parsing gives the structure the grammar prescribes."""
from __future__ import annotations

from symx.runner import Case
from .syntax import *  # noqa: F401,F403
from pyudunits2._grammar import parse

PROPERTY = "C13"
BOUNDS = {
    "quick": "products of 3 factors in every spelling of every operator; powers of 9 kinds of base in every spelling, "
    "signs, 1-2 digits; 13 forms of decimal literal; shifts and logarithms in every spelling; brackets 3 deep. Every "
    "digit is symbolic, every identifier 1-3 symbolic characters over the whole identifier alphabet; 23 numbers and 6 exponents beyond machine types",
    "thorough": "as quick with 4 factors and every factor kind in every position",
}
OUTSIDE = [
    "texts longer than the forms listed; what follows a shift inside brackets beyond one more factor (the lexer stays in "
    "its date mode there)",
]
ASSUMPTIONS = []
STUBS = ["newline counting in the lexer is skipped for symbolic characters"]


def judge(ctx, t, label):
    lead, trail = "", ""
    match(ctx, parse(lead + t.text + trail), t.tree, label, repr(t.text))


BASES = {
    "id": lambda f: ident(f),
    "id2": lambda f: ident(f, 2),
    "int": lambda f: integer(f, 2),
    "float": lambda f: floating(f, "d.d"),
    "(id)": lambda f: bracket(ident(f)),
    "(a/b)": lambda f: bracket(product(ident(f), "/", ident(f))),
    "(a b)": lambda f: bracket(product(ident(f), " ", ident(f))),
    "(a^n)": lambda f: bracket(power(f, ident(f), "^")),
    "log": lambda f: logarithm(ident(f), "lg(re "),
}


def powers(base):
    def run(ctx):
        f = Fresh(ctx)
        b = BASES[base](f)
        how = ctx.choose("how", ["^", "**", "", "super"])
        sign = ctx.choose("sign", ["", "+", "-"])
        if how == "" and base in ("int", "float"):
            raise Infeasible()
        n = ctx.choose("digits", [1, 2] if base in ("id", "(a/b)") else [1])
        if how == "super" and n == 1 and not sign and base == "id":
            supers = "0123456789"
        else:
            supers = "27"
        more = ctx.choose("more", ["", " x", "*x", "/x", "x"])
        t = power(f, b, how, sign, n, supers)
        if more:
            op = more[:-1]
            x = ident(f)
            if not allowed(t, op, x):
                raise Infeasible()
            t = product(t, op, x)
        judge(ctx, t, "power")

    return run


FACTORS = {
    "id": lambda f: ident(f),
    "ids": lambda f: ident(f, 2),
    "id^d": lambda f: power(f, ident(f), "^"),
    "idd": lambda f: power(f, ident(f), ""),
    "id-d": lambda f: power(f, ident(f), "", "-"),
    "super": lambda f: Tx("m⁻²", ("pow", ("id", "m"), -2), "id", "super"),
    "int": lambda f: integer(f),
    "+int": lambda f: integer(f, 1, "+"),
    "-int": lambda f: integer(f, 1, "-"),
    "float": lambda f: floating(f, "d.d"),
    "(a/b)": lambda f: bracket(product(ident(f), "/", ident(f))),
    "(a b)^d": lambda f: power(f, bracket(product(ident(f), " ", ident(f))), "^"),
    "log": lambda f: logarithm(ident(f), "ln(re "),
}


def chain(first, ops, kinds, n):
    def run(ctx):
        f = Fresh(ctx)
        t = FACTORS[first](f)
        for i in range(1, n):
            op = ctx.choose(f"op{i}", ops)
            b = FACTORS[ctx.choose(f"f{i}", kinds if i == 1 else ["id", "int", "(a/b)"])](f)
            if not allowed(t, op, b):
                raise Infeasible()
            t = product(t, op, b)
        judge(ctx, t, "product")

    return run


def numbers(form):
    def run(ctx):
        f = Fresh(ctx)
        sign = ctx.choose("sign", ["", "+", "-"])
        if form == ".d" or form.startswith("."):
            if sign:
                raise Infeasible()  # listed
        if form.isdigit():
            t = integer(f, int(form), sign)
        else:
            t = floating(f, form, sign)
        after = ctx.choose("after", ["", " x", "*x", "/x", "x", "(x)"] if "e" not in form.lower() else ["", "/x", "x"])
        if after:
            x = ident(f)
            if after == "(x)":
                t = product(t, "", bracket(x))
            else:
                t = product(t, after[:-1], x)
        judge(ctx, t, "number")

    return run


LONG = [
    "123456789012345678901234567890123456789012345678901234567890", "0.1234567890123456789012345678901234567890",
    "3.14159265358979323846264338327950288419716939937510", "12345678901234567890.12345678901234567890e-20",
    "0.00000000000000000000000000000000000000016", ".000000000000000000000000000000123", "1.00000000000000000000000000000000001",
    "100000000000000000000000000000.", "6.62607015e-34", "1e-300", "1.7976931348623157e308", "1e400", "4.9e-324", "1e-400",
    "9007199254740993", "9007199254740993.0", "18446744073709551617", "0.1e-1", "1E+0005", "00012", "000.50", "0e0", "10e10",
]  # fmt: skip


def long_numbers(ctx):
    """Numbers longer than any machine type holds are read digit by digit."""
    text = ctx.choose("number", LONG)
    sign = ctx.choose("sign", ["", "-", "+"])
    if sign and text[0] == ".":
        raise Infeasible()  # listed
    where = ctx.choose("where", ["{}", "{} x", "x*{}", "x/{}", "x @ {}", "lg(re {} x)", "({})^2", "x ({} y)"])
    whole = text.isdigit()
    value = esym(text)
    v = -value if sign == "-" else value
    x = ("id", "x")
    num_ = ("exact", v, whole)
    tree = {
        "{}": num_, "{} x": ("mul", num_, x), "x*{}": ("mul", x, num_), "x/{}": ("div", x, num_), "x @ {}": ("shift", x, num_),
        "lg(re {} x)": ("log", "lg", ("mul", num_, x)), "({})^2": ("pow", num_, 2), "x ({} y)": ("mul", x, ("mul", num_, ("id", "y"))),
    }[where]
    full = where.format(sign + text)
    judge(ctx, Tx(full, tree, "", ""), "long number")


def long_exponents(ctx):
    n = ctx.choose("n", ["10", "-127", "1000", "12345678901234567890", "-98765432109876543210", "+0007"])
    how = ctx.choose("how", ["x^{}", "x**{}", "x{}", "(x y)^{} z"])
    xy = ("mul", ("id", "x"), ("id", "y"))
    tree = ("mul", ("pow", xy, int(n)), ("id", "z")) if "y" in how else ("pow", ("id", "x"), int(n))
    judge(ctx, Tx(how.format(n), tree, "", ""), "long exponent")


def shifts(i, full):
    def run(ctx):
        f = Fresh(ctx)
        op = SHIFTS[i]
        kind = ctx.choose("unit", ["id", "a b", "a/b2", "2", "(a @ n)", "log", "a2"] if i == 0 or full else ["id", "a b"])
        u = {
            "id": lambda: ident(f, 2),
            "a b": lambda: product(ident(f), " ", ident(f)),
            "a/b2": lambda: product(ident(f), "/", power(f, ident(f), "^")),
            "2": lambda: integer(f),
            "(a @ n)": lambda: bracket(shift(ident(f), " @ ", integer(f))),
            "log": lambda: logarithm(ident(f), "lg(re "),
            "a2": lambda: power(f, ident(f), ""),
        }[kind]()
        n = ctx.choose("by", ["d", "-d", "+d", "dd", "d.d", "-d.d", "ded"] if full or kind == "id" and i in (0, 2) else ["d", "-d"] if kind == "id" else ["d"])
        sign = n[0] if n[0] in "+-" else ""
        body = n.lstrip("+-")
        c = integer(f, len(body), sign) if set(body) == {"d"} else floating(f, body, sign)
        t = shift(u, op, c)
        around = ctx.choose("around", ["", "()", "log", "() x", "x/()", "(())^2"] if full or n == "d" else [""])
        if around == "()":
            t = bracket(t)
        elif around == "log":
            t = logarithm(t, "lg(re ")
        elif around == "() x":
            t = product(bracket(t), " ", Tx("x", ("id", "x"), "id", "id"))
        elif around == "x/()":
            t = product(ident(f), "/", bracket(t))
        elif around:
            t = Tx("((" + t.text + "))^2", ("pow", t.tree, 2), "(", "digit")
        judge(ctx, t, "shift")

    return run


def logs(how):
    def run(ctx):
        f = Fresh(ctx)
        kind = ctx.choose("of", ["id", "ids", "d id", "a/b", "log", "(a)", "a @ d", "id^d"])
        x = {
            "id": lambda: ident(f),
            "ids": lambda: ident(f, 2),
            "d id": lambda: product(integer(f), " ", ident(f)),
            "a/b": lambda: product(ident(f), "/", ident(f)),
            "log": lambda: logarithm(ident(f), "lb(re "),
            "(a)": lambda: bracket(ident(f)),
            "a @ d": lambda: shift(ident(f), " @ ", integer(f)),
            "id^d": lambda: power(f, ident(f), ""),
        }[kind]()
        t = logarithm(x, how)
        around = ctx.choose("around", ["", "d ", "/x", "^d", "()", "x "])
        if around == "d ":
            t = product(integer(f), " ", t)
        elif around == "/x":
            t = product(t, "/", Tx("x", ("id", "x"), "id", "id"))
        elif around == "^d" and kind != "a @ d":
            t = power(f, t, "^")
        elif around == "()":
            t = bracket(t)
        elif around == "x ":
            t = product(ident(f), " ", t)
        judge(ctx, t, "logarithm")

    return run


def brackets(depth):
    return lambda ctx: _brackets(ctx, depth)


def _brackets(ctx, depth):
    """What brackets group stays together, at every depth."""
    f = Fresh(ctx)
    t = product(ident(f), ctx.choose("o0", [" ", "/", "*"]), ident(f))
    for i in range(3):
        t = bracket(t)
        if i >= depth:
            continue
        side = ctx.choose(f"side{i}", ["left", "right", "pow", "none"])
        op = ctx.choose(f"op{i}", ["/", "·"]) if side != "none" else ""
        if side == "left":
            t = product(t, op, ident(f))
        elif side == "right":
            t = product(ident(f), op, t)
        elif side == "pow":
            t = power(f, t, "^", "-" if op == "/" else "")
    judge(ctx, t, "brackets")


def identifiers(n, ranges):
    def run(ctx):
        f = Fresh(ctx)
        x = ident(f, n, ranges)
        judge(ctx, x, "identifier")
        y = ctx.choose("in", ["{}*x", "2 {}", "({})", "{}^2", "x/{}"])
        if y != "{}*x":
            return
        judge(ctx, product(x, "*", Tx("x", ("id", "x"), "id", "id")), "identifier")

    return run


def keywords(ctx):
    """Words of the grammar inside longer identifiers stay identifiers."""
    word = ctx.choose("word", ["per", "log", "lg", "ln", "lb", "re", "since", "from", "after", "ref", "PER", "RE", "e", "E", "T", "Z", "UTC", "TZ", "GMT", "pi"])
    c = ctx.string("c", 1, [(97, 100), (95, 95)], minlen=1)
    where = ctx.choose("where", ["prefix", "suffix"])
    text = str(c) + word if where == "prefix" else word + str(c)
    match(ctx, parse(text), ("id", text), "keyword", text)
    match(ctx, parse("2 " + text + "^2"), ("mul", ("num", 2), ("pow", ("id", text), 2)), "keyword", text)
    match(ctx, parse(text + "(x)"), ("mul", ("id", text), ("id", "x")), "keyword", text)


def blanks(ctx):
    f = Fresh(ctx)
    x, y = ident(f), ident(f)
    lead, trail = ctx.choose(
        "around", [("", ""), (" ", ""), ("  ", " "), ("\t", "\n"), ("\n", "\t "), ("\r\n ", "\r"), ("\x0b", " \f"), ("\f", "")]
    )
    t = product(x, ctx.choose("op", [" ", "   "] + DIVS + ["*"]), y)
    match(ctx, parse(lead + t.text + trail), t.tree, "blanks", repr(lead + t.text + trail))
    node = parse(lead + trail)
    ctx.check(type(node) is graph.Unhandled and node.raw_content == "", "blanks", repr(lead + trail))


# texts UDUNITS-2 accepts and the (generated) lexer does not read that way
LISTED = [
    ("digit-point", ["m2.s", "m^2.s", "kg.m2.s-1", "m².s", "(m^2).s", "(m).s"]),
    ("minus-point", ["-.5 m", "-.5"]),
    ("shift-blank", ["s@2000-01-01 12:00", "s@20000101T12"]),
    ("characters", ["%", "'", '"', "H2O", "°F/Ω", "Å"]),
]
WANT = {
    "m2.s": "m^2·s", "m^2.s": "m^2·s", "kg.m2.s-1": "kg·m^2·s^-1", "m².s": "m^2·s", "(m^2).s": "m^2·s", "(m).s": "m·s",
    "-.5 m": "-0.5·m", "-.5": "-0.5", "s@2000-01-01 12:00": "s @ 2000-01-01 12:00", "s@20000101T12": "s @ 20000101T12", "%": "%", "'": "'", '"': '"', "H2O": "H2O", "°F/Ω": "°F/Ω", "Å": "Å",
}


def listed(ctx):
    key, texts = ctx.choose("finding", LISTED)
    text = ctx.choose("text", texts)
    ctx.reach("listed")
    try:
        got = str(parse(text))
    except SyntaxError:
        got = "SyntaxError"
    if got in (WANT[text], f"({WANT[text]})"):
        return
    ok = got == "SyntaxError" or (text == "H2O" and got == "H^2·O")
    ctx.check(ok, "listed", f"{text!r} parses to {got}")
    ctx.known(key, f"{text!r}: {got}")


def cases(tier):
    t = tier == "thorough"
    for b in BASES:
        yield Case(f"powers[{b}]", powers(b), ("power",))
    kinds = list(FACTORS)
    for k in kinds:
        yield Case(f"two[{k}]", chain(k, MULS + DIVS if t or k in ("id", "int", "(a/b)") else MULS + DIVS[:1] + DIVS[4:5], kinds, 2), ("product",))
        yield Case(f"three[{k}]", chain(k, [" ", "*", "/", " per ", "", "-", "."] if t else [" ", "*", "/"], kinds if t else kinds[:2] + ["idd", "int", "(a/b)"], 3), ("product",))
        if t:
            yield Case(f"four[{k}]", chain(k, [" ", "/"], kinds, 4), ("product",))
    for form in ["1", "2", "5"] + FLOATS:
        yield Case(f"number[{form}]", numbers(form), ("number",))
    for i, op in enumerate(SHIFTS):
        yield Case(f"shift[{op}]", shifts(i, t), ("shift",))
    for how in LOGS:
        yield Case(f"log[{how}]", logs(how), ("logarithm",))
    yield Case("brackets", brackets(3 if t else 2), ("brackets",))
    yield Case("identifiers", identifiers(1, IDCHARS), ("identifier",))
    yield Case("identifiers2", identifiers(2, IDCHARS), ("identifier",))
    if t:
        yield Case("identifiers3", identifiers(3, IDCHARS), ("identifier",))
    yield Case("keywords", keywords, ("keyword",))
    yield Case("long numbers", long_numbers, ("long number",))
    yield Case("long exponents", long_exponents, ("long exponent",))
    yield Case("blanks", blanks, ("blanks",))
    yield Case("listed", listed, ("listed",))
