"""C22: the symbolic-algebra form of an expression means what the expression means."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from pyudunits2._expr.graph import Identifier
from pyudunits2._expr.substitute import Substitute
from pyudunits2._expr.sympy import ToSympy
from pyudunits2._grammar import parse
from pyudunits2._unit import Expression

PROPERTY = "C22"
BOUNDS = {
    "quick": "every expression of depth 2 over products, quotients, powers -2..3, shifts and the 4 logarithms, its leaves "
    "identifiers, symbolic decimals and symbolic integers; products of powers with any integer exponents; 20 number "
    "literals; every simultaneous substitution of 2 identifiers by 7 expressions in 25 expressions; 34 pairs of expressions "
    "compared, with coefficients that may or may not agree, and 17 numbers from 1e-300 to 1e200",
    "thorough": "depth 3 (two operators below the root on one side), every substitution into expressions of depth 2",
}
OUTSIDE = [
    "comparing expressions that only agree through identities of logarithms of products",
    "coefficients that only agree up to floating-point rounding",
]
ASSUMPTIONS = ["numbers are exact reals; exponential and logarithm are axiomatised by their inverse laws"]
STUBS = []

X, Y = sympy.Symbol("x"), sympy.Symbol("y")
BASE = {"lg": 10, "lb": 2, "ln": sympy.E, "log": 10}


class E:
    """Expression text and its value (a sympy expression, built independently)."""

    def __init__(self, text, value, prec=3):
        self.text, self.value, self.prec = text, sympy.sympify(value), prec

    def at(self, prec):
        return self.text if self.prec >= prec else f"({self.text})"


def mul(a, b, op="*"):
    return E(a.at(1) + op + b.at(2), a.value * b.value, 1)


def div(a, b):
    return E(a.at(1) + "/" + b.at(2), a.value / b.value, 1)


def pow_(a, n):
    return E(f"{a.at(3)}^{n}", a.value**n, 2)


def shift(a, c):
    return E(f"{a.at(1)} @ {c.text}", a.value - c.value, 0)


def log(fn, a):
    v = sympy.log(a.value)
    return E(f"{fn}(re {a.text})", v if fn == "ln" else v / sympy.log(BASE[fn]), 3)


def leaf(ctx, tag, kinds="xyan"):
    k = ctx.choose(tag, list(kinds))
    return atom(ctx, k)


def atom(ctx, k):
    if k == "x":
        return E("x", X)
    if k == "y":
        return E("y", Y)
    if k in "abcd":
        v = ctx.real(k, nonzero=True)
        return E(ctx.lit(v), esym(v))
    if k in "nm":
        v = ctx.int(k)
        ctx.assume(zi(v) != 0)
        return E(ctx.lit(v), powsym(v))
    return E(k, esym(k))


OPS = ["*", "/", "^", "@", "lg", "lb", "ln", "log"]


def grow(ctx, op, tag, depth, right=True):
    """An expression whose root is op."""
    if depth == 1:
        sub = lambda side: leaf(ctx, tag + side, "xa" if tag else "xyan")
    else:
        sub = lambda side: grow_any(ctx, tag + side, depth - 1)
    if op == "*":
        return mul(sub("l"), sub("r") if right else leaf(ctx, tag + "r", "yn"), ctx.choose(tag + "op", ["*", " "]) if not tag else "*")
    if op == "/":
        return div(sub("l"), sub("r") if right else leaf(ctx, tag + "r", "yn"))
    if op == "^":
        return pow_(sub("l"), ctx.choose(tag + "n", [-2, -1, 0, 1, 2, 3] if not tag else [-1, 2]))
    if op == "@":
        return shift(sub("l"), leaf(ctx, tag + "by", "cm" if not tag else "c"))
    return log(op, sub("l"))


def grow_any(ctx, tag, depth):
    op = ctx.choose(tag, ["leaf"] + OPS)
    if op == "leaf":
        return leaf(ctx, tag + "k", "xya")
    return grow(ctx, op, tag, depth)


def judge(ctx, e, label, **how):
    node = parse(e.text)
    got = ToSympy().visit(node)
    if bad(e.value):
        raise Infeasible()  # divides by zero or takes the logarithm of zero
    ctx.same(got, e.value, label, f"{e.text} becomes {got}, want {e.value}", **how)
    names = {s.name for s in got.free_symbols}
    ctx.check(
        all(n in e.text for n in names if ctx.symbolic is False or ctx.term_of_name(n) is None),
        label,
        f"{e.text} becomes {got} with other symbols",
    )
    return node, got


def bad(v):
    return v.has(sympy.zoo, sympy.nan, sympy.oo, sympy.S.NegativeInfinity, sympy.I)


def trees(op, depth, right=True):
    def run(ctx):
        e = grow(ctx, op, "", depth, right)
        judge(ctx, e, "translation")

    return run


def exponents(ctx):
    """Products of powers, any integer exponents."""
    n, k = ctx.int("n"), ctx.int("k")
    shape = ctx.choose("shape", range(5))
    ln, lk = ctx.lit(n), ctx.lit(k)
    n, k = powsym(n), powsym(k)
    text, want = [
        (f"x^{ln}*y^{lk}", X**n * Y**k),
        (f"x^{ln}/y^{lk}", X**n / Y**k),
        (f"x^{ln}*x^{lk}", X ** (n + k)),
        (f"(x^{ln})^{lk}", X ** (n * k)),
        (f"(x^{ln}/y)^{lk}", X ** (n * k) / Y**k),
    ][shape]
    got = ToSympy().visit(parse(text))
    ctx.same(got, want, "exponents", f"{text} becomes {got}, want {want}", form="log")


NUMBERS = [
    "0", "1", "-1", "7", "+5", "0012", "123456789012345678901234567890", "0.1", ".5", "1.", "1.50", "-2.5", "1e3", "1E-3",
    "6.02214076e23", "1.602e-19", "0.30000000000000000004", "1e-300", "299792458.0", "9007199254740993",
]


def numbers(ctx):
    t = ctx.choose("number", NUMBERS)
    e = E(t, esym(t.lstrip("+")))
    judge(ctx, e, "numbers")
    where = ctx.choose("where", ["{} x", "x/{}", "x @ {}", "({})^2 x"])
    v = e.value
    if where == "x/{}" and v == 0:
        raise Infeasible()
    want = {"{} x": v * X, "x/{}": X / v if v else 0, "x @ {}": X - v, "({})^2 x": v**2 * X}[where]
    how = {"form": "tol", "rel": "1e-12"} if where in ("x/{}", "({})^2 x") and "." in t else {}
    judge(ctx, E(where.format(t), want), "numbers", **how)


NAMES = ["pi", "E", "I", "S", "N", "O", "Q", "oo", "nan", "zoo", "lambda", "value", "exp", "beta", "gamma", "Symbol", "x", "X", "π", "µm", "_", "None", "True", "e"]


def names(ctx):
    """An identifier is a variable of that very name, whatever sympy calls it."""
    n = ctx.choose("name", NAMES)
    got = ToSympy().visit(parse(n))
    ctx.reach("names")
    ctx.check(got.is_Symbol and got.name == n, "names", f"{n} becomes {got!r}")
    other = sympy.Symbol("qq")
    e = ToSympy().visit(parse(f"2 {n}/qq"))
    want = 2 * sympy.Symbol(n) / other
    ctx.check(e.free_symbols == {sympy.Symbol(n), other}, "names", f"2 {n}/qq becomes {e!r}")
    ctx.same(e.subs(sympy.Symbol(n), X), want.subs(sympy.Symbol(n), X), "names", f"2 {n}/qq becomes {e}")


# -- substitution ----------------------------------------------------------------
def inputs(ctx):
    x, y = atom(ctx, "x"), atom(ctx, "y")
    a, c = atom(ctx, "a"), atom(ctx, "c")
    return {
        "x": x,
        "ax": mul(a, x, " "),
        "x/y": div(x, y),
        "y/x^2": div(y, pow_(x, 2)),
        "(x y)^-1": pow_(mul(x, y), -1),
        "x^3": pow_(x, 3),
        "x@c": shift(x, c),
        "(x@c)^2": pow_(shift(x, c), 2),
        "y(x@c)": mul(y, shift(x, c)),
        "(x@c)/y": div(shift(x, c), y),
        "ax@c": shift(mul(a, x), c),
        "(x@c)@a": shift(shift(x, c), a),
        "lg x": log("lg", x),
        "ln x/y": log("ln", div(x, y)),
        "lb ax": log("lb", mul(a, x)),
        "log x": log("log", x),
        "y lg x": mul(y, log("lg", x)),
        "lg x/ln y": div(log("lg", x), log("ln", y)),
        "lg lg x": log("lg", log("lg", x)),
        "lg x@c": shift(log("lg", x), c),
        "lg(x@c)": log("lg", shift(x, c)),
        "lgx^2": pow_(log("lg", x), 2),
        "a": a,
        "z": E("z", sympy.Symbol("z")),
        "xx": mul(x, mul(x, y)),
    }


def replacements(ctx):
    x, y = atom(ctx, "x"), atom(ctx, "y")
    b, d = atom(ctx, "b"), atom(ctx, "d")
    return {
        "none": None,
        "y": y,
        "x": x,
        "b": b,
        "b y": mul(b, y, " "),
        "x y": mul(x, y),
        "w@d": shift(E("w", sympy.Symbol("w")), d),
        "lg y": log("lg", y),
    }


def substitution(key):
    def run(ctx):
        e = inputs(ctx)[key]
        substituted(ctx, e)

    return run


def substituted(ctx, e):
    r = replacements(ctx)
    rx, ry = r[ctx.choose("x to", list(r))], r[ctx.choose("y to", list(r))]
    node = parse(e.text)
    before = repr(node)
    table, values = {}, {}
    for name, sym, to in (("x", X, rx), ("y", Y, ry)):
        if to is not None:
            table[Identifier(name)] = parse(to.text)
            values[sym] = to.value
    given = dict(table)
    table[Identifier("unused")] = parse("x y")
    got = ToSympy().visit(Substitute(table).visit(node))
    want = e.value.xreplace(values)
    if bad(want):
        raise Infeasible()
    detail = f"{e.text} with x -> {rx and rx.text}, y -> {ry and ry.text}: {got}, want {want}"
    ctx.same(got, want, "substitution", detail)
    ctx.check(repr(node) == before and node == parse(e.text), "substitution changes its input", detail)
    ctx.check(all(table[k] is v for k, v in given.items()) and len(table) == len(given) + 1, "substitution changes its input", detail)


def deep_substitution(op):
    def run(ctx):
        substituted(ctx, grow(ctx, op, "", 2, right=False))

    return run


# -- comparing expressions ---------------------------------------------------------
# (text, text, when their values agree)
PAIRS = [
    ("x", "x", True),
    ("x", "y", False),
    ("x", "X", False),
    ("x y", "y*x", True),
    ("x/y", "x y^-1", True),
    ("x/y", "y/x", False),
    ("x^2", "x*x", True),
    ("x^2", "x^-2", False),
    ("(x y)^2", "y^2 x^2", True),
    ("x x/x", "x", True),
    ("x^0", "1", True),
    ("x/x", "y/y", True),
    ("{a} x", "{b} x", "a=b"),
    ("{a} x", "x {a}", True),
    ("{a} x/y", "{b} x y^-1", "a=b"),
    ("x/{a}", "x/{b}", "a=b"),
    ("{a} {b} x", "{b} x {a}", True),
    ("({a} x)^2", "({b} x)^2", "a=b"),
    ("x @ {c}", "x @ {d}", "c=d"),
    ("x @ {c}", "x", "c=0"),
    ("(x @ {c}) y", "y (x @ {d})", "c=d"),
    ("(x @ {c})^2", "(x @ {d}) (x @ {c})", "c=d"),
    ("(x @ {c}) @ {d}", "(x @ {d}) @ {c}", True),
    ("{a} x @ {c}", "{b} x @ {c}", "a=b"),
    ("{a} x", "{a} y", False),
    ("{a} x", "{a} x^2", False),
    ("{a}", "{b}", "a=b"),
    ("lg(re x)", "log(re x)", True),
    ("lg(re x)", "ln(re x)", False),
    ("lg(re x)", "lb(re x)", False),
    ("lg(re x)", "lg(re y)", False),
    ("lg(re x y)", "lg(re y x)", True),
    ("ln(re x)/ln(re y)", "lg(re x)/lg(re y)", True),
    ("ln(re x) @ {c}", "ln(re x) @ {d}", "c=d"),
    ("lg(re x)", "x", False),
    ("{a} lg(re x)", "{b} lg(re x)", "a=b"),
]


def comparing(i):
    def run(ctx):
        s, t, when = PAIRS[i]
        vals = {k: ctx.real(k, positive=k in "ab") for k in "abcd"}
        lits = {k: ctx.lit(v) for k, v in vals.items()}
        s, t = s.format(**lits), t.format(**lits)
        if when == "a=b":
            when = bool(vals["a"] == vals["b"])
        elif when == "c=d":
            when = bool(vals["c"] == vals["d"])
        elif when == "c=0":
            when = bool(vals["c"] == 0)
        p, q = Expression.from_raw(s), Expression.from_raw(t)
        order = ctx.choose("before", ["fresh", "used"])
        if order == "used":
            repr(p), repr(q), (p == p), (q == p)
        for u, v, w in ((p, q, when), (q, p, when), (p, p, True), (p, Expression.from_raw(s), True)):
            ctx.check((u == v) is w, "comparison", f"Expression({s}) and Expression({t}): want {when}")
        ctx.check((p != q) is (not when), "comparison", f"{s} != {t}: want {not when}")
        ctx.check((p == s) is False and (p == 1) is False and (p == p.expression) is False, "comparison", f"{s} equals something else")
        ctx.check(p.expression == parse(s), "comparison", f"{s}: another expression")

    return run


SIZES = ["1e-300", "2e-300", "1e-15", "2e-15", "1e-10", "0.999999999", "1", "1.000000001", "1e9", "1000000001", "1e15", "1.00000001e15", "1e200", "3e200", "-1", "-1e-15", "0"]
FORMS = ["{}", "{} x", "x @ {}", "x/{}", "({} x)^2 y", "lg(re x @ {})", "{} ln(re x)"]


def sizes(i):
    """Numbers of any size: expressions that differ in one differ."""

    def run(ctx):
        a, b = SIZES[i], ctx.choose("b", SIZES)
        f = ctx.choose("form", FORMS)
        if f in ("x/{}",) and "0" in (a, b) or f.endswith(")^2 y") and ("-1" in a + b and esym(a) == -esym(b)):
            raise Infeasible()
        p, q = Expression.from_raw(f.format(a)), Expression.from_raw(f.format(b))
        want = a == b
        ctx.check((p == q) is want and (q == p) is want and (p != q) is (not want), "sizes", f"{f}: {a} and {b}, want {want}")

    return run


def cases(tier):
    for op in OPS:
        yield Case(f"trees[{op}]", trees(op, 2, op not in "*/"), ("translation",))
        if tier == "thorough":
            yield Case(f"wide[{op}]", trees(op, 2), ("translation",))
            yield Case(f"deep[{op}]", trees(op, 3, right=False), ("translation",))
            yield Case(f"deepsub[{op}]", deep_substitution(op), ("substitution",))
    yield Case("exponents", exponents, ("exponents",))
    yield Case("numbers", numbers, ("numbers",))
    for i, a in enumerate(SIZES):
        yield Case(f"sizes[{a}]", sizes(i), ("sizes",))
    yield Case("names", names, ("names",))
    for k in [
        "x", "ax", "x/y", "y/x^2", "(x y)^-1", "x^3", "x@c", "(x@c)^2", "y(x@c)", "(x@c)/y", "ax@c", "(x@c)@a", "lg x",
        "ln x/y", "lb ax", "log x", "y lg x", "lg x/ln y", "lg lg x", "lg x@c", "lg(x@c)", "lgx^2", "a", "z", "xx",
    ]:
        yield Case(f"substitution[{k}]", substitution(k), ("substitution",))
    for i, (s, t, _) in enumerate(PAIRS):
        yield Case(f"compare[{s}|{t}]", comparing(i), ("comparison",))
