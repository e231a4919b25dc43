"""C14: the text of a parsed unit parses back to the same meaning."""
from __future__ import annotations

from symx.runner import Case
from symx.values import SymStr
from .syntax import *  # noqa: F401,F403
from . import c13
from .zoo import DIRECT, INVERSE, OTHER, zoo
from pyudunits2._grammar import normalize, parse

PROPERTY = "C14"
BOUNDS = {
    "quick": "every text form of C13 (products of 3 factors in every spelling, powers of 9 kinds of base, 13 forms of "
    "decimal literal, shifts, logarithms, brackets 3 deep; digits and identifier characters symbolic), reference dates, "
    "every binary operator inside every other to depth 3 with brackets on either side, 11 shapes of products, quotients and powers of equal operands of 10 kinds, and every text of 2 characters "
    "of the unit alphabet between two identifiers",
    "thorough": "as quick with 4 factors, depth 4 and every text of 3 characters between identifiers",
}
OUTSIDE = ["longer texts", "integers of more than 7 digits are not rendered symbolically"]
ASSUMPTIONS = []
STUBS = ["newline counting in the lexer is skipped for symbolic characters"]


# -- meaning of an expression graph, independent of its own text ---------------
def flat(node, n=1, out=None):
    """A product as its list of (atom, power), in order."""
    out = [] if out is None else out
    t = type(node).__name__
    if t == "Multiply":
        flat(node.lhs, n, out)
        flat(node.rhs, n, out)
    elif t == "Divide":
        flat(node.lhs, n, out)
        flat(node.rhs, -n, out)
    elif t == "Raise" and type(node.rhs).__name__ == "Number":
        flat(node.lhs, n * node.rhs.value, out)
    else:
        out.append((node, n))
    return out


def same_atom(ctx, a, b):
    """Do two factors mean the same?  (numbers by value, names by text)"""
    ta, tb = type(a).__name__, type(b).__name__
    if ta != tb:
        return False
    if ta == "Number":
        if type(a.value).__name__ == type(b.value).__name__ == "SymInt":
            return not ctx.branch(zi(a.value) != zi(b.value))
        return close(ctx, esym_of(a.value), esym_of(b.value))
    if ta == "Identifier":
        return same_text(ctx, a.name, b.name)
    if ta == "Unhandled":
        return same_text(ctx, a.raw_content, b.raw_content)
    if ta == "Shift":
        return same_product(ctx, a.unit, b.unit) and same_atom(ctx, a.shift_from, b.shift_from)
    if ta == "Logarithm":
        return a.function == b.function and same_product(ctx, a.term, b.term)
    return False


def esym_of(x):
    return esym(x) if hasattr(x, "e") or not hasattr(x, "_z") else powsym(x)


def close(ctx, a, b):
    if not ctx.symbolic:
        return a == b
    return ctx.agrees(a, b)[0]


def same_product(ctx, a, b):
    fa, fb = flat(a), flat(b)
    if len(fa) == len(fb) and all(
        same_int(ctx, m, n) and same_atom(ctx, x, y) for (x, m), (y, n) in zip(fa, fb)
    ):
        return True
    # the same factors in another order
    left = list(fb)
    for x, m in fa:
        for i, (y, n) in enumerate(left):
            if same_int(ctx, m, n) and same_atom(ctx, x, y):
                del left[i]
                break
        else:
            return False
    return not left


def same_int(ctx, a, b):
    if hasattr(a, "_z") or hasattr(b, "_z"):
        return not ctx.branch(zi(a) != zi(b))
    return a == b


def neg_zero(ctx, node):
    v = getattr(node, "value", None)
    parts = getattr(v, "parts", None)
    if parts and parts[0] and ctx.branch(z3.And([t == 48 for t in parts[1]])):
        return True
    if type(v).__name__ == "Decimal" and v == 0 and v.is_signed():
        return True
    return any(neg_zero(ctx, c) for c in node.children())


def round_trip(ctx, text, label, detail=""):
    node = parse(text)
    ctx.int_text = "digits"
    shown = str(node)
    ctx.reach(label)
    try:
        again = parse(shown)
    except SyntaxError as e:
        return ctx.fail(label, f"{text!r} prints as {shown!r}, which does not parse: {e}")
    ctx.check(same_product(ctx, node, again), label, f"{text!r} prints as {shown!r}, which means {again!r}"[:500])
    if neg_zero(ctx, node):
        return None  # a zero may lose its sign
    ctx.check(same_text(ctx, str(again), shown), label, f"{text!r} prints as {shown!r}, then as {str(again)!r}")
    ctx.int_text = "name"
    return shown


def judge(ctx, t, label):
    round_trip(ctx, t.text, "round trip")


def with_judge(fn):
    def run(ctx):
        c13.judge = judge
        return fn(ctx)

    return run


# -- every operator inside every other ----------------------------------------
def nested(depth, first):
    def build(ctx, f, d, tag, kinds=None):
        kinds = kinds or (["id", "mul", "div", "pow", "log", "shift"] if d else ["id", "num"])
        k = ctx.choose(tag, kinds)
        if k == "id":
            return Tx("abcdefgh"[f.n % 8], None, "id", "id") if d == 0 else ident(f)
        if k == "num":
            return integer(f)
        if k in ("mul", "div"):
            a = build(ctx, f, d - 1, tag + "l")
            b = build(ctx, f, d - 1, tag + "r", None if d < 2 else ["id", "mul", "div", "pow"])
            a = bracket(a) if a.end in ("shift",) else a
            # always bracketed on the right: the printer decides what to keep
            if b.end not in ("id",):
                b = bracket(b)
            if a.start == "pow":
                a = bracket(a)
            return Tx(a.text + (" " if k == "mul" else "/") + b.text, None, a.start, "op")
        a = build(ctx, f, d - 1, tag + "u")
        if k == "pow":
            f.n += 1
            e = ctx.choose(f"e{tag}", ["2", "-3"])
            return Tx("(" + a.text + ")^" + e, None, "(", "op")
        if k == "log":
            return Tx(f"ln(re {a.text})", None, "log", ")")
        return Tx("(" + a.text + " @ 5)", None, "(", ")")

    def run(ctx):
        f = Fresh(ctx)
        t = build(ctx, f, depth, "t", [first])
        round_trip(ctx, t.text, "nested")

    return run


def alike(shape):
    """Products, quotients and powers of operands which are equal or nearly so."""
    atoms = ["a", "2", "2.5", "(a b)", "(a/b)", "(2 a)", "(2/a)", "(a b)^2", "(a @ 5)", "ln(re a)"]

    def run(ctx):
        f = Fresh(ctx)
        x = ctx.choose("x", atoms)
        y = ctx.choose("y", ["x", "a", "2"])
        y = x if y == "x" else y
        sign = ctx.choose("sign", ["", "-"])
        power = lambda t: f"({t})^{sign}{f.digits(1)}"  # noqa: E731
        text = {
            "x.y": lambda: f"{x} {y}",
            "x.y^n": lambda: f"{x} {power(y)}",
            "x^n.y": lambda: f"{power(x)} {y}",
            "x^n.y^m": lambda: f"{power(x)}*{power(y)}",
            "x/y": lambda: f"{x}/{y}",
            "x/y^n": lambda: f"{x}/{power(y)}",
            "x^n/y": lambda: f"{power(x)}/{y}",
            "x^n^m": lambda: f"({power(x)})^{f.digits(1)}",
            "x/(y/x)": lambda: f"{x}/({y}/{x})",
            "x.(y.x)": lambda: f"{x} ({y} {x})",
            "x/(y.x^n)": lambda: f"{x}/({y} {power(x)})",
        }[shape]()
        round_trip(ctx, text, "alike")

    return run


SHAPES = ["x.y", "x.y^n", "x^n.y", "x^n.y^m", "x/y", "x/y^n", "x^n/y", "x^n^m", "x/(y/x)", "x.(y.x)", "x/(y.x^n)"]
REFS = ["2000-01-01", "ymd", "ymd hm", "ymd hms", "stamp", "int", "ymd tz", "ymd off", "num off", "-y-m"]


def dates(ref):
    return lambda ctx: _dates(ctx, ref)


def _dates(ctx, ref):
    f = Fresh(ctx)
    u = ctx.choose("unit", ["s", "2 s", "s/rad", "(s)", "h^1"])
    op = ctx.choose("op", [" since ", "@"])
    d = lambda: f.digits(1)
    text = {
        "2000-01-01": lambda: "2000-01-01",
        "ymd": lambda: f"{d()}{d()}-0{d()}-1{d()}",
        "ymd hm": lambda: f"2000-01-1{d()} 1{d()}:{d()}{d()}",
        "ymd hms": lambda: f"2000-1-1 1{d()}:0{d()}:0.{d()}",
        "stamp": lambda: f"2000010{d()}T1{d()}",
        "int": lambda: f"1{d()}",
        "ymd tz": lambda: f"2000-01-1{d()} UTC",
        "ymd off": lambda: f"2000-01-1{d()} 1{d()}:00 +{d()}",
        "num off": lambda: f"19{d()} 1{d()}",
        "-y-m": lambda: f"-{d()}-{d()}",
    }[ref]()
    try:
        parse(u + " since " + text)
        text = u + op + text
        parse(text)
    except SyntaxError:
        raise Infeasible()
    shown = round_trip(ctx, text, "dates")
    around = ctx.choose("around", ["", "()", "log", "2()"])
    if around and shown:
        text = {"()": f"({text})", "log": f"lg(re {text})", "2()": f"2 ({text})"}[around]
        round_trip(ctx, text, "dates")


def listed(ctx):
    """Directly after an identifier the (generated) lexer reads a reference as
    plain integers, and so accepts texts that are no dates."""
    text = ctx.choose("text", ["s@10-00-13", "s@2000-13-01"])
    ctx.reach("listed")
    try:
        shown = str(parse(text))
        parse(shown)
    except SyntaxError:
        ctx.known("no-date", f"{text!r} is accepted and its text is not")


UNITCHARS = [(40, 43), (45, 58), (64, 64), (94, 94), (32, 32), (65, 90), (95, 95), (97, 122), (0xB2, 0xB3), (0xB5, 0xB5), (0xB7, 0xB7), (0x2070, 0x2070), (0x2074, 0x207B)]


def between(n, frame):
    """Any short text inside a frame: where it parses, its text round-trips."""

    def run(ctx):
        x = ctx.string("x", n, UNITCHARS, minlen=n)
        text = frame.replace("{}", str(x))
        try:
            parse(text)
        except SyntaxError:
            return
        round_trip(ctx, text, "short texts")

    return run


# numbers whose value is symbolic keep it when printed and read again
def values(ctx):
    f = Fresh(ctx)
    n = ctx.choose("n", [1, 3, 7])
    sign = ctx.choose("sign", ["", "-"])
    t = integer(f, n, sign)
    where = ctx.choose("where", ["{}", "{} m", "m*{}", "m/{}", "({} m)^2", "m^2/{}/{}", "lg(re {} m)", "m @ {}"])
    if "@" in where and n > 2:
        raise Infeasible()
    round_trip(ctx, where.replace("{}", t.text), "values")


LITERALS = [
    "1e3", "1E-7", "1e-6", ".5", "5.", "007", "0.10", "1.50e10", "0e0", "0e5", "0.0", "00.5", "1e+3", "12345678901234567890",
    "1.2345678901234567890123456789012345", "1e400", "1e-400", "1e5000", "1e-5000", "100000000000000000000000e-3", ".000001", ".0000001", "-1e3", "+5", "-0", "-0.0",
]  # fmt: skip


def literals(ctx):
    """The number forms Decimal prints in its own way."""
    num_ = ctx.choose("num", LITERALS)
    frame = ctx.choose(
        "frame", ["{}", "{} m", "{}*m", "m*{}", "m {}", "m/{}", "({})^2", "{}^2", "lg(re {} m)", "m @ {}", "(m @ {}) s", "m/{}/s", "m/({} s)", "{}/m"]
    )
    text = frame.replace("{}", num_)
    try:
        node = parse(text)
    except SyntaxError:
        raise Infeasible()
    values_ = []

    def walk(n):
        if type(n).__name__ == "Number":
            values_.append(n.value)
        for c in n.children():
            walk(c)

    walk(node)
    ctx.check(any(esym(v) == esym(__import__("decimal").Decimal(num_)) for v in values_), "literals", f"{text}: {values_}")
    round_trip(ctx, text, "literals")


# through a unit system: the unit its text gives is the same unit
def zoo_units(names):
    def run(ctx):
        s, us = zoo(ctx)
        u = us[ctx.choose("u", names)]
        frame = ctx.choose("frame", ["{}", "2 ({})", "({})^2 kg", "kg/({})", "({}) @ 3"])
        if u.kind == "log" and frame != "{}":
            raise Infeasible()
        a = s.unit(frame.replace("{}", u.text))
        if isinstance(a, DateUnit):
            raise Infeasible()
        ctx.int_text = "lit"
        shown = str(a)
        ctx.int_text = "name"
        b = s.unit(shown)
        ctx.check(a == b, "units", f"{u.text} in {frame}: {shown}")
        ctx.check(dims_of(a.dimensionality()) == dims_of(b.dimensionality()), "units", shown)
        expr = Converter(a, b).expression
        ctx.same(expr, V, "units", f"{shown}: {expr}")

    return run


def cases(tier):
    t = tier == "thorough"
    for case in c13.cases(tier):
        if case.name.split("[")[0] in ("listed", "keywords", "identifiers", "identifiers2", "identifiers3", "blanks"):
            continue
        if not t and case.name.startswith(("two[", "three[")) and case.name not in ("two[id]", "two[int]", "two[(a/b)]", "two[float]", "three[id]", "three[(a b)^d]", "three[-int]"):
            continue
        yield Case("texts:" + case.name, with_judge(case.fn), ("round trip",), deadline=case.deadline)
    for op in ("mul", "div", "pow", "log", "shift"):
        yield Case(f"nested[{op}]", nested(3 if t else 2, op), ("nested",), deadline=1500)
    for shape in SHAPES:
        yield Case(f"alike[{shape}]", alike(shape), ("alike",))
    for ref in REFS:
        yield Case(f"dates[{ref}]", dates(ref), ("dates",))
    yield Case("listed", listed, ("listed",))
    yield Case("values", values, ("values",))
    yield Case("literals", literals, ("literals",))
    for frame in ("m{}s", "2{}m", "m^2{}m", "(m){}2"):
        yield Case(f"between[{frame}]", between(3 if t else 2, frame), ("short texts",), deadline=1500)
    names = DIRECT + INVERSE + OTHER
    for i in range(0, len(names), 6):
        yield Case(f"zoo{i}", zoo_units(names[i : i + 6]), ("units",))
