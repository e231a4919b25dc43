"""C20: unit operations have no side effects, and systems are independent."""
from __future__ import annotations

import decimal
import os

import numpy as np

from symx.arrays import Elt
from symx.runner import Case
from .zoo import *  # noqa: F401,F403
from .syntax import Fresh, Tx, bracket, ident, integer, logarithm, match, product, shift
from pyudunits2._exceptions import IncompatibleUnitsError, UnresolvableUnitException
from pyudunits2._grammar import parse

PROPERTY = "C20"
BOUNDS = {
    "quick": "after every history of 2 of 22 operations on two units, 8 observations of each give what they give on a fresh "
    "system (4 units with symbolic coefficients); two systems with the same names and any different coefficients, kinds, "
    "prefix values and basis, used in 6 interleavings, units of the first kept meanwhile; the expression trees of 12 texts after every library pass over them; "
    "reading 18 groups of similar texts in every sequence of 3, and sequences of 3 of 23 texts over shared symbolic characters",
    "thorough": "19 units",
}
OUTSIDE = ["longer histories", "what a caller does to the private attributes of an object", "threads"]
ASSUMPTIONS = ["coefficients are exact reals"]
STUBS = []

OTHER_TEXT = "kg bar/kg"


def observe(s, u, v):
    """What there is to see of a unit, each on its own."""
    yield "text", lambda: str(u)
    yield "expanded", lambda: u.expanded()
    yield "dimensionality", lambda: dict(dims_of(u.dimensionality()))
    yield "flags", lambda: (u.is_dimensionless(), u.is_time_unit(), u.is_convertible_to(v), v.is_convertible_to(u))
    yield "forward", lambda: attempt(lambda: Converter(u, v).expression)
    yield "back", lambda: attempt(lambda: Converter(v, u).expression)
    yield "equal", lambda: (u == v, u == u, v == v)
    yield "repr", lambda: repr(u)


def attempt(fn):
    try:
        return fn()
    except (IncompatibleUnitsError, UnresolvableUnitException, ValueError) as e:
        return type(e).__name__


OPS = {
    "str": lambda s, u, v, x: str(u),
    "repr": lambda s, u, v, x: repr(u),
    "expanded": lambda s, u, v, x: u.expanded(),
    "dims": lambda s, u, v, x: u.dimensionality(),
    "inverted": lambda s, u, v, x: u.dimensionality().inverted(),
    "dims text": lambda s, u, v, x: (str(u.dimensionality()), u.dimensionality() == v.dimensionality(), len(u.dimensionality())),
    "flags": lambda s, u, v, x: (u.is_dimensionless(), u.is_time_unit()),
    "convertible": lambda s, u, v, x: (u.is_convertible_to(v), v.is_convertible_to(u)),
    "forward": lambda s, u, v, x: attempt(lambda: Converter(u, v)),
    "back": lambda s, u, v, x: attempt(lambda: Converter(v, u)),
    "identity": lambda s, u, v, x: attempt(lambda: Converter(u, u)),
    "reciprocal": lambda s, u, v, x: attempt(lambda: Converter(u, s.unit("1/m"))),
    "values": lambda s, u, v, x: attempt(lambda: Converter(u, v).convert(x)),
    "array": lambda s, u, v, x: attempt(lambda: Converter(u, v).convert(np.array([x, x], dtype=object if isinstance(x, Elt) else float))),
    "refused": lambda s, u, v, x: attempt(lambda: Converter(u, s.unit("kg s"))),
    "equal": lambda s, u, v, x: (u == v, v == u),
    "unequal": lambda s, u, v, x: (u == s.unit("s"), u == 1, u != v),
    "in product": lambda s, u, v, x: s.unit(f"({u})^2 foo").dimensionality(),
    "again": lambda s, u, v, x: s.unit(str(u)),
    "unknown": lambda s, u, v, x: attempt(lambda: s.unit("nothing foo")),
    "prefixed": lambda s, u, v, x: Converter(s.unit("kilobar"), s.unit("foo")),
    "date": lambda s, u, v, x: (str(s.unit("s since 2001-02-03")), s.unit("s since 2001-02-03").expanded()),
}


def alike(ctx, got, want, label, detail):
    if isinstance(want, sympy.Basic) and isinstance(got, sympy.Basic):
        if got != want:
            ctx.same(got, want, label, f"{detail}: {got} instead of {want}")
        return
    if isinstance(want, dict):
        check_dims(ctx, got, want, label, detail)
        return
    if isinstance(want, str) and isinstance(got, str):
        ctx.check(same_text(ctx, got, want), label, f"{detail}: {got} instead of {want}")
        return
    ctx.check(got == want, label, f"{detail}: {got} instead of {want}")


def world(ctx, text):
    s, us = zoo(ctx)
    return s, s.unit(text), s.unit(OTHER_TEXT)


def histories(text, first, k):
    def run(ctx):
        x = ctx.real("x", positive=True)
        x = Elt(x.e) if ctx.symbolic else float(x)
        ops = [first] + [ctx.choose(f"op{i}", list(OPS)) for i in range(1, k)]
        s, u, v = world(ctx, text)
        before = (repr(decimal.getcontext()), repr(np.geterr()))
        for op in ops:
            OPS[op](s, u, v, x)
        ctx.check(before == (repr(decimal.getcontext()), repr(np.geterr())), "settings", str(ops))
        seen = [(n, attempt(f)) for n, f in observe(s, u, v)]
        ref = fresh_answers(ctx, text)
        for n, got in seen:
            alike(ctx, got, ref[n], "history", f"{text}: {n} after {ops}")
        # ... and the same again
        for n, f in observe(s, u, v):
            alike(ctx, attempt(f), ref[n], "history", f"{text}: {n} again after {ops}")

    return run


def fresh_answers(ctx, text):
    """Each observation on units nobody has touched."""
    out = {}
    for i in range(8):
        s, u, v = world(ctx, text)
        n, f = list(observe(s, u, v))[i]
        out[n] = attempt(f)
    return out


KINDS = ["a m", "a m/s", "m @ a", "lg(re m)", "a", "m^2"]


def build(ctx, tag, kind, swap):
    """A system in which foo is of this kind."""
    s = UnitSystem()
    a, p = ctx.real("a" + tag, positive=True), ctx.real("p" + tag, positive=True)
    # in the other system m, s and rad are something else
    s.add_unit(basis("meter", "m"))
    s.add_unit(basis("second", "s", time=True))
    s.add_unit(basis("radian", "rad", dimensionless=not swap))
    s.add_prefix(Prefix(name="kilo", value=ctx.lit(p), symbols=("k",)))
    m, sec = base_unit("m"), base_unit("s")
    u = {
        "a m": lambda: num(ctx, a).mul(m),
        "a m/s": lambda: num(ctx, a).mul(m).div(sec),
        "m @ a": lambda: m.shift(esym(a), ctx.lit(a)),
        "lg(re m)": lambda: m.log("lg"),
        "a": lambda: num(ctx, a),
        "m^2": lambda: m.pow(2, "2"),
    }[kind]()
    define(s, "foo", u.text, symbols=("F",), plural="foos")
    define(s, "bar", f"{ctx.lit(a)} rad")
    rad = {"radian": 1} if swap else {}
    return s, {"foo": u.named("foo"), "kfoo": (u.linear(), esym(p)), "bar": U("bar", "lin", esym(a), rad)}


def basis_of(dims):
    return " ".join(f"{k}^{n}" for k, n in sorted(dims.items())) or "1"


def judge(ctx, s, us, what, detail, held=None):
    """One look at one system (or at a unit it gave earlier): what its own
    definitions say."""
    if what == "kfoo":
        u, p = us["kfoo"]
        if us["foo"].kind == "log":
            return
        got = held or s.unit("kiloF")
        want = U("kiloF", "lin", u.scale * p, u.dims)
    else:
        want = us[what]
        got = held or s.unit(what)
    check_dims(ctx, got.dimensionality(), want.dims, "systems", detail)
    conv = Converter(got, s.unit(basis_of(want.dims)))
    ctx.same(conv.expression, want.to_base(V), "systems", f"{detail}: {conv.expression}")
    if held is not None:
        fresh = attempt(lambda: s.unit(str(held)).expanded())
        ctx.check(same_text(ctx, held.expanded(), fresh), "systems", f"{detail}: expanded {held.expanded()}")
    ctx.check(same_text(ctx, str(got), "kiloF" if what == "kfoo" else what), "systems", f"{detail}: text {got}")


ORDERS = ["AB", "BA", "ABAB", "ABBA", "AABB", "BABA"]


def systems(ka):
    def run(ctx):
        kb = ctx.choose("other kind", KINDS)
        swap = ctx.choose("swap", [False, True])
        order = ctx.choose("order", ORDERS)
        A = build(ctx, "1", ka, False)
        early = ctx.choose("built", ["before", "after"])
        if early == "after":
            judge(ctx, *A, "foo", "A first")
        held = {w: A[0].unit("kiloF" if w == "kfoo" else w) for w in ("foo", "kfoo", "bar")}
        B = build(ctx, "2", kb, swap)
        whats = ["foo", "bar", "kfoo"]
        for i, which in enumerate(order):
            s, us = A if which == "A" else B
            judge(ctx, s, us, whats[i // 2 if len(order) > 2 else 0], f"{which} in {order}")
        for which, (s, us) in (("A", A), ("B", B)):
            for w in whats:
                judge(ctx, s, us, w, f"{which} after {order}")
        for w, unit in held.items():
            judge(ctx, *A, w, f"A, held, after {order}", unit)

    return run


def registrations(ctx):
    """Registering in one system changes nothing in the other."""
    A, ua = build(ctx, "1", "a m", False)
    B, ub = build(ctx, "2", "a m/s", False)
    c = ctx.real("c", positive=True)
    judge(ctx, A, ua, "foo", "A")
    what = ctx.choose("what", ["new", "replace", "alias", "prefix", "refused"])
    if what == "new":
        define(B, "zork", f"{ctx.lit(c)} m")
    elif what == "replace":
        unit = LazilyDefinedUnit(unit_system=B, definition=f"{ctx.lit(c)} s", names=UnitReference(name=Name(singular="foo", plural="foos"), symbols=("F",)))
        B.add_unit(unit, replace=True)
        ub["foo"] = U("foo", "lin", esym(c), {"second": 1})
        ub["kfoo"] = (ub["foo"], ub["kfoo"][1])
    elif what == "alias":
        define(B, "zork", f"{ctx.lit(c)} m", alias_names=(Name(singular="quux"),), alias_symbols=("Q",))
    elif what == "prefix":
        B.add_prefix(Prefix(name="zork", value="7", symbols=("z",)))
    else:
        try:
            define(B, "foo", "3 m")
            ctx.fail("registration", "taken name accepted")
        except ValueError:
            pass
    for w in ("foo", "bar", "kfoo"):
        judge(ctx, A, ua, w, f"A after {what} in B")
        judge(ctx, B, ub, w, f"B after {what}")
    for t in ("zork", "quux", "Q", "zorkfoo", "zF"):
        try:
            A.unit(t)
            ctx.fail("registration", f"{t} of B known in A")
        except UnresolvableUnitException:
            ctx.reach("registration")


# texts that look alike and mean something else (or the same), and what is no text
ALIKE = [
    ["m 2", "m2", "m-2", "m -2", "m - 2", "m+2", "m +2"],
    ["m s", "ms", "m  s", "m.s", "m*s", "M s", "m S"],
    ["k m s", "km s", "k ms", "kms", "km\ts", "k\nms"],
    ["2 m3", "2m 3", "2 m 3", "2m3", "2m^3", "2m ^3", "2 m-3"],
    ["a per b", "a perb", "aper b", "a/b", "ap erb", "a PER b"],
    ["s since 1 2", "s since 12", "ssince 12", "s s ince 12", "s since 1-2", "s since1-2"],
    ["a/b c", "a/(b c)", "a/b/c", "(a/b) c", "a / b c"],
    ["lg(re m)", "lg (re m)", "lg(re: m)", "lg(RE m)", "ln(re m)", "lg(rem)", "lg(re 1 m)"],
    ["s @ 5", "s@5", "s@ 5", "s @ 5.0", "s since 5", "s from 05", "(s @ 5)"],
    ["s since 2000-01-01", "s since 2000-1-1", "s since 20000101", "s since 2000-01", "s since 2000", "2000-01-01"],
    ["s since 2000-01-01 12:00", "s since 2000-01-01 12", "s since 2000-01-01T12:00", "s since 2000-01-01 1200", "12:00 m"],
    ["µm", "μm", "m²", "m2", "m^2", "m**2", "m⁻²", "m^-2"],
    ["1.0 m", "1 m", "1. m", "1e0 m", "01 m", "+1 m", "-1 m"],
    ["K", "K", "Å", "Å", "Ω", "Ω", "ß", "ss", "ﬁ", "fi"],
    ["s @", "(s @ 5", "s since 2000-01-01)", "5", "2000-01-01", "s 5", "s 2000-01-01"],
    ["lg(re", "lg(re m", "re", "lg re m", "(re m)", "lg"],
    ["m^", "m^^2", "2", "^2", "m^2^3", "m^(2)"],
    ["", " ", "m", " m ", "\tm\n", "m m"],
]


def reading(text):
    try:
        return repr(parse(text))
    except SyntaxError:
        return "SyntaxError"


def alone(text):
    """What a text reads as in a process that has read nothing else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, reading(text).encode())
        finally:
            os._exit(0)
    os.close(w)
    out = b""
    while chunk := os.read(r, 65536):
        out += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode()


def texts(i, want):
    """Reading a text gives what it gives on its own, whatever was read before."""

    def run(ctx):
        group = ALIKE[i]
        which = [group[ctx.choose(f"text{j}", range(len(group)))] for j in range(3)]
        for t in which:
            got = reading(t)
            ctx.check(got == want[t], "texts", f"{t!r} among {which}: {got}, want {want[t]}")

    return run


# texts over the same symbolic characters
SEQ = {
    "x y": lambda f, x, y, d: product(x, " ", y),
    "x*y": lambda f, x, y, d: product(x, "*", y),
    "xy": lambda f, x, y, d: Tx(x.text + y.text, ("id", x.text + y.text), "id", "id"),
    "x zy": lambda f, x, y, d: product(x, " ", Tx("z" + y.text, ("id", "z" + y.text), "id", "id")),
    "xz y": lambda f, x, y, d: product(Tx(x.text + "z", ("id", x.text + "z"), "id", "id"), " ", y),
    "x/y": lambda f, x, y, d: product(x, "/", y),
    "x per y": lambda f, x, y, d: product(x, " per ", y),
    "xd": lambda f, x, y, d: Tx(x.text + d.text, ("pow", x.tree, d.tree[1]), "id", "digit"),
    "x d": lambda f, x, y, d: product(x, " ", d),
    "x^d": lambda f, x, y, d: Tx(x.text + "^" + d.text, ("pow", x.tree, d.tree[1]), "id", "digit"),
    "x-d": lambda f, x, y, d: Tx(x.text + "-" + d.text, ("pow", x.tree, -d.tree[1]), "id", "digit"),
    "x @ d": lambda f, x, y, d: shift(x, " @ ", d),
    "(x @ d) y": lambda f, x, y, d: product(bracket(shift(x, " @ ", d)), " ", y),
    "lg(re x)": lambda f, x, y, d: logarithm(x, "lg(re "),
    "ln(re d x)": lambda f, x, y, d: logarithm(product(d, " ", x), "ln(re "),
    "d x/y": lambda f, x, y, d: product(product(d, " ", x), "/", y),
}
BROKEN = ["(x @ 2000-01-01", "x @", "lg(re x", "x^", "x since 2000-01-01)", ") x", "#"]


def sequences(last):
    """The same, over texts that share symbolic characters, failing ones among them."""

    def run(ctx):
        f = Fresh(ctx)
        x, y, d = ident(f), ident(f), integer(f)
        before = ctx.choose("before", list(SEQ) + BROKEN)
        between = ctx.choose("between", ["", "x y", "x @ d", "(x @ 2000-01-01"])
        for t in (before, between):
            if t in SEQ:
                parse(SEQ[t](f, x, y, d).text)
            elif t:
                ctx.check(reading(t.replace("x", x.text)) == "SyntaxError", "sequences", t)
        t = SEQ[last](f, x, y, d)
        match(ctx, parse(t.text), t.tree, "sequences", f"{t.text!r} after {before!r}, {between!r}")

    return run


TREES = [
    "a b", "a/b c", "(a b)^2/c", "a^-3 b^2 a", "2 a 3 b", "a @ 5", "(a @ 2) b", "lg(re 2 a)", "3 lg(re a/b)", "((a b)^2 (b/c)^-1)^2", "a^0 b/b", "1e3 (a/(b/c)) @ 7",
]


def passes():
    """Every pass of the library over an expression tree."""
    import importlib

    from pyudunits2._expr import graph

    def sub(t):
        from pyudunits2._expr.substitute import Substitute

        return Substitute({graph.Identifier("a"): parse("2 z @ 3")}).visit(t)

    def by(module, name, *args):
        def run(t):
            cls = getattr(importlib.import_module("pyudunits2._expr." + module), name)
            try:
                return cls(*args).visit(t) if name != "SplitExpr" else cls(t).visit(t)
            except (ValueError, TypeError, NotImplementedError):
                return None

        return run

    return {
        "substitute": sub,
        "sympy": by("sympy", "ToSympy"),
        "split": by("split", "SplitExpr"),
        "identifiers": by("atoms", "ExtractIdentifiers"),
        "dimensionality": by("dimensionality", "DimensionalityCounter"),
        "expand": by("expander", "Expander"),
        "text": str,
        "repr": repr,
        "children": lambda t: [c.children() for c in t.children()],
        "equal": lambda t: t == parse("a"),
    }


def trees(text):
    def run(ctx):
        n = ctx.int("n", 0, 9)
        src = text.replace("5", str(ctx.lit(n))).replace("2", str(ctx.lit(n))) if "^" not in text else text
        ps = passes()
        p1, p2 = ctx.choose("first", list(ps)), ctx.choose("second", list(ps))
        t = parse(src)
        fresh = parse(src)
        r, s = repr(t), str(t)
        ps[p1](t)
        want = outcome(ps[p2](fresh))
        got = outcome(ps[p2](t))
        ctx.check(same_text(ctx, repr(t), r), "trees", f"{text}: {p1}, {p2} leave {t!r} of {r}")
        ctx.check(same_text(ctx, str(t), s), "trees", f"{text}: {p1}, {p2} leave {t}")
        ctx.check(same_text(ctx, got, want), "trees", f"{text}: {p2} after {p1} gives {got} instead of {want}")
        ctx.check(t == parse(src), "trees", f"{text}: {p1}, {p2}: no longer what the text parses to")

    return run


def outcome(x):
    if isinstance(x, (set, frozenset)):
        return str(sorted(map(str, x)))
    if isinstance(x, dict):
        return str(sorted((str(k), str(v)) for k, v in x.items()))
    if isinstance(x, tuple):
        return str([outcome(i) for i in x])
    return str(x)


TEXTS = ["soff", "lgs", "b/foo", "kfoo^2"]
MORE = ["foo", "kfoo", "(foo @ 7) s", "foo/foo", "m^2", "m", "rad", "ooff", "lglg", "offi", "lgi", "ibar", "s", "2 foo^2/m @ 3", "klg"]


def cases(tier):
    t = tier == "thorough"
    names = {"kfoo": "kilofoo", "kfoo^2": "kilofoo^2/m", "b/foo": "3 1/foo"}
    for text in TEXTS + (MORE if t else []):
        ops = list(OPS)
        for i in range(4) if not t else range(len(ops)):
            if t:
                yield Case(f"history[{text},{ops[i]}]", histories(names.get(text, text), ops[i], 2), ("history",))
            else:
                yield Case(f"history[{text},{i}]", some_histories(names.get(text, text), ops[i::4]), ("history",))
    for k in KINDS:
        yield Case(f"systems[{k}]", systems(k), ("systems",), decimal_module=True)
    yield Case("registrations", registrations, ("registration",), decimal_module=True)
    for i in range(len(ALIKE)):
        yield Case(f"texts[{ALIKE[i][0]}]", texts(i, {t: alone(t) for t in ALIKE[i]}), ("texts",))
    for t in SEQ:
        yield Case(f"sequences[{t}]", sequences(t), ("sequences",))
    for text in TREES:
        yield Case(f"trees[{text}]", trees(text), ("trees",))


def some_histories(text, firsts):
    def run(ctx):
        histories(text, ctx.choose("op0", firsts), 2)(ctx)

    return run
