"""C23: the command line reports what the library computes."""
from __future__ import annotations

import contextlib
import io
import re
import sys

from symx.runner import Case
from symx.values import SymStr, is_ph
from .zoo import *  # noqa: F401,F403
from .c06 import expected
import pyudunits2.__main__ as cli

PROPERTY = "C23"
BOUNDS = {
    "quick": "conversion-expr for every ordered pair of 23 linear, offset and logarithmic units and 6 longer texts with "
    "symbolic coefficients, and for products of powers with any integer exponents; explain-unit for the same; every text of "
    "2 characters of the unit alphabet; 20 invalid or unknown texts, dates and malformed command lines; 9 numbers with up to 15 digits in 8 forms",
    "thorough": "as quick with every text of 3 characters and every pair under every logarithm",
}
OUTSIDE = ["the shipped database behind the commands (C16, C17)", "the convert and debug-parser commands", "arguments that look like options"]
ASSUMPTIONS = ["coefficients are exact reals"]
STUBS = ["UnitSystem.from_udunits2_xml gives a system with symbolic data instead of reading the shipped database"]


class Run:
    """One command line, against the given system."""

    def __init__(self, system, *args):
        out, err = io.StringIO(), io.StringIO()
        argv = sys.argv
        real = UnitSystem.__dict__["from_udunits2_xml"]
        UnitSystem.from_udunits2_xml = classmethod(lambda cls, *a, **k: system)
        self.status, self.error = 0, None
        try:
            sys.argv = ["pyudunits2", *args]
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                cli.main()
        except SystemExit as e:
            self.status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            from symx import engine

            if isinstance(e, (engine.Steer, engine.Inconclusive)):
                raise
            self.error, self.status = type(e).__name__, 1
        finally:
            sys.argv = argv
            UnitSystem.from_udunits2_xml = real
        self.out, self.err = out.getvalue(), err.getvalue()


def printed(ctx, text):
    """The expression a printed text reads as."""
    names = {}
    for n in re.findall(r"[A-Za-z_]\w*", text):
        if n in ("log", "exp", "E", "sqrt", "pi"):
            continue
        c = ctx.coef(n) if ctx.symbolic and n != "value" else None
        names[n] = c if c is not None else sympy.Symbol(n)
    return sympy.sympify(text, locals=names)


def conversion(ctx, s, fresh, u, v, want, label):
    """What conversion-expr says for two units, each given as text."""
    r = Run(s, "conversion-expr", u, v)
    what = f"conversion-expr {u!r} {v!r}: status {r.status} {r.error or ''} {r.out!r}"
    x, y = fresh.unit(u), fresh.unit(v)
    lines = r.out.strip().split("\n")
    ctx.check(r.err == "", label, what + r.err)
    head = lines[0]
    for t in (str(x), str(y)):
        i = find(ctx, head, f'"{t}"')
        ctx.check(i >= 0, label, what + f" does not name {t!r}")
        head = head[i:]
    if want:
        ctx.check(r.status == 0 and r.error is None, label, what)
        ctx.check(len(lines) == 2, label, what)
        expr = Converter(x, y).expression
        got = printed(ctx, lines[1])
        form = {} if not any(is_ph(c) for c in u + v) or expr.has(sympy.log, sympy.exp, sympy.Add) else {}
        if got != expr:
            ctx.same(got, expr, label, f"{what}; the library says {expr}", **form)
        ctx.check("not possible" not in r.out, label, what)
    else:
        ctx.check(r.status == 1 and r.error is None, "refused", what)
        ctx.check(len(lines) == 1 and "not possible" in r.out, "refused", what)
    return r


def find(ctx, text, piece):
    for i in range(len(text) - len(piece) + 1):
        if same_text(ctx, text[i : i + len(piece)], piece):
            return i
    return -1


def explanation(ctx, s, fresh, u, label):
    r = Run(s, "explain-unit", u)
    what = f"explain-unit {u!r}: status {r.status} {r.error or ''} {r.out!r}"
    ctx.check(r.status == 0 and r.error is None and r.err == "", label, what)
    x = fresh.unit(u)
    lines = r.out.strip().split("\n")
    ctx.check(len(lines) == 3, label, what)
    for line, start, want in zip(
        lines,
        ("Unit: ", "In basis form: ", "Dimensionality: "),
        (str(x), str(x.expanded()), None),
    ):
        ctx.check(line.startswith(start), label, what)
        if want is not None:
            ctx.check(same_text(ctx, line[len(start) :], want), label, f"{what}, want {want}")
    dims = lines[2][len("Dimensionality: ") :]
    got = {}
    inside = dims.strip().strip("{}")
    for part in filter(None, inside.split(", ")):
        m = re.fullmatch(r"'([^']+)': (.+)", part)
        ctx.check(bool(m), label, f"{what}: dimensionality {part}")
        v = m.group(2)
        if len(v) == 1 and is_ph(v) and ctx.symbolic:
            got[m.group(1)] = ctx.ph_entry(v)[1]
        else:
            got[m.group(1)] = int(v)
    return what, got


def exact_dims(ctx, got, want, label, what):
    class D(dict):
        pass

    check_dims(ctx, D(got), nonzero_dims(ctx, want), label, what)


LONG_TEXTS = {
    "3 foo/m": lambda ctx, us: num(ctx, 3).mul(us["foo"]).div(us["m"]),
    "off s": lambda ctx, us: us["off"].mul(us["s"]),
    "foo^2/bar": lambda ctx, us: us["foo"].pow(2, "2").div(us["bar"]),
    "kg^-1 m^2": lambda ctx, us: us["kg"].pow(-1, "-1").mul(us["m"].pow(2, "2")),
    "foo @ 3": lambda ctx, us: us["foo"].shift(3, "3"),
    "rad/foo": lambda ctx, us: us["rad"].div(us["foo"]),
}
ALL = DIRECT + INVERSE + OTHER


def unit_of(ctx, us, name):
    return LONG_TEXTS[name](ctx, us) if name in LONG_TEXTS else us[name]


def pairs(left, fns):
    def run(ctx):
        fn = ctx.choose("fn", fns)
        s, us = zoo(ctx, fn)
        fresh, _ = zoo(ctx, fn)
        right = ctx.choose("right", ALL + list(LONG_TEXTS))
        u, v = unit_of(ctx, us, left), unit_of(ctx, us, right)
        want = expected(ctx, u.dims, v.dims)
        conversion(ctx, s, fresh, u.text, v.text, want, "conversion")

    return run


def explaining(ctx):
    s, us = zoo(ctx)
    fresh, _ = zoo(ctx)
    u = unit_of(ctx, us, ctx.choose("unit", ALL + list(LONG_TEXTS)))
    ctx.int_text = "lit"
    what, got = explanation(ctx, s, fresh, u.text, "explanation")
    exact_dims(ctx, got, u.dims, "explanation", what)


def exponents(ctx):
    s, us = zoo(ctx)
    fresh, _ = zoo(ctx)
    n, k = ctx.int("n"), ctx.int("k")
    p = lambda u, e: us[u].pow(e, ctx.lit(e))
    u = [
        lambda: p("m", n).mul(p("s", k)),
        lambda: p("m", n).div(p("m", k)),
        lambda: p("foo", n).mul(us["kg"]),
        lambda: p("m", n).mul(us["rad"]).pow(k, ctx.lit(k)),
    ][ctx.choose("shape", range(4))]()
    ctx.int_text = "lit"
    what, got = explanation(ctx, s, fresh, u.text, "explanation")
    exact_dims(ctx, got, u.dims, "explanation", what)
    v = ["m", "m s", "kg", "1", "m^2/s"][ctx.choose("to", range(5))]
    dims = [{"meter": 1}, {"meter": 1, "second": 1}, {"kilogram": 1}, {}, {"meter": 2, "second": -1}][
        ["m", "m s", "kg", "1", "m^2/s"].index(v)
    ]
    want = expected(ctx, u.dims, dims)
    r = Run(s, "conversion-expr", u.text, v)
    what = f"conversion-expr {u.text!r} {v!r}: status {r.status} {r.error or ''} {r.out!r}"
    ctx.check(r.error is None and r.status == (0 if want else 1), "verdict", what)
    ctx.check(("not possible" in r.out) is (not want), "verdict", what)


DIGITS = ["0.123456789012345", "123456.789012345", "1.00000000000012", "1.23456789012345e-27", "9.87654321098765e26", "299792458", "1234567890123", "7e-300", "1e200"]
NEAR = ["m", "{} m", "{} s", "m @ {}", "lg(re {} m)", "1/m", "{} m @ 1e-9", "({} m)^-1"]


def digits(i):
    """No digit of a coefficient is lost on the way to the output."""

    def run(ctx):
        s, _ = zoo(ctx)
        fresh, _ = zoo(ctx)
        u, v = ctx.choose("u", NEAR).format(DIGITS[i]), ctx.choose("v", NEAR).format(ctx.choose("d", DIGITS[::3]))
        x, y = fresh.unit(u), fresh.unit(v)
        r = Run(s, "conversion-expr", u, v)
        what = f"conversion-expr {u!r} {v!r}: status {r.status} {r.error or ''} {r.out!r}"
        if not x.is_convertible_to(y):
            ctx.check(r.status == 1 and r.error is None and "not possible" in r.out, "digits", what)
        else:
            expr = Converter(x, y).expression
            got = sympy.sympify(r.out.strip().split("\n")[-1], locals={"value": V})
            ctx.check(r.status == 0 and got.free_symbols == {V}, "digits", what)
            if got != expr and str(got) != str(expr):
                ctx.check(same_numbers(got, expr), "digits", f"{what}; the library says {expr}")
        r = Run(s, "explain-unit", u)
        what = f"explain-unit {u!r}: status {r.status} {r.error or ''} {r.out!r}"
        ctx.check(r.status == 0 and f"Unit: {x}\n" in r.out and f"In basis form: {x.expanded()}\n" in r.out, "digits", what)

    return run


def same_numbers(a, b):
    """The same expression, each number to 13 digits."""
    if a.is_number and b.is_number:
        return bool(abs(sympy.N(a - b, 30)) <= 1e-13 * abs(sympy.N(b, 30)))
    return a.func == b.func and len(a.args) == len(b.args) and all(map(same_numbers, a.args, b.args)) and (a.args != () or a == b)


UNITCH = [(42, 44), (46, 57), (64, 90), (94, 95), (97, 122), (0xB0, 0xB0), (0xB2, 0xB5), (0xB7, 0xB7), (0xC0, 0xD6)]


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        from symx import engine

        if isinstance(e, (engine.Steer, engine.Inconclusive)):
            raise
        return None, e


def any_text(n, command):
    """The command fails exactly where the library does."""

    def run(ctx):
        s, _ = zoo(ctx)
        fresh, _ = zoo(ctx)
        t = str(ctx.string("t", n, UNITCH, minlen=n))
        lib, why = outcome(lambda: fresh.unit(t))
        if command == "explain-unit":
            r = Run(s, command, t)
        else:
            r = Run(s, command, *((t, "foo") if command == "from" else ("foo", t))) if False else Run(
                s, "conversion-expr", *((t, "foo") if command == "from" else ("foo", t))
            )
        what = f"{command} {t!r}: status {r.status} {r.error or ''} {r.out!r}"
        if why is not None:
            ctx.check(r.status != 0, "any text", f"{what}; the library refuses with {type(why).__name__}")
            ctx.check(r.out == "", "any text", what)
            return
        ctx.check(r.error is None, "any text", what)
        first = r.out.split("\n")[0]
        ctx.check(find(ctx, first, str(lib)) >= 0, "any text", what)
        if command == "explain-unit":
            ctx.check(r.status == 0, "any text", what)
        else:
            ok = lib.is_convertible_to(fresh.unit("foo"))
            ctx.check(r.status == (0 if ok else 1), "any text", what)

    return run


BAD = ["nothing", "foo nothing", "mm", "foo^", "(foo", "foo)", "/foo", "foo//s", "foo^x", "#", "foo @", "foo @ m",
       "lg(foo)", "lg(re nothing)", "(s since 2000-01-01) m", "lg(re s since 2000)", "1e99999999999999999999", "kilo", "Foo"]


def invalid(ctx):
    s, _ = zoo(ctx)
    t = ctx.choose("text", BAD)
    args = ctx.choose("as", [("explain-unit", t), ("conversion-expr", t, "m"), ("conversion-expr", "m", t), ("conversion-expr", t, t)])
    r = Run(s, *args)
    what = f"{' '.join(args)}: status {r.status} {r.error or ''} {r.out!r}"
    ctx.check(r.status != 0, "invalid", what)
    ctx.check("apply" not in r.out and "basis" not in r.out and "not possible" not in r.out, "invalid", what)


def dates(ctx):
    s, us = zoo(ctx)
    d = ctx.choose("date", ["s since 2000-01-01", "(s rad) @ 5", "s from 1999-12-31 23:59"])
    o = ctx.choose("other", ["s", "m", "1/s", "off", "lgm", "s since 2000-01-01"])
    fwd = ctx.choose("way", [True, False])
    x, y = (d, o) if fwd else (o, d)
    r = Run(s, "conversion-expr", x, y)
    what = f"conversion-expr {x!r} {y!r}: status {r.status} {r.error or ''} {r.out!r}"
    named = all(f"\"{s.unit(t)}\"" in r.out for t in (x, y)) and "object at" not in r.out
    ctx.check(r.status == 1 and r.error is None and "not possible" in r.out and "apply" not in r.out and named, "dates", what)
    r = Run(s, "explain-unit", d)
    ctx.check(r.status == 0 and f"Unit: {s.unit(d)}" in r.out and "object at" not in r.out and "{'second': 1}" in r.out, "dates", f"explain-unit {d}: {r.out!r}")


def command_lines(ctx):
    """Anything that is no complete command is refused, with nothing printed as a result."""
    s, _ = zoo(ctx)
    args = ctx.choose("args", [(), ("explain-unit",), ("conversion-expr",), ("conversion-expr", "m"), ("conversion-expr", "m", "m", "m"),
                               ("explain-unit", "m", "m"), ("nothing", "m"), ("m",), ("--nothing", "explain-unit", "m")])
    r = Run(s, *args)
    what = f"{args}: status {r.status} {r.error or ''} {r.out!r} {r.err!r}"
    ctx.check(r.status != 0 and r.out == "", "command lines", what)
    ctx.check(r.error is None and "usage" in r.err, "command lines", what + ": no usage shown")


def cases(tier):
    t = tier == "thorough"
    for u in ALL + list(LONG_TEXTS):
        yield Case(f"pairs[{u}]", pairs(u, ["lg", "ln", "lb"] if t else ["lg"]), ("conversion",))
    yield Case("explaining", explaining, ("explanation",))
    yield Case("exponents", exponents, ("explanation", "verdict"))
    for c in ("explain-unit", "from", "to"):
        for n in (1, 2, 3) if t else (1, 2):
            yield Case(f"any[{c},{n}]", any_text(n, c), ("any text",))
    for i, d in enumerate(DIGITS):
        yield Case(f"digits[{d}]", digits(i), ("digits",))
    yield Case("invalid", invalid, ("invalid",))
    yield Case("dates", dates, ("dates",))
    yield Case("command lines", command_lines, ("command lines",))
