"""C21: parsing any text gives an expression or a SyntaxError, ignoring nothing."""
from __future__ import annotations

import sys

from symx.runner import Case
from symx.values import SymStr, is_ph
from .syntax import *  # noqa: F401,F403
from pyudunits2._grammar import normalize, parse

PROPERTY = "C21"
BOUNDS = {
    "quick": "every text of up to 2 code points (all of Unicode, lone surrogates included); 26 unit texts with one arbitrary "
    "code point inserted or replaced at every position; 9 forms of date and clock with symbolic digits; texts at the "
    "limits of numbers, nesting and length",
    "thorough": "every text of up to 3 code points; two arbitrary code points at every position of 20 of the texts",
}
OUTSIDE = ["longer arbitrary texts", "nesting beyond what the cases at the limits sample"]
ASSUMPTIONS = []
STUBS = ["newline counting in the lexer is skipped for symbolic characters"]

EVERY = [(0, 0x10FFFF)]
# what the grammar drops: operators, brackets, signs, blanks
DROPPED = set(" *·-+/^()@:⁻⁺−.,")
SUPERS = dict(zip("⁰¹²³⁴⁵⁶⁷⁸⁹", "0123456789"))
WORDS = ["per", "PER", "since", "from", "after", "ref", "log", "lg", "ln", "lb", "re", "RE"]


def leaves(node, out):
    """The words of an expression tree, in the order of the text."""
    for name in ("lhs", "rhs", "unit", "shift_from", "term"):
        if hasattr(node, name):
            leaves(getattr(node, name), out)
    t = type(node).__name__
    if t == "Identifier":
        out.append(str(node.name))
    elif t == "Number":
        raw = getattr(node, "raw_content", None)
        out.append(str(node.value if raw is None else raw))
    elif t == "Unhandled":
        out.append(str(node.raw_content))
    return out


def settle(ctx, text):
    """The characters of the text, as far as this path knows them; a character
    the grammar may drop is known exactly."""
    out = []
    for ch in text:
        if ctx.symbolic and is_ph(ch):
            kind, t = ctx.ph_entry(ch)
            left = ctx.charset.get(t.sexpr(), EVERY)
            if len(left) == 1 and left[0][0] == left[0][1]:
                out.append(chr(left[0][0]))
                continue
            for d in sorted(DROPPED) + sorted(SUPERS):
                if in_(ord(d), left) and ctx.branch(t == ord(d)):
                    ch = d
                    break
        out.append(ch)
    return [SUPERS.get(c, c) for c in out]


def in_(c, ranges):
    return any(a <= c <= b for a, b in ranges)


def accounted(ctx, chars, words):
    """Is every character of the text in a word of the tree, or an operator?"""
    leaf = [c for c in settle(ctx, "".join(words)) if c not in DROPPED]
    todo, seen = [(0, 0)], set()
    while todo:
        i, j = todo.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(chars):
            if j == len(leaf):
                return True
            continue
        if chars[i] in DROPPED:
            todo.append((i + 1, j))
            continue
        if j < len(leaf) and chars[i] == leaf[j]:
            todo.append((i + 1, j + 1))
        for w in WORDS:
            if "".join(chars[i : i + len(w)]) == w:
                todo.append((i + len(w), j))
    return False


def total(ctx, text, label="total"):
    """The text parses to a printable tree of all its parts, or SyntaxError."""
    ctx.reach(label)
    given = text if type(text) is SymStr or not ctx.symbolic else SymStr.of(text)
    shown = repr(str(given))
    try:
        node = parse(given)
    except SyntaxError:
        try:
            normalize(given)
        except SyntaxError:
            ctx.check(True, label)
            return
        return ctx.fail(label, f"{shown}: parse and normalize disagree")
    except RecursionError:
        raise
    except Exception as e:
        if steering(e):
            raise
        return ctx.fail(label, f"{shown}: parse raises {type(e).__name__}: {e}")
    printed = str(node)
    repr(node)
    ctx.check(same_text(ctx, normalize(given), printed), label, f"{shown}: normalize disagrees with parse")
    inner = str(given.strip())
    words = leaves(node, [])
    chars = settle(ctx, inner)
    ok = accounted(ctx, chars, words)
    ctx.check(ok, label, f"{shown} parses to {node!r}: part of the text is ignored"[:500])
    depth = 0
    for c in chars:
        depth += (c == "(") - (c == ")")
        ctx.check(depth >= 0, label, f"{shown} is accepted with an unmatched bracket")
    ctx.check(depth == 0, label, f"{shown} is accepted with an unmatched bracket")
    if chars:
        ctx.check(chars[0] not in "*·/^@):", label, f"{shown} is accepted with nothing before the first operator")
        ctx.check(chars[-1] not in "*·/^@(:-+", label, f"{shown} is accepted with nothing after the last operator")


def steering(e):
    from symx import engine

    return isinstance(e, (engine.Steer, engine.Inconclusive))


def arbitrary(n):
    def run(ctx):
        total(ctx, ctx.string("c", n, EVERY, minlen=n))

    return run


TEXTS = [
    "m", "m2", "m^-2", "m**2", "m⁻²", "2.5e-3 m", "1.e2", "m/s2", "kg.m", "m per s", "(m s)2", "K@5", "K @ 273.15",
    "s since 2000-1-1", "s since 2000-01-01 12:30:10.5 +6:30", "s from 20000101T123010 UTC", "lg(re 1 mW)",
    "ln (re: K @ 2)/s", "m after -5", "-2 m", "m-2", "s@1990", "µ°π", "((a)b)", "m ref 1 Z", "1E3",
]


def at_every_place(text, n):
    def run(ctx):
        i = ctx.choose("at", range(len(text) + 1))
        how = ctx.choose("how", ["insert", "replace"] if n == 1 else ["insert"])
        if how == "replace" and i == len(text):
            raise Infeasible()
        c = str(ctx.string("c", n, EVERY, minlen=n))
        total(ctx, text[:i] + c + text[i + (how == "replace") :])

    return run


def trailing(ctx):
    """Whatever follows a complete unit is an error, or part of the unit."""
    text = ctx.choose("unit", ["m", "m s", "m^2", "(m)", "2", "lg(re m)", "m @ 5", "s since 2000-1-1", "s since 2000-1-1 12:00 UTC"])
    tail = ctx.choose("tail", [")", " )", " @ ", " #", "~", "m)", " m@", "(", " (", ";m", " \0", "@1@2", " UTC UTC", ",", "/", " per", "^", " @ 2000-1-1 x"])
    total(ctx, text + tail)


# d is a symbolic digit
CLOCKS = [
    "s since d", "s since dddd", "s since d-d-d", "s since 20dd-dd-d", "s since dd-d d:d", "s since d-d d:dd:dd.d",
    "s since d-d dd +dd", "s since d-d d:d +d:dd", "s since 19ddddTd",
]


def clock(form):
    def run(ctx):
        f = Fresh(ctx)
        total(ctx, "".join(f.digits(1) if c == "d" else c for c in form))

    return run


LIMITS = [
    "1" * 5000, "m^" + "1" * 5000, "m" + "1" * 5000, "m⁻" + "¹" * 5000, "1e99999999999999999999", "1.5e-99999999999999999999",
    "(" * 50 + "m" + ")" * 50, "(" * 300 + "m" + ")" * 300, "(" * 2000 + "m" + ")" * 2000, "m " * 3000, "m/" * 700 + "m",
    "lg(re " * 150 + "m" + ")" * 150, "s since " + "9" * 5000, "s @ 1e99999999999999999999", "m @ 99999999999999999999-01-01",
    "s @ 0000-00-00", "s since 2000-13-45", "s since 2000-01-01T99:99:99", "m\x00", "\ud800", "m\ud800", "²", "m²³", "m⁺", "m^",
    "^2", "٣", "m٣", "𝟛", "1_000", "m^1_0", "1__0", "１", "m１", "s since 2000-01-01 12:00 +99999", "s since -",
    "s since 2000-1-1 25:61:61", "", " ", "\ufeffm", "m\u200b", "m\u2003", "−2", "m−2", "m×s", "m÷s", "1e", "1e+", "e5", "1e5e5",
    "0x10", "1.2.3", "..", "m..s", "nan", "inf", "-inf m", "1e400 m", "m" * 3000, "m2 " * 100, "µ" * 50, "\n", "m\ns", "m\ts",
    "s@1990-01-01T", "m^2^3", "m^(2)", "m^2.5", "m**", "m***2", "(m", "m)", "()", "( )", "lg(re )", "lg(m)", "log()", "lg(re m",
]


def limits(ctx):
    # the interpreter's own limit: this process runs with a higher one
    old, depth, frame = sys.getrecursionlimit(), 0, sys._getframe()
    while frame is not None:
        frame, depth = frame.f_back, depth + 1
    try:
        sys.setrecursionlimit(1000 + depth)
        at_limit(ctx)
    finally:
        sys.setrecursionlimit(old)


def at_limit(ctx):
    text = ctx.choose("text", LIMITS)
    ctx.reach("limits")
    if len(text) < 400 and not any("\ud800" <= c <= "\udfff" for c in text):
        return total(ctx, text, "limits")
    try:
        node = parse(text)
        str(node), repr(node)
        words = "".join(leaves(node, []))
        same = [c for c in text if c.isalnum() and not "a" <= c <= "z"]
        ctx.check([c for c in words if c.isalnum() and not "a" <= c <= "z"] == same, "limits", text[:40])
    except SyntaxError:
        pass
    except Exception as e:
        if steering(e):
            raise
        ctx.fail("limits", f"{text[:40]!r} ({len(text)} characters) raises {type(e).__name__}: {e}"[:300])


def cases(tier):
    t = tier == "thorough"
    for n in range(0, 4 if t else 3):
        yield Case(f"arbitrary[{n}]", arbitrary(n), ("total",))
    for text in TEXTS:
        yield Case(f"with[{text}]", at_every_place(text, 1), ("total",))
        if t and len(text) < 14:
            yield Case(f"with2[{text}]", at_every_place(text, 2), ("total",))
    for form in CLOCKS:
        yield Case(f"clock[{form}]", clock(form), ("total",))
    yield Case("trailing", trailing, ("total",))
    yield Case("limits", limits, ("limits",))
