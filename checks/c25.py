"""C25: debug-parser shows every token of a text once, under a rule it matches."""
from __future__ import annotations

import re

from symx import engine
from symx.runner import Case
from symx.values import SymStr, is_ph
from .c21 import CLOCKS, EVERY, TEXTS
from .c23 import Run
from .syntax import *  # noqa: F401,F403
from pyudunits2._grammar import parse

PROPERTY = "C25"
BOUNDS = {
    "quick": "every text of up to 2 code points (all of Unicode); 26 unit texts with one arbitrary code point inserted or "
    "replaced at every position; 14 texts with symbolic identifiers and digits, dates and clocks among them",
    "thorough": "as quick with every text of up to 3 code points",
}
OUTSIDE = ["nesting beyond the interpreter's stack", "where a token ends, when the next one could have begun earlier (C13 decides the reading)"]
ASSUMPTIONS = []
STUBS = ["newline counting in the lexer is skipped for symbolic characters"]

# -- a matcher for the token rules: a pattern and a text give a formula -------


def lit(t):
    return ("seq", [("set", [(ord(c), ord(c))]) for c in t])


def alt(*ps):
    return ("alt", [lit(p) if isinstance(p, str) else p for p in ps])


def seq(*ps):
    return ("seq", [lit(p) if isinstance(p, str) else p for p in ps])


def star(p):
    return ("star", lit(p) if isinstance(p, str) else p)


def opt(p):
    return alt("", p)


def plus(p):
    return seq(p, star(p))


def of(ranges):
    return ("set", [(ord(a), ord(b)) if isinstance(a, str) else (a, b) for a, b in ranges])


D = of([("0", "9")])
WSS = star(" ")
INT = plus(D)
SIGN = alt("-", "+")
SIGNED = seq(SIGN, INT)
ANY_INT = alt(INT, SIGNED)
E_POWER = seq(alt("E", "e"), ANY_INT)
HOUR = alt(seq(opt(SIGN), opt(of([("0", "1")])), D), seq("2", of([("0", "3")])))
MINUTE = seq(opt(of([("0", "5")])), D)
SECOND = seq(alt(MINUTE, "60"), opt(seq(".", star(D))))
MONTH = alt(seq(opt("0"), of([("1", "9")])), seq("1", of([("0", "2")])))
DAY = alt(seq(opt("0"), of([("1", "9")])), seq(of([("1", "2")]), D), "30", "31")
YEAR = seq(ANY_INT, opt(INT), opt(INT), opt(INT))
RULES = {
    "SIGNED_INT": SIGNED,
    "PLUS": lit("+"),
    "MULTIPLY": alt("*", "·", "-", "."),
    "DIVIDE": seq(WSS, alt("/", " PER ", " per "), WSS),
    "PERIOD": lit("."),
    "OPEN_PAREN": lit("("),
    "CLOSE_PAREN": lit(")"),
    "SEMICOLON": lit(":"),
    "INT": INT,
    "E_POWER": E_POWER,
    "FLOAT": alt(seq(alt(seq(ANY_INT, ".", opt(INT)), seq(opt(ANY_INT), ".", INT)), opt(E_POWER)), seq(ANY_INT, E_POWER)),
    "SHIFT_OP": alt("@", "after", "from", "since", "ref"),
    "UNICODE_EXPONENT": plus(alt(*"⁻⁺¹²³⁴⁵⁶⁷⁸⁹⁰")),
    "RAISE": alt("^", "**"),
    "LOG": seq(alt("log", "lg", "ln", "lb"), WSS, "(", WSS, alt("RE", "re"), opt(":"), WSS),
    "ID": plus(of([("A", "Z"), ("a", "z"), ("_", "_"), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF), (0x80, 0x80), (0xAD, 0xAD),
                   (0xB0, 0xB0), (0xB5, 0xB5), (0x3C0, 0x3C0), (0x3A9, 0x3A9)])),
    "WS": lit(" "),
    "ERRORCHARACTER": of([(0, 0x10FFFF)]),
    "TIMEZONE": alt("UTC", "Z", "GMT"),
    "TZ": lit("TZ"),
    "HOUR_MINUTE_SECOND": seq(HOUR, ":", MINUTE, ":", SECOND),
    "HOUR_MINUTE": seq(HOUR, ":", MINUTE),
    "M_MINUS": lit("-"),
    "DATE": seq(YEAR, "-", MONTH, opt(seq("-", DAY))),
    "T": lit("T"),
    "TIMESTAMP": seq(YEAR, opt(seq(MONTH, opt(DAY))), "T", HOUR, opt(seq(MINUTE, opt(SECOND)))),
}  # fmt: skip


def all_of(*cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return z3.And(cs) if len(cs) > 1 else cs[0] if cs else True


def any_of(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return z3.Or(cs) if len(cs) > 1 else cs[0] if cs else False


def none_of(cs):
    c = any_of(cs)
    return not c if isinstance(c, bool) else z3.Not(c)


def in_set(t, ranges):
    """Is the character in the set, given what the path has left of it?"""
    if z3.is_int_value(t):
        v = t.as_long()
        return any(a <= v <= b for a, b in ranges)
    cond = z3.Or([z3.And(t >= a, t <= b) for a, b in ranges])
    left = engine.CUR.charset.get(t.sexpr())
    if left is not None:
        if all(any(a <= x and y <= b for a, b in ranges) for x, y in left):
            return True
        if all(y < a or b < x for a, b in ranges for x, y in left):
            return False
    return cond


def matches(p, terms):
    """The condition under which the pattern matches all of the terms."""
    return prefixes(p, terms).get(len(terms), False)


def prefixes(p, terms):
    """{length: the condition under which the pattern matches that many terms}"""
    memo = {}

    def ends(p, i):
        """{end: condition} of the matches of p from i."""
        key = (id(p), i)
        if key in memo:
            return memo[key]
        kind, arg = p
        out = {}
        if kind == "set":
            if i < len(terms):
                c = in_set(terms[i], arg)
                if c is not False:
                    out[i + 1] = c
        elif kind == "alt":
            found = {}
            for q in arg:
                for j, c in ends(q, i).items():
                    found.setdefault(j, []).append(c)
            out = {j: any_of(c) for j, c in found.items()}
        elif kind == "seq":
            now = {i: True}
            for q in arg:
                nxt = {}
                for j, c in now.items():
                    for k, d in ends(q, j).items():
                        nxt.setdefault(k, []).append(all_of(c, d))
                now = {k: any_of(v) for k, v in nxt.items()}
            out = now
        else:
            todo, seen = {i: True}, {i: [True]}
            while todo:
                nxt = {}
                for j, c in todo.items():
                    for k, d in ends(arg, j).items():
                        if k > j:
                            nxt.setdefault(k, []).append(all_of(c, d))
                todo = {k: any_of(v) for k, v in nxt.items()}
                for k, c in todo.items():
                    seen.setdefault(k, []).append(c)
            out = {j: any_of(c) for j, c in seen.items()}
        memo[key] = out
        return out

    return ends(p, 0)


def terms_of(ctx, text):
    return [ctx.ph_entry(c)[1] if ctx.symbolic and is_ph(c) else z3.IntVal(ord(c)) for c in text]


LINE = re.compile(r"(.+?): ([A-Z_]+)\n", re.S)


def shown(ctx, text, label="tokens"):
    """What debug-parser prints for a text."""
    ctx.reach(label)
    given = text if type(text) is SymStr or not ctx.symbolic else SymStr.of(text)
    try:
        parse(given)
        accepted, by_grammar = True, False
    except SyntaxError as e:
        accepted, by_grammar = False, e.lineno is not None
    # (as an argument a text that begins with a sign would be an option)
    r = Run(None, "debug-parser", "--", given)
    what = f"debug-parser {str(text)!r}: status {r.status} {r.error or ''} {r.out!r} {r.err!r}"[:600]
    ctx.check(r.status == 0 and r.error is None, label, what)
    inner = str(given.strip())
    at = pos = 0
    while at < len(r.out):
        m = LINE.match(r.out, at)
        ctx.check(bool(m), label, f"{what}: no token at {r.out[at:]!r}")
        token, rule = m.groups()
        at = m.end()
        ctx.check(same_text(ctx, inner[pos : pos + len(token)], token), label, f"{what}: {token!r} is not what comes next")
        pos += len(token)
        ctx.check(rule in RULES, label, f"{what}: no rule {rule}")
        c = matches(RULES[rule], terms_of(ctx, token))
        ctx.check(c, label, f"{what}: {token!r} is no {rule}")
        if rule == "ERRORCHARACTER":
            ctx.check(not accepted, label, f"{what}: accepted with a character that is in no token")
    ctx.check(pos == len(inner), label, f"{what}: shows {pos} of {len(inner)} characters")
    if accepted:
        ctx.check(r.err == "", label, what)
    elif by_grammar:
        ctx.check(r.err != "", label, f"{what}: no complaint")


def arbitrary(n):
    def run(ctx):
        shown(ctx, str(ctx.string("c", n, EVERY, minlen=n)))

    return run


def at_every_place(text):
    def run(ctx):
        i = ctx.choose("at", range(len(text) + 1))
        how = ctx.choose("how", ["insert", "replace"])
        if how == "replace" and i == len(text):
            raise Infeasible()
        c = str(ctx.string("c", 1, EVERY, minlen=1))
        shown(ctx, text[:i] + c + text[i + (how == "replace") :])

    return run


# a: identifier character, d: digit
FORMS = ["a", "  aa  ", "a d", "aad", "a^-d", "d.d a", "d.de-d", "(a/a).a", "lg(re: d aa)", "a per a", "a@d.d", "aa⁻² a", "d", "+d"]


def form(text):
    def run(ctx):
        f = Fresh(ctx)
        shown(ctx, "".join(f.digits(1) if c == "d" else f.chars(1, PLAIN) if c == "a" else c for c in text))

    return run


def clock(text):
    def run(ctx):
        f = Fresh(ctx)
        shown(ctx, "".join(f.digits(1) if c == "d" else c for c in text))

    return run


def cases(tier):
    t = tier == "thorough"
    for n in range(0, 4 if t else 3):
        yield Case(f"arbitrary[{n}]", arbitrary(n), ("tokens",))
    for text in TEXTS:
        yield Case(f"with[{text}]", at_every_place(text), ("tokens",))
    for text in FORMS:
        yield Case(f"form[{text}]", form(text), ("tokens",))
    for text in CLOCKS:
        yield Case(f"clock[{text}]", clock(text), ("tokens",))
