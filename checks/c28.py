"""C28: the lexer takes the longest token, the first of equally long ones, in the mode the grammar prescribes."""
from __future__ import annotations

from symx.runner import Case
from symx.values import SymStr
from .c21 import CLOCKS, EVERY, TEXTS
from .c25 import FORMS, RULES, all_of, alt, any_of, none_of, prefixes, terms_of
from .syntax import *  # noqa: F401,F403
import pyudunits2._grammar._antlr4_runtime as runtime
from pyudunits2._grammar.parser.udunits2Lexer import udunits2Lexer

PROPERTY = "C28"
BOUNDS = {
    "quick": "every text of up to 2 code points; every text of up to 4 characters over the alphabets of numbers and of words and of up to 3 over those of dates (after a shift "
    "operator) and of operators; the texts of C25 with symbolic characters in them",
    "thorough": "every text of up to 3 code points, one more character over the alphabets, and 26 texts with one arbitrary code point at every position",
}
OUTSIDE = ["longer texts", "what happens to the tokens (C13, C27)"]
ASSUMPTIONS = []
STUBS = ["newline counting in the lexer is skipped for symbolic characters"]

COMMON = [
    "SIGNED_INT", "PLUS", "MULTIPLY", "DIVIDE", "PERIOD", "OPEN_PAREN", "CLOSE_PAREN", "SEMICOLON", "INT", "E_POWER", "FLOAT",
    "SHIFT_OP", "UNICODE_EXPONENT", "RAISE", "LOG", "ID", "LATIN_SUBSET", "WS", "ERRORCHARACTER",
]  # fmt: skip
R = dict(RULES, MULTIPLY=alt("*", "·", "-"), EXTRA=alt(".", "-"), LATIN_SUBSET=RULES["ID"][1][0])
DATES = ["TIMEZONE", "TZ", "HOUR_MINUTE_SECOND", "HOUR_MINUTE", "M_MINUS", "DATE", "T", "TIMESTAMP"]
# the rules of a mode, in order: (pattern, the kind of token)
MODES = {
    "DEFAULT": [(R[k], k) for k in COMMON],
    "SHIFT": [(R[k], k) for k in DATES + COMMON],
    "SEEN": [(R["SIGNED_INT"], "SIGNED_INT"), (R["EXTRA"], "MULTIPLY")] + [(R[k], k) for k in COMMON if k != "FLOAT"],
}
NAMES = {getattr(udunits2Lexer, k): k for k in COMMON + DATES}


def next_mode(mode, kind):
    if mode == "DEFAULT":
        return {"ID": "SEEN", "SHIFT_OP": "SHIFT"}.get(kind, mode)
    return "DEFAULT" if mode == "SEEN" else mode


def tokens(text):
    """[(kind, text)] the lexer makes of the text."""
    stream = runtime.CommonTokenStream(udunits2Lexer(runtime.InputStream(text)))
    stream.fill()
    return [(NAMES[t.type], str(t.text)) for t in stream.tokens if t.type != -1]


def lexed(ctx, text, label="tokens"):
    ctx.reach(label)
    given = text if type(text) is SymStr or not ctx.symbolic else SymStr.of(text)
    got = tokens(given)
    terms = terms_of(ctx, str(text))
    mode, at = "DEFAULT", 0
    for kind, content in got:
        n = len(content)
        what = f"{str(text)!r}: {got}: at {at} in mode {mode}"
        ctx.check(n > 0 and same_text(ctx, str(text)[at : at + n], content), label, f"{what}: {content!r} is not what comes next")
        rest = terms[at:]
        better, before, cond = [], [], []
        for pattern, k in MODES[mode]:
            found = prefixes(pattern, rest)
            better += [c for length, c in found.items() if length > n]
            if n not in found:
                continue
            if k == kind:
                cond.append(all_of(found[n], none_of(before)))
            else:
                before.append(found[n])
        good = all_of(any_of(cond), none_of(better))
        ctx.check(good, label, f"{what}: {kind} {content!r} is not the first longest token")
        at += n
        mode = next_mode(mode, kind)
    ctx.check(at == len(terms), label, f"{str(text)!r}: {got} is {at} of {len(terms)} characters")


def arbitrary(n):
    def run(ctx):
        lexed(ctx, str(ctx.string("c", n, EVERY, minlen=n)))

    return run


def over(before, alphabet, n, after=""):
    ranges = ranges_of(alphabet)

    def run(ctx):
        lexed(ctx, before + str(ctx.string("c", n, ranges, minlen=n)) + after)

    return run


def ranges_of(chars):
    out = []
    for c in sorted(map(ord, set(chars))):
        if out and out[-1][1] == c - 1:
            out[-1] = (out[-1][0], c)
        else:
            out.append((c, c))
    return out


ALPHABETS = {
    "number": ("", "0123456789.+-eE", ""), "number after a name": ("m", "0123456789.+-eE", ""), "date": ("s @ ", "0123456789:-+TZ. ", ""),
    "operators": ("", "*^/ ()@.-x2", ""), "log": ("l", "ogbn (re:", "re x)"), "per": ("a", " per/PER", "b"), "shift": ("a ", "sincerfatom@ ", "9"),
    "zone": ("s @ 1", "UTCGMZ 1", ""), "second zone": ("s@ 10:1", "0123456789:. TZ+-", ""),
}  # fmt: skip


def at_every_place(text):
    def run(ctx):
        i = ctx.choose("at", range(len(text) + 1))
        how = ctx.choose("how", ["insert", "replace"])
        if how == "replace" and i == len(text):
            raise Infeasible()
        c = str(ctx.string("c", 1, EVERY, minlen=1))
        lexed(ctx, text[:i] + c + text[i + (how == "replace") :])

    return run


def form(text):
    def run(ctx):
        f = Fresh(ctx)
        lexed(ctx, "".join(f.digits(1) if c == "d" else f.chars(1, PLAIN) if c == "a" else c for c in text))

    return run


# every part of a date, a clock and a packed timestamp with every digit in it
STAMPS = [
    "s @ d-d-dd", "s @ d-dd-d", "s @ 1-1-1 dd:d", "s @ 1 d:dd", "s @ 1 d:d:dd", "s @ d:1:dd.d", "s @ 1 dd:1:1", "s @ 1-1-1 +dd:d", "s @ 1Tdd", "s @ 1Tddd", "s @ 10Tdddd", "s @ 1Td6ddd",
    "s @ ddddTd", "s @ 1dddddT1", "s @ 2000ddddT1", "s @ -ddd-d-1", "s @ dd-dd-3d",
]  # fmt: skip


def cases(tier):
    t = tier == "thorough"
    for n in range(0, 4 if t else 3):
        yield Case(f"arbitrary[{n}]", arbitrary(n), ("tokens",))
    for name, (before, alphabet, after) in ALPHABETS.items():
        top = 3 if name in ("date", "operators") else 4
        for n in range(1, top + 2 if t else top + 1):
            yield Case(f"over[{name},{n}]", over(before, alphabet, n, after), ("tokens",), deadline=1500)
    for text in TEXTS if t else TEXTS[::3]:
        yield Case(f"with[{text}]", at_every_place(text), ("tokens",))
    for text in FORMS + list(CLOCKS) + STAMPS:
        yield Case(f"form[{text}]", form(text), ("tokens",))
