"""C27: the parser accepts exactly the sentences of the token grammar, and reads them its way."""
from __future__ import annotations

import z3

from symx.runner import Case
from symx.tokens import TokType, parser_on_tokens
from .syntax import *  # noqa: F401,F403
import pyudunits2._grammar as grammar
from pyudunits2._grammar._antlr4_runtime import InputStream
from pyudunits2._grammar._antlr4_runtime.Token import CommonToken
from pyudunits2._grammar.parser.udunits2Lexer import udunits2Lexer as Lexer
from pyudunits2._grammar.parser.udunits2Parser import udunits2Parser as Parser

PROPERTY = "C27"
BOUNDS = {
    "quick": "every sequence of up to 5 tokens of any of the 27 kinds; 10 longer frames (brackets, logarithms, shifts, dates with "
    "a clock and a zone) with 3 tokens of any kind in them",
    "thorough": "every sequence of up to 6 tokens; the frames with 4 tokens",
}
OUTSIDE = ["longer sequences", "which sequences the lexer makes of a text (C25, C28)"]
ASSUMPTIONS = []
STUBS = [
    "the lexer is replaced by a list of tokens whose kinds are symbolic; each kind has a fixed text",
    "the parser's prediction tables are consulted once for all the kinds they treat alike (computed from their transitions)",
]

KINDS = {
    "SIGNED_INT": "-{}", "PLUS": "+", "MULTIPLY": "*", "DIVIDE": "/", "PERIOD": ".", "OPEN_PAREN": "(", "CLOSE_PAREN": ")",
    "SEMICOLON": ":", "INT": "{}", "E_POWER": "e{}", "FLOAT": "{}.5", "SHIFT_OP": "@", "UNICODE_EXPONENT": "²", "RAISE": "^",
    "LOG": "lg(re ", "ID": "u{}", "LATIN_SUBSET": "µ", "WS": " ", "ERRORCHARACTER": "!", "TIMEZONE": "UTC", "TZ": "TZ",
    "HOUR_MINUTE_SECOND": "{}:10:11", "HOUR_MINUTE": "{}:12", "M_MINUS": "-", "DATE": "200{}-1-1", "T": "T", "TIMESTAMP": "200{}T1",
}  # fmt: skip
TYPE = {k: getattr(Parser, k) for k in KINDS}
NAME = {v: k for k, v in TYPE.items()}
INTEGER = ("INT", "SIGNED_INT")
ZONE = INTEGER + ("HOUR_MINUTE", "TIMEZONE")


class Tok(CommonToken):
    def __init__(self, kind, i, source):
        super().__init__(type=kind, start=i, stop=i)
        self.line, self.column, self.i, self.from_ = 1, i, i, source

    @property
    def text(self):
        if type(self.type) is TokType and self.from_.parsing and len(self.type.left()) > 1:
            return f"<{self.i}>"  # in a message
        if self.type == -1:
            return "<EOF>"
        return KINDS[NAME[int(self.type)]].format(self.i + 2)

    @text.setter
    def text(self, v):
        pass


class Source:
    """In the lexer's place."""

    line, column, text = 1, 0, ""

    def __init__(self, kinds):
        self.parsing = False
        self.toks = [Tok(k, i, self) for i, k in enumerate(list(kinds) + [-1])]
        self.at = 0
        self._tokenFactorySourcePair = (self, None)

    def nextToken(self):
        t = self.toks[min(self.at, len(self.toks) - 1)]
        self.at += 1
        return t

    def getInputStream(self):
        return InputStream("")

    def getSourceName(self):
        return "tokens"


def run_parser(kinds):
    """What the library's parse makes of these tokens: (tree, the source)."""
    src = Source(kinds)
    spec = Parser.unit_spec

    def unit_spec(self, *a, **k):
        src.parsing = True
        r = spec(self, *a, **k)
        src.parsing = False
        return r

    old = Lexer.nextToken
    Lexer.nextToken = lambda self: src.nextToken()  # whichever way the library comes by its lexer
    Parser.unit_spec = unit_spec
    try:
        with parser_on_tokens():
            try:
                return grammar.parse("tokens"), src
            except SyntaxError:
                return None, src
    finally:
        Lexer.nextToken = old
        Parser.unit_spec = spec


# -- the grammar, once as a formula over the kinds ------------------------------
FORMULAS = {}


def sentence(terms):
    """The condition for the tokens to be a unit_spec."""
    key = tuple(t.sexpr() for t in terms)
    if key not in FORMULAS:
        FORMULAS[key] = condition(terms)
    return FORMULAS[key]


def condition(terms):
    n = len(terms)
    memo = {}
    T, F = z3.BoolVal(True), z3.BoolVal(False)

    def tok(i, *names):
        return z3.Or([terms[i] == TYPE[x] for x in names]) if i < n else F

    def rule(f):
        def at(i, j):
            key = (f.__name__, i, j)
            if key not in memo:
                memo[key] = z3.simplify(f(i, j)) if i <= j else F
            return memo[key]

        return at

    def cat(i, j, *parts):
        """The parts in sequence match i..j; a part is a rule, or kinds of token (with ? or + for optional or repeated)."""
        now = {i: T}
        for p in parts:
            nxt = {}
            for a, c in now.items():
                if callable(p):
                    for b in range(a, j + 1):
                        nxt.setdefault(b, []).append(z3.And(c, p(a, b)))
                    continue
                names = [x.rstrip("?+") for x in p]
                if p[0].endswith("?"):
                    nxt.setdefault(a, []).append(c)
                d, b = c, a
                while b < j:
                    d = z3.And(d, tok(b, *names))
                    b += 1
                    nxt.setdefault(b, []).append(d)
                    if not p[0].endswith("+"):
                        break
            now = {}
            for b, cs in nxt.items():
                c = z3.simplify(z3.Or(cs))
                if not z3.is_false(c):
                    now[b] = c
        return now.get(j, F)

    @rule
    def integer(i, j):
        return tok(i, *INTEGER) if j == i + 1 else F

    @rule
    def number(i, j):
        return tok(i, "FLOAT", *INTEGER) if j == i + 1 else F

    @rule
    def basic(i, j):
        one = tok(i, "ID") if j == i + 1 else F
        return z3.Or(one, number(i, j), cat(i, j, ("OPEN_PAREN",), shift, ("CLOSE_PAREN",)) if j > i + 2 else F)

    @rule
    def logarithm(i, j):
        return z3.Or(basic(i, j), cat(i, j, ("LOG",), shift, ("CLOSE_PAREN",)) if j > i + 2 else F)

    @rule
    def power(i, j):
        if j == i:
            return F
        return z3.Or(
            logarithm(i, j), cat(i, j, logarithm, integer), cat(i, j, logarithm, ("RAISE",), integer), cat(i, j, logarithm, ("UNICODE_EXPONENT",))
        )

    @rule
    def product(i, j):
        if j == i:
            return F
        out = [power(i, j)]
        for k in range(i + 1, j):
            left = product(i, k)
            if z3.is_false(left):
                continue
            out.append(z3.And(left, power(k, j)))
            out.append(z3.And(left, cat(k, j, ("MULTIPLY",), power)))
            out.append(z3.And(left, cat(k, j, ("DIVIDE",), power)))
            out.append(z3.And(left, cat(k, j, ("WS+",), power)))
        return z3.Or(out)

    @rule
    def timestamp(i, j):
        day = ("DATE",) + INTEGER
        clock = ("HOUR_MINUTE_SECOND", "HOUR_MINUTE") + INTEGER
        return z3.Or(
            cat(i, j, day),
            cat(i, j, day, ("WS?", "T?"), clock),
            cat(i, j, day, ("WS?", "T?"), clock, ("WS?",), tuple(z + "?" for z in ZONE)),
            cat(i, j, INTEGER, tuple(z + "?" for z in ZONE)),
            cat(i, j, ("TIMESTAMP",), ("WS?",), tuple(z + "?" for z in ZONE)),
            cat(i, j, day, ("WS?",), ("TIMEZONE", "TZ")),
        )

    @rule
    def shift(i, j):
        if j == i:
            return F
        op = (("WS?",), ("SHIFT_OP",), ("WS?",))
        return z3.Or(product(i, j), cat(i, j, product, *op, number), cat(i, j, product, *op, timestamp))

    return z3.simplify(shift(0, n)) if n else T


# -- and once as a reader: the first reading in the order of the alternatives ---
def reading(names, texts):
    n = len(names)

    def is_(i, *ks):
        return i < n and names[i] in ks

    # each reader yields (tree, end), in order of preference
    def num(i):
        if is_(i, *INTEGER):
            yield ("num", int(texts[i])), i + 1
        elif is_(i, "FLOAT"):
            yield ("num", float(texts[i])), i + 1

    def basic(i):
        if is_(i, "ID"):
            yield ("id", texts[i]), i + 1
        elif is_(i, "OPEN_PAREN"):
            for t, j in shift(i + 1):
                if is_(j, "CLOSE_PAREN"):
                    yield t, j + 1
        else:
            yield from num(i)

    def log(i):
        if is_(i, "LOG"):
            for t, j in shift(i + 1):
                if is_(j, "CLOSE_PAREN"):
                    yield ("log", "lg", t), j + 1
        else:
            yield from basic(i)

    def power(i):
        for t, j in log(i):
            if is_(j, *INTEGER):
                yield ("pow", t, int(texts[j])), j + 1
        for t, j in log(i):
            yield t, j
        for t, j in log(i):
            if is_(j, "RAISE") and is_(j + 1, *INTEGER):
                yield ("pow", t, int(texts[j + 1])), j + 2
        for t, j in log(i):
            if is_(j, "UNICODE_EXPONENT"):
                yield ("pow", t, 2), j + 1

    def more(t, i):
        for u, j in power(i):
            yield from more(("mul", t, u), j)
        if is_(i, "MULTIPLY"):
            for u, j in power(i + 1):
                yield from more(("mul", t, u), j)
        if is_(i, "DIVIDE"):
            for u, j in power(i + 1):
                yield from more(("div", t, u), j)
        k = i
        while is_(k, "WS"):
            k += 1
        if k > i:
            for u, j in power(k):
                yield from more(("mul", t, u), j)
        yield t, i

    def product(i):
        for t, j in power(i):
            yield from more(t, j)

    def maybe(i, *ks):
        if is_(i, *ks):
            yield i + 1
        yield i

    def one(i, *ks):
        if is_(i, *ks):
            yield i + 1

    def stamps(i):
        for j in one(i, "DATE", *INTEGER):
            yield j
            for k in maybe(j, "WS", "T"):
                for m in one(k, "HOUR_MINUTE_SECOND", "HOUR_MINUTE", *INTEGER):
                    for w in maybe(m, "WS"):
                        yield from maybe(w, *ZONE)
            for w in maybe(j, "WS"):
                yield from one(w, "TIMEZONE", "TZ")
        for j in one(i, *INTEGER):
            yield from maybe(j, *ZONE)
        for j in one(i, "TIMESTAMP"):
            for w in maybe(j, "WS"):
                yield from maybe(w, *ZONE)

    def shift(i):
        for t, j in product(i):
            yield t, j
        ends = []
        for t, j in product(i):
            for a in maybe(j, "WS"):
                for b in one(a, "SHIFT_OP"):
                    for c in maybe(b, "WS"):
                        ends.append((t, c))
        for t, c in ends:
            for x, e in num(c):
                yield ("shift", t, x), e
        for t, c in ends:
            for e in stamps(c):
                yield ("shift", t, ("text", "".join(texts[c:e]))), e

    if n == 0:
        return ("text", "")
    for t, j in shift(0):
        if j == n:
            return t
    return None


def plain(node):
    kind = type(node).__name__
    if kind == "Identifier":
        return ("id", str(node))
    if kind == "Number":
        v = node.value
        return ("num", int(v) if type(v) is int else float(v))
    if kind == "Unhandled":
        return ("text", str(node))
    if kind == "Raise":
        p = plain(node.rhs)
        return ("pow", plain(node.lhs), p[1] if p[0] == "num" else p)
    if kind in ("Multiply", "Divide"):
        return ({"Multiply": "mul", "Divide": "div"}[kind], plain(node.lhs), plain(node.rhs))
    if kind == "Shift":
        return ("shift", plain(node.unit), plain(node.shift_from))
    if kind == "Logarithm":
        return ("log", node.function, plain(node.term))
    return (kind,)


def judge(ctx, kinds, label):
    """kinds: token types, symbolic or not."""
    terms = [k.term if type(k) is TokType else z3.IntVal(k) for k in kinds]
    tree, src = run_parser(kinds)
    ctx.reach(label)
    if tree is None:
        good = sentence(terms)
        cond = z3.simplify(z3.Not(good))
        what = "a sentence of the grammar is refused"
        ctx.check(cond if ctx.symbolic else z3.is_true(cond), label, f"{what}: {[show(k) for k in kinds]}")
        return
    names = [NAME[int(t.type)] for t in src.toks[:-1]]
    texts = [t.text for t in src.toks[:-1]]
    want, got = reading(names, texts), plain(tree)
    ctx.check(want is not None, label, f"accepted, but no sentence of the grammar: {names}")
    ctx.check(got == want, label, f"{names} {''.join(texts)!r} is read as {got}, not {want}")


def show(k):
    return [NAME[v] for v in k.left()] if type(k) is TokType else NAME[k]


def fresh(ctx, name, values):
    if not ctx.symbolic:
        return ctx.int(name, min(values), max(values))
    v = ctx.int(name, min(values), max(values))
    term = getattr(v, "_z", v)
    return TokType(term, values)


EVERY = sorted(NAME)


def sequences(n, first=None):
    def run(ctx):
        kinds = [] if first is None else [TYPE[first]]
        kinds += [fresh(ctx, f"t{i}", EVERY) for i in range(len(kinds), n)]
        judge(ctx, kinds, "sentence")

    return run


FRAMES = [
    "ID OPEN_PAREN ? ? ? CLOSE_PAREN", "LOG ? ? ? CLOSE_PAREN", "OPEN_PAREN LOG ID CLOSE_PAREN ? ? ? CLOSE_PAREN", "ID ? ID ? ID ? ID",
    "ID SHIFT_OP ? ? ?", "ID WS SHIFT_OP WS ? ? ?", "ID SHIFT_OP DATE ? ? ?", "ID SHIFT_OP DATE WS HOUR_MINUTE ? ? ?",
    "ID SHIFT_OP TIMESTAMP ? ? ?", "OPEN_PAREN ID SHIFT_OP ? ? ? CLOSE_PAREN ID", "ID INT ? ? ? INT", "ID WS WS ? ? WS ? ID",
]  # fmt: skip


def framed(frame):
    def run(ctx):
        kinds = [fresh(ctx, f"t{i}", EVERY) if k == "?" else TYPE[k] for i, k in enumerate(frame.split())]
        judge(ctx, kinds, "sentence")

    return run


STARTS = ("SIGNED_INT", "OPEN_PAREN", "INT", "FLOAT", "LOG", "ID")


def cases(tier):
    t = tier == "thorough"
    top = 6 if t else 5
    for n in range(0, 4):
        yield Case(f"sequences[{n}]", sequences(n), ("sentence",))
    for n in range(4, top + 1):
        for first in KINDS:
            if first in STARTS or n == 4:
                yield Case(f"sequences[{n},{first}]", sequences(n, first), ("sentence",), deadline=1500)
    for frame in FRAMES:
        if t and "? ? ?" in frame:
            frame = frame.replace("? ? ?", "? ? ? ?")
        yield Case(f"frame[{frame}]", framed(frame), ("sentence",), deadline=1500)
