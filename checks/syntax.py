"""Unit texts with symbolic characters, next to the tree the grammar gives them."""
from __future__ import annotations

from symx.values import SymStr
from .common import *  # noqa: F401,F403
from pyudunits2._expr import graph

# identifier characters of the grammar, without those that are numbers' exponents
LATIN = [(0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF), (0xB0, 0xB0), (0xB5, 0xB5), (0x3C0, 0x3C0)]
IDCHARS = [(65, 90), (95, 95), (97, 122)] + LATIN
NOT_E = [(65, 68), (70, 90), (95, 95), (97, 100), (102, 122)] + LATIN
# characters the lexer has no keyword for: one solver query covers all of them
PLAIN = [(65, 68), (70, 70), (72, 79), (81, 83), (86, 89), (95, 95), (98, 100), (103, 107), (109, 111), (116, 122)]
DIGIT = [(48, 57)]
SUPER = dict(zip("0123456789+-", "⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻"))


class Tx:
    """A piece of text and its expected tree.

    tree: ('id', text) ('num', value) ('mul'|'div', a, b) ('pow', a, value)
          ('shift', a, value) ('log', function, a)
    end:  what the text ends in: 'id', 'digit', 'super', ')' or 'point'
    start: 'id', 'digit', 'sign', '(' , 'point', 'log'
    """

    def __init__(self, text, tree, start, end):
        self.text, self.tree, self.start, self.end = text, tree, start, end


class Fresh:
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def name(self):
        self.n += 1
        return f"x{self.n}"

    def chars(self, n, ranges):
        return str(self.ctx.string(self.name(), n, ranges, minlen=n))

    def digits(self, n):
        return self.chars(n, DIGIT)


def value_of(ctx, digits):
    """The integer a text of (symbolic) digits spells."""
    if not ctx.symbolic:
        return int(digits)
    r = z3.IntVal(0)
    for t in ctx._char_terms(digits):
        r = r * 10 + (t - 48)
    from symx.values import SymInt

    return SymInt._mk(r)


def ident(f, n=1, ranges=PLAIN):
    t = f.chars(n, ranges)
    return Tx(t, ("id", t), "id", "id")


def integer(f, n=1, sign=""):
    d = f.digits(n)
    v = value_of(f.ctx, d)
    return Tx(sign + d, ("num", -v if sign == "-" else v), "sign" if sign else "digit", "digit")


FLOATS = ["d.d", "d.", ".d", "dd.d", "d.dd", "ded", "de-d", "dE+d", "d.ded", "d.dE-d", ".de+d", "d.e-d", "de0d"]


def floating(f, form, sign=""):
    """A decimal literal; exponents are at most one symbolic digit."""
    ctx = f.ctx
    text, terms, scale = "", "", 0
    seen_point = False
    expo, eneg, edig = None, False, ""
    for ch in form:
        if ch == "d" or ch == "0":
            c = f.digits(1) if ch == "d" else "0"
            text += c
            if expo is None:
                terms += c
                scale -= seen_point
            else:
                edig += c
        else:
            text += ch
            if ch == ".":
                seen_point = True
            elif ch in "eE":
                expo = True
            elif ch == "-":
                eneg = True
    v = value_of(ctx, terms)
    e = value_of(ctx, edig) if edig else 0
    return Tx(sign + text, ("dec", v, scale, -e if eneg else e, sign == "-"), "sign" if sign else ("point" if form[0] == "." else "digit"), "point" if form[-1] == "." else "digit")


def power(f, b, how, sign="", n=1, supers="0123456789"):
    ctx = f.ctx
    if how == "super":
        ds = "".join(ctx.choose(f.name(), supers if i == 0 else "05") for i in range(n))
        v = int(ds)
        text = b.text + (SUPER[sign] if sign else "") + "".join(SUPER[d] for d in ds)
        return Tx(text, ("pow", b.tree, -v if sign == "-" else v), b.start, "super")
    d = f.digits(n)
    v = value_of(ctx, d)
    op = {"^": "^", "**": "**", "": ""}[how]
    return Tx(b.text + op + sign + d, ("pow", b.tree, -v if sign == "-" else v), b.start, "digit")


def bracket(x):
    return Tx("(" + x.text + ")", x.tree, "(", ")")


LOGS = ["lg(re ", "ln(re ", "lb(re ", "log(re ", "lg(re:", "lg(RE: ", "ln (re  ", "lb( re ", "log  (  RE:  "]


def logarithm(x, how):
    return Tx(how + x.text + ")", ("log", how.split("(")[0].strip(), x.tree), "log", ")")


MULS = [" ", "  ", "*", "·", "-", ".", ""]
DIVS = ["/", " / ", "/ ", " /", " per ", "  per  ", " PER "]
SHIFTS = [" @ ", "@", " since ", " from ", " after ", " ref ", "@ ", " @"]


def allowed(a, op, b):
    """May ``b`` follow ``a`` with this spelling of the operator?"""
    if op == "-":
        return b.start in ("id", "(", "log")
    if op == ".":
        # (after a digit the lexer reads the point as a decimal point: listed)
        return a.end in ("id", ")") and b.start in ("id", "(", "log") if a.end != ")" else False
    if op == "":
        if b.start in ("digit", "sign", "point"):
            return False
        if a.end == "id":
            return b.start == "("
        return b.start in ("(", "id") or (b.start == "log" and a.end != "id")
    return True


def product(a, op, b):
    kind = "div" if op.strip() in ("/", "per", "PER") else "mul"
    return Tx(a.text + op + b.text, (kind, a.tree, b.tree), a.start, b.end)


def shift(a, op, n):
    return Tx(a.text + op + n.text, ("shift", a.tree, n.tree), a.start, "digit")


def match(ctx, node, tree, label, detail):
    """The node has exactly this structure."""
    kind = tree[0]

    def bad(why):
        ctx.fail(label, f"{detail}: {why}: got {node!r}"[:600])

    cls = {
        "id": graph.Identifier,
        "num": graph.Number,
        "dec": graph.Number,
        "exact": graph.Number,
        "mul": graph.Multiply,
        "div": graph.Divide,
        "pow": graph.Raise,
        "shift": graph.Shift,
        "log": graph.Logarithm,
    }[kind]
    ctx.reach(label)
    if type(node) is not cls:
        bad(f"want {cls.__name__}")
    if kind == "id":
        if not same_text(ctx, node.name, tree[1]):
            bad("other name")
    elif kind == "num":
        number(ctx, node.value, tree[1], label, detail)
    elif kind == "dec":
        decimal_(ctx, node.value, tree, label, detail)
    elif kind == "exact":
        ok = isinstance(node.value, int) if tree[2] else not isinstance(node.value, float)
        ctx.check(ok and esym(node.value) == tree[1], label, f"{detail}: {node.value!r}")
    elif kind in ("mul", "div"):
        match(ctx, node.lhs, tree[1], label, detail)
        match(ctx, node.rhs, tree[2], label, detail)
    elif kind == "pow":
        match(ctx, node.lhs, tree[1], label, detail)
        if type(node.rhs) is not graph.Number:
            bad("exponent is no number")
        number(ctx, node.rhs.value, tree[2], label, detail)
    elif kind == "shift":
        match(ctx, node.unit, tree[1], label, detail)
        match(ctx, node.shift_from, tree[2], label, detail)
    else:
        if node.function != tree[1]:
            bad(f"want function {tree[1]}")
        match(ctx, node.term, tree[2], label, detail)


def number(ctx, got, want, label, detail):
    if not isinstance(got, int):
        return ctx.fail(label, f"{detail}: {got!r} is no integer")
    c = zi(got) == zi(want)
    ctx.check(c, label, f"{detail}: {got} is not {want}")


def decimal_(ctx, got, tree, label, detail):
    _, v, scale, e, neg = tree
    e = int(e)  # forks over the digit
    if neg:
        v = -v
    scale = sympy.Integer(10) ** (scale + e)
    ctx.same(esym(got), powsym(v) * scale, label, f"{detail}: {got}")
