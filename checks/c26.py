"""C26: expression trees are values, and traversals see every node once."""
from __future__ import annotations

import itertools

from symx.runner import Case
from .syntax import *  # noqa: F401,F403
from pyudunits2._expr.atoms import ExtractIdentifiers
from pyudunits2._expr.graph import Divide, Identifier, Logarithm, Multiply, Node, Number, Raise, Shift, Unhandled, Visitor
from pyudunits2._grammar import parse

PROPERTY = "C26"
BOUNDS = {
    "quick": "every ordered pair of 22 tree shapes of up to 3 operators whose names (1-2 characters), numbers (any integer or "
    "real) and texts are symbolic; 14 texts with symbolic characters, parsed twice and parsed in two spellings",
    "thorough": "every shape of up to 3 operators over 4 kinds of leaf (about 400), each against itself and 6 others",
}
OUTSIDE = ["numbers of equal value written differently (whether they are equal is left open)", "larger trees"]
ASSUMPTIONS = []
STUBS = ["names and numbers hash to a constant while they are symbolic"]

SHAPES = [
    "i", "n", "r", "u", "i*i", "i/i", "i^n", "n*i", "i@n", "i@u", "L(i)", "(i*i)*i", "i*(i*i)", "(i*i)/i", "i/(i*i)", "(i/n)^n",
    "(i^n)*i", "L(i*i)", "L(i)@n", "(i@n)*i", "n*L(i)", "L(L(i))",
]  # fmt: skip


class Plain:
    """A tree as nested tuples, with the node built from it."""

    def __init__(self, ctx, shape, key):
        self.ctx, self.n, self.key = ctx, 0, key
        self.raws = shape.count("n") + shape.count("r") == 1
        self.text, self.at = shape, 0
        self.tree = self.sum()
        self.node = self.build(self.tree)

    def name(self):
        self.n += 1
        return f"{self.key}{self.n}"

    def sum(self):
        a = self.atom()
        if self.at < len(self.text) and self.text[self.at] in "*/^@":
            op = self.text[self.at]
            self.at += 1
            return (op, a, self.atom())
        return a

    def atom(self):
        c = self.text[self.at]
        self.at += 1
        ctx, name = self.ctx, None
        if c == "(":
            r = self.sum()
            self.at += 1
            return r
        if c == "L":
            self.at += 1
            r = self.sum()
            self.at += 1
            return ("L", ctx.choose(self.name(), ["lg", "ln"]), r)
        if c == "i":
            return ("i", ctx.string(self.name(), 2, PLAIN, minlen=1) if self.n == 0 else ctx.string(self.name(), 1, PLAIN, minlen=1))
        if c == "n":
            return ("n", ctx.int(self.name()))
        if c == "r":
            return ("n", ctx.real(self.name()))
        return ("u", "2000-01-" + str(ctx.string(self.name(), 1, DIGIT, minlen=1)))

    def build(self, t):
        k = t[0]
        if k in "*/^@":
            cls = {"*": Multiply, "/": Divide, "^": Raise, "@": Shift}[k]
            return cls(self.build(t[1]), self.build(t[2]))
        if k == "L":
            return Logarithm(t[1], self.build(t[2]))
        if k == "i":
            return Identifier(t[1])
        if k == "n":
            # (a number may have been written in any way)
            return Number(t[1], raw_content=self.ctx.choose(self.name() + "raw", [None, "2"]) if self.raws else None)
        return Unhandled(T(self.ctx, t[1]))


def T(ctx, x):
    return SymStr.of(x) if ctx.symbolic else x


def operands(t):
    return [x for x in t[1:] if isinstance(x, tuple)]


def same_tree(ctx, a, b):
    """Whether the two trees are the same (forks on names and numbers)."""
    if a[0] != b[0]:
        return False
    if a[0] == "L" and a[1] != b[1]:
        return False
    if a[0] in "inu":
        if a[0] == "u":
            return same_text(ctx, a[1], b[1])
        return bool(a[1] == b[1])
    return all(same_tree(ctx, x, y) for x, y in zip(operands(a), operands(b)))


def raws(p):
    return [n.raw_content for n, t in nodes(p.node, p.tree) if t[0] == "n"]


class Everything(Visitor):
    def __init__(self):
        self.seen = []

    def generic_visit(self, node):
        self.seen.append(node)
        return super().generic_visit(node)


class Named(Visitor):
    """A method for every class but one."""

    def __init__(self, without):
        self.calls = []
        for n in ("Multiply", "Divide", "Raise", "Shift", "Logarithm", "Identifier", "Number", "Unhandled"):
            if n != without:
                setattr(self, "visit_" + n, lambda node, n=n: self.calls.append((n, node)) or n)

    def generic_visit(self, node):
        self.calls.append(("generic", node))
        return "generic"


def nodes(node, t):
    """Every node, with its tree: each before its operands, in order."""
    out = [(node, t)]
    names = {"*": ("lhs", "rhs"), "/": ("lhs", "rhs"), "^": ("lhs", "rhs"), "@": ("unit", "shift_from"), "L": ("term",)}.get(t[0], ())
    for n, x in zip(names, operands(t)):
        out += nodes(getattr(node, n), x)
    return out


def pairs(shape, others):
    def run(ctx):
        a = Plain(ctx, shape, "a")
        b = Plain(ctx, ctx.choose("other", others), "b")
        x, y = a.node, b.node
        want = same_tree(ctx, a.tree, b.tree)
        what = f"{x!r} and {y!r}"
        if want and raws(a) != raws(b):
            # the same numbers, not written alike: equal or not, but like their hashes
            want = bool(x == y)
        ctx.check(bool(x == y) == want, "equal", what)
        ctx.check(bool(y == x) == want, "equal", what)
        ctx.check(bool(x != y) == (not want), "equal", what)
        if want:
            ctx.check(hash(x) == hash(y), "hash", what)
        ctx.check((x in {y: 1}) == want, "equal", f"{what} as keys")

    return run


def traversal(shapes):
    def run(ctx):
        a = Plain(ctx, ctx.choose("shape", shapes), "a")
        x = a.node
        all_nodes = nodes(x, a.tree)
        for node, t in all_nodes:
            kids = node.children()
            mine = [getattr(node, n) for n in ("lhs", "rhs", "unit", "shift_from", "term") if hasattr(node, n)]
            ctx.check(len(kids) == len(mine) and all(p is q for p, q in zip(kids, mine)), "children", f"{node!r}: {kids!r}")
            kids.append(node)
            ctx.check(len(node.children()) == len(mine), "children", f"{node!r} changed through its children")
            for other in (None, 0, "i", t, object()):
                ctx.check((node == other) is False and node != other, "equal", f"{node!r} == {other!r}")
            ctx.check(bool(node == node), "equal", f"{node!r} differs from itself")
            for field in ("lhs", "rhs", "unit", "shift_from", "term", "function", "name", "value", "raw_content"):
                if hasattr(node, field):
                    try:
                        setattr(node, field, Identifier("other"))
                        ctx.fail("frozen", f"{type(node).__name__}.{field} can be set")
                    except (AttributeError, TypeError):
                        ctx.check(True, "frozen")
        v = Everything()
        v.visit(x)
        ctx.check(len(v.seen) == len(all_nodes) and all(p is q for p, (q, _) in zip(v.seen, all_nodes)), "visit", f"{x!r}: visits {v.seen!r}")
        for base in ("Node", "Terminal", "BinaryOp", "UnaryOp", "object"):
            v = Everything()
            setattr(v, "visit_" + base, lambda node: ctx.fail("visit", f"{node!r} given to the method for a {base}"))
            v.visit(x)
        for cls in ("Multiply", "Divide", "Raise", "Shift", "Logarithm", "Identifier", "Number", "Unhandled"):
            v = Named(cls)
            got = v.visit(x)
            want = "generic" if type(x).__name__ == cls else type(x).__name__
            ctx.check(got == want and len(v.calls) == 1 and v.calls[0][0] == want and v.calls[0][1] is x, "visit", f"{x!r}: {got}")
        found = list(ExtractIdentifiers().visit(x))
        mine = [n for n, t in all_nodes if t[0] == "i"]
        ctx.check(all(any(bool(p == q) for q in mine) for p in found), "identifiers", f"{x!r}: {found!r}")
        ctx.check(all(any(bool(p == q) for p in found) for q in mine), "identifiers", f"{x!r}: {found!r}")
        ctx.check(all(not bool(p == q) for p, q in itertools.combinations(found, 2)), "identifiers", f"{x!r}: {found!r} twice")

    return run


# a: identifier character, d: digit; the second spelling means the same
TEXTS = [
    ("a", " a "), ("a d", "a*d"), ("a^d", "a**d"), ("ad", "a^d"), ("a/a", "a per a"), ("a.a", "a·a"), ("(a)", "a"), ("a a a", "(a a) a"),
    ("a@d", "a since d"), ("lg(re a)", "lg(re: a)"), ("d.d a", "(d.d) a"), ("a-d", "a^-d"), ("a^d/a", "(a^d)/a"), ("lb(re d a)@d", "(lb(re d a))@d"),
]  # fmt: skip


def parsed(ctx):
    one, two = ctx.choose("texts", TEXTS)
    f = Fresh(ctx)
    chars = [f.digits(1) if c == "d" else f.chars(1, PLAIN) if c == "a" else None for c in one if c in "ad"]

    def fill(text):
        out, i = "", 0
        words = text.replace("per", "\0").replace("since", "\1")
        for c in words:
            if c in "ad":
                out += chars[i]
                i += 1
            else:
                out += c
        return out.replace("\0", "per").replace("\1", "since")

    # (once before: what the reading distinguishes is then known)
    parse(fill(one)), parse(fill(two))
    x, again, y = parse(fill(one)), parse(fill(one)), parse(fill(two))
    for other in (again, y):
        ctx.check(x is not other and bool(x == other), "parsed", f"{x!r} and {other!r}")
        ctx.check(hash(x) == hash(other), "parsed", f"{x!r} and {other!r}")


def all_shapes():
    leaves = ["i", "n", "r", "u"]
    out = list(leaves)
    grown = [f"{a}{op}{b}" for op in "*/" for a in "in" for b in "in"] + ["i^n", "i@n", "i@u", "L(i)", "L(n)"]
    out += grown
    for g in grown:
        out += [f"({g})*i", f"i*({g})", f"({g})/i", f"n/({g})", f"({g})^n", f"({g})@n", f"L({g})"]
    for g in [s for s in out[17:] if s.count("(") == 1][:90]:
        out += [f"({g})*i", f"n/({g})", f"L({g})"]
    return out


def cases(tier):
    t = tier == "thorough"
    if t:
        shapes = all_shapes()
        for i, s in enumerate(shapes):
            yield Case(f"pairs[{s}]", pairs(s, [s] + [shapes[(i * 7 + k * 13 + 1) % len(shapes)] for k in range(6)]), ("equal",))
        for i in range(0, len(shapes), 20):
            yield Case(f"traversal[{i}]", traversal(shapes[i : i + 20]), ("visit", "children", "frozen"))
    else:
        for s in SHAPES:
            yield Case(f"pairs[{s}]", pairs(s, SHAPES), ("equal",))
        yield Case("traversal", traversal(SHAPES), ("visit", "children", "identifiers", "frozen"))
    yield Case("parsed", parsed, ("parsed",))
