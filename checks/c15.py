"""C15: expanding an expression preserves the product it rewrites."""
from __future__ import annotations

from symx.runner import Case
from .common import *  # noqa: F401,F403
from pyudunits2._expr import graph
from pyudunits2._expr.expander import Expander

PROPERTY = "C15"
BOUNDS = {
    "quick": "products of 4 powers of identifiers and of 3 factors, each one of 3 identifiers to any integer power or a number (any integer, any decimal, "
    "any of 4 literals) to the power -2..2; expression trees of depth 3 (products, quotients, powers) with symbolic "
    "exponents at two levels; both sides of a shift; 10 pairs of similar names interleaved in 6 ways",
    "thorough": "products of 5 powers of identifiers and of 4 factors, trees of depth 4",
}
OUTSIDE = ["offsets nested in products, powers or other offsets (the expander does not define them)", "logarithms and dates (refused)"]
ASSUMPTIONS = ["numbers are exact reals and not zero when raised to a negative power"]

IDS = ["a", "b", "a2"]


def num_node(v):
    return graph.Number(v, raw_content=None)


def flat(node, n, ids, value):
    """Total powers of the identifiers and the numeric factor of a graph."""
    t = type(node).__name__
    if t == "Multiply":
        value = flat(node.lhs, n, ids, value)
        return flat(node.rhs, n, ids, value)
    if t == "Divide":
        value = flat(node.lhs, n, ids, value)
        return flat(node.rhs, -n, ids, value)
    if t == "Raise":
        return flat(node.lhs, n * node.rhs.value, ids, value)
    if t == "Identifier":
        ids.append((node.name, n))
        return value
    if t == "Number":
        return value * val(node.value) ** powsym(n)
    raise AssertionError(f"unexpected {t}")


def val(x):
    if type(x) is float:
        # (exactly the number the float holds)
        return sympy.Rational(*x.as_integer_ratio())
    return powsym(x) if hasattr(x, "_z") and not hasattr(x, "e") else esym(x)


def totals(node):
    ids = []
    value = flat(node, 1, ids, sympy.Integer(1))
    out = {}
    for k, n in ids:
        out[k] = out.get(k, 0) + n
    return out, value, ids


def judge_product(ctx, got, node, label, detail):
    want, value, _ = totals(node)
    have, number, ids = totals(got)
    names = [k for k, _ in ids]
    ctx.check(len(names) == len(set(names)), label + ": once", f"{detail} -> {got}")
    conds = []
    for k in set(want) | set(have):
        w, h = zi(want.get(k, 0)), zi(have.get(k, 0))
        conds.append(w == h)
        if k in have:
            conds.append(h != 0)
    conds = [c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds] + [z3.BoolVal(True)]
    ok = z3.And(conds)
    ctx.check(ok if ctx.symbolic else z3.is_true(z3.simplify(ok)), label + ": powers", f"{detail} -> {got}")
    ctx.same(number, value, label + ": number", f"{detail} -> {got}")
    if number.is_Rational and value.is_Rational and not decimals(node):
        # (decimals round to 28 digits; integers are exact)
        ctx.check(number == value, label + ": number", f"{detail} -> {got}: {number} instead of {value}")


def decimals(node):
    if type(node).__name__ == "Number":
        return not isinstance(node.value, int)
    return any(decimals(c) for c in node.children())


def judge(ctx, node, label="product"):
    ctx.int_text = "name"
    shown = str(node)
    got = Expander().visit(node)
    judge_product(ctx, got, node, label, shown)
    ctx.check(str(node) == shown, label + ": input kept", shown)
    return got


def atom(ctx, tag, kinds):
    kind = ctx.choose(tag, kinds)
    if kind in IDS:
        return graph.Identifier(kind), True
    if kind == "int":
        i = ctx.int("i" + tag[-1])
        ctx.assume(zi(i) != 0 if ctx.symbolic else int(i) != 0)
        return num_node(i), False
    if kind == "dec":
        return num_node(ctx.real("r" + tag[-1], nonzero=True)), False
    from decimal import Decimal

    if "." in kind:
        from symx.values import SymDec

        return num_node(SymDec.lift(Decimal(kind)) if ctx.symbolic else Decimal(kind)), False
    return num_node(int(kind)), False


def power(ctx, node, tag, free, n):
    """The node to a power (any integer for an identifier)."""
    if free:
        how = ctx.choose(tag + "p", ["1", "n"])
        if how == "1":
            return node
        e = ctx.int(how + str(n))
    else:
        e = ctx.choose(tag + "q", [1, -1, 2, 0, -2])
        if e == 1:
            return node
    return graph.Raise(node, num_node(e))


KINDS = IDS + ["int", "dec", "2", "7", "2.5"]


def chain(first, n):
    def run(ctx):
        node = None
        for i in range(n):
            kinds = [first] if i == 0 else KINDS if i == 1 else ["a", "b", "3"] if i < 3 else ["a", "b"]
            leaf, free = atom(ctx, f"f{i}", kinds)
            x = power(ctx, leaf, f"f{i}", free, i) if i < 2 or free and i < 4 else leaf
            over = i < 3 and not (i == 2 and free) and ctx.choose(f"op{i}", [0, 1]) if i else 0
            node = x if node is None else (graph.Divide if over else graph.Multiply)(node, x)
        judge(ctx, node)

    return run


def identifiers(n):
    """A product of powers of two identifiers, grouped either way."""

    def run(ctx):
        node = None
        for i in range(n):
            leaf = graph.Identifier(ctx.choose(f"f{i}", ["b", "a"]))
            x = graph.Raise(leaf, num_node(ctx.int(f"n{i}"))) if i < n - 1 else leaf
            node = x if node is None else graph.Divide(x, node) if i == 2 else graph.Multiply(node, x)
        judge(ctx, node)

    return run


def order(ctx):
    """The same factors in any order give the same text."""
    ctx.int_text = "name"
    fs = []
    for i in range(3):
        leaf = graph.Identifier(ctx.choose(f"f{i}", IDS))
        fs.append(graph.Raise(leaf, num_node(ctx.int(f"n{i}"))) if i < 2 else leaf)
    perm = ctx.choose("perm", [(0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0)])
    a = graph.Multiply(graph.Multiply(fs[0], fs[1]), fs[2])
    b = graph.Multiply(fs[perm[0]], graph.Multiply(fs[perm[1]], fs[perm[2]]))
    ga, gb = Expander().visit(a), Expander().visit(b)
    (da, _, ia), (db, _, ib) = totals(ga), totals(gb)
    ctx.check([k for k, _ in ia] == [k for k, _ in ib], "order", f"{a} -> {ga}, {b} -> {gb}")
    for k in da:
        c = zi(da[k]) == zi(db[k])
        ctx.check(c, "order", f"{a} -> {ga}, {b} -> {gb}")
    judge_product(ctx, gb, b, "order", str(b))


#: Names which are easily taken for each other (or for a number).
PAIRS = [("a", "A"), ("a", "aa"), ("a", "b"), ("µm", "μm"), ("s", "ſ"), ("a1", "a10"), ("é", "e"), ("Int", "int"), ("a", "a_"), ("_", "2")]


def names(ctx):
    """Different names stay apart and equal ones come together."""
    x, y = ctx.choose("pair", PAIRS)
    pattern = ctx.choose("pattern", ["xyx", "yxy", "xyyx", "xyxy", "x2x", "x2y2x"])
    node = None
    for i, ch in enumerate(pattern):
        leaf = num_node(2) if ch == "2" else graph.Identifier(x if ch == "x" else y)
        if i < 2 and ch != "2":
            leaf = graph.Raise(leaf, num_node(ctx.int(f"n{i}")))
        over = i == 2 and ctx.choose("over", [0, 1])
        node = leaf if node is None else (graph.Divide if over else graph.Multiply)(node, leaf)
    judge(ctx, node, "names")


def trees(top, depth):
    def build(ctx, d, tag):
        kind = ctx.choose(tag, (["a", "b", "3"] + (["mul", "div", "pow"] if d else [])) if tag != "t" else [top])
        if kind in ("a", "b"):
            return graph.Identifier(kind), False
        if kind == "3":
            return num_node(3), True
        l, nl = build(ctx, d - 1, tag + "l")
        if kind == "pow":
            e = ctx.choose(tag + "e", [-1, 2, 0]) if nl else ctx.int("n" if len(tag) < 2 else "k")
            return graph.Raise(l, num_node(e)), nl
        r, nr = build(ctx, max(d - 2, 0), tag + "r")
        return (graph.Multiply if kind == "mul" else graph.Divide)(l, r), nl or nr

    def run(ctx):
        node, _ = build(ctx, depth, "t")
        judge(ctx, node, "tree")

    return run


def shifted(ctx):
    """The two sides of a shift are expanded on their own."""
    unit, off = [], []
    u = graph.Multiply(
        graph.Raise(graph.Identifier("a"), num_node(ctx.int("n"))),
        graph.Divide(graph.Identifier(ctx.choose("x", IDS)), graph.Raise(graph.Identifier("b"), num_node(ctx.int("k")))),
    )
    kind = ctx.choose("by", ["int", "dec", "product"])
    if kind == "int":
        o = num_node(ctx.int("i"))
    elif kind == "dec":
        o = num_node(ctx.real("r"))
    else:
        o = graph.Divide(graph.Raise(graph.Identifier("a"), num_node(2)), num_node(5))
    got = Expander().visit(graph.Shift(u, o))
    ctx.check(type(got).__name__ == "Shift", "shift", str(got))
    judge_product(ctx, got.unit, u, "shift", str(u))
    judge_product(ctx, got.shift_from, o, "shift", str(o))


def refused(ctx):
    """What the expander does not define is refused, never dropped."""
    from pyudunits2._grammar import parse

    text = ctx.choose("text", ["lg(re m)", "2 ln(re a)", "s since 2000-01-01", "a/lb(re b)", "a (s @ 2000-01-01)"])
    ctx.reach("refused")
    try:
        got = Expander().visit(parse(text))
    except NotImplementedError:
        return
    ctx.fail("refused", f"{text}: {got}")


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for first in KINDS:
        yield Case(f"chain[{first}]", chain(first, n), ("product: powers", "product: number", "product: once"), deadline=1500)
    for top in ("mul", "div", "pow"):
        yield Case(f"tree[{top}]", trees(top, 4 if tier == "thorough" else 3), ("tree: powers", "tree: number"), deadline=1500)
    yield Case("identifiers", identifiers(5 if tier == "thorough" else 4), ("product: powers",), deadline=1500)
    yield Case("names", names, ("names: powers", "names: once"))
    yield Case("order", order, ("order",))
    yield Case("shift", shifted, ("shift: powers",))
    yield Case("refused", refused, ("refused",))
