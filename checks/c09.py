"""C09: registration is all-or-nothing and makes every text reachable."""
from __future__ import annotations

from symx.runner import Case
from .registry import *  # noqa: F401,F403

PROPERTY = "C09"
BOUNDS = {
    "quick": "histories of 2 and 3 registrations (any replace flags) of units with a name, plural, up to 2 symbols, an "
    "alias name with plural and an alias symbol, each text 1 character (any code point) in every pattern of "
    "coincidence; then any text of 1 character looked up",
    "thorough": "as quick with texts of 1-2 characters and histories of 3 full units",
}
OUTSIDE = ["longer texts and histories"]
ASSUMPTIONS = []
STUBS = ["the system's own dictionaries compare symbolic keys through the solver"]

SHAPES = {
    "name": ("name",),
    "plural": ("name", "plural"),
    "symbol": ("symbols",),
    "two symbols": ("symbols", "symbols"),
    "name+symbol": ("name", "symbols"),
    "alias": ("anames",),
    "alias pl": ("aplural",),
    "alias symbol": ("asymbols",),
    "all": ("name", "plural", "symbols", "aplural", "asymbols"),
    "nothing": (),
}


def kwargs(ctx, shape, tag, L):
    kw, model = {}, {}
    for i, part in enumerate(SHAPES[shape]):
        t = ctx.string(f"{tag}.{part}{i}", L, minlen=1)
        if part in ("name", "plural"):
            kw[part] = model[part] = t
        elif part == "aplural":
            p = ctx.string(f"{tag}.pl{i}", L, minlen=1)
            kw.setdefault("anames", []).append(Name(singular=t, plural=p))
            model.setdefault("anames", []).extend([t, p])
        else:
            kw.setdefault(part, []).append(t)
            model.setdefault(part, []).append(t)
    return kw, model


def texts(model):
    for v in model.values():
        yield from v if isinstance(v, list) else [v]


def history(shapes, L, QL=None):
    def run(ctx):
        s, m = fresh(ctx)
        own = []
        for i, shape in enumerate(shapes):
            scale = (3, 5, 7, 11)[i]
            kw, mkw = kwargs(ctx, shape, f"u{i}", L)
            replace = ctx.choose(f"replace{i}", [False, True])
            want = m.add(scale, replace=replace, **mkw)
            unit = unit_def(s, scale, **kw)
            try:
                if replace:
                    s.add_unit(unit, replace=True)
                else:
                    s.add_unit(unit)
                got = True
            except ValueError:
                got = False
            ctx.check(got == want, "accepted", f"registration {i} ({shape}): accepted {got}, want {want}")
            own = list(texts(mkw)) if want else own
        # any text at all, the registered ones among them
        q = ctx.string("q", L, minlen=1)
        judge(ctx, s, m, q, "meaning")

    return run


def reachable(shape, L):
    """In a fresh system every declared text reaches the unit."""

    def run(ctx):
        s, m = fresh(ctx)
        kw, mkw = kwargs(ctx, shape, "u", L)
        s.add_unit(unit_def(s, 3, **kw))
        for t in texts(mkw):
            ctx.check(look(s, t) == 3, "reachable", f"{shape}: {show(ctx, t)}")
        ctx.check(look(s, T(ctx, "meter")) == 1, "reachable", "the basis unit")
        ctx.check(look(s, T(ctx, "meters")) == 1, "reachable", "the basis unit's plural")

    return run


def basis_units(ctx):
    """Basis units are registered under the same rules."""
    s, m = fresh(ctx)
    n, p, y = (ctx.string(x, 1, minlen=1) for x in "npy")
    how = ctx.choose("how", ["name", "name+plural", "symbol only", "all"])
    ref = UnitReference(
        name=None if how == "symbol only" else Name(singular=n, plural=p if how in ("name+plural", "all") else None),
        symbols=(y,) if how in ("symbol only", "all") else (),
    )
    b = BasisUnit(names=ref)
    s.add_unit(b)
    mine = {"name": [n], "name+plural": [n, p], "symbol only": [y], "all": [n, p, y]}[how]
    for t in mine:
        ctx.check(s.unit_by_name_or_symbol(t) is b, "basis", f"{how}: {show(ctx, t)}")
    q = ctx.string("q", 1, minlen=1)
    known = any(q == t for t in mine)
    try:
        got = s.unit_by_name_or_symbol(q) is b
    except UnresolvableUnitException:
        got = False
    ctx.check(got == known, "basis", f"{how}: {show(ctx, q)}")
    try:
        s.add_unit(b)
        again = True
    except ValueError:
        again = False
    ctx.check(not again, "basis", "registered twice")


def prefixes(ctx):
    """Registering a prefix changes no exact name, and its own texts only."""
    s, m = fresh(ctx)
    u = ctx.string("u", 2, minlen=1)
    s.add_unit(unit_def(s, 3, name=u))
    m.add(3, name=u)
    p, y = ctx.string("p", 1, minlen=1), ctx.string("y", 1, minlen=1)
    q = ctx.string("q", 3, minlen=1)
    before = look(s, q)
    s.add_prefix(Prefix(name=p, value="1000", symbols=(y,)))
    m.prefix(1000, p, (y,))
    if before is not None:
        ctx.check(look(s, q) == before, "prefixes", f"{show(ctx, q)} changed")
    judge(ctx, s, m, q, "prefixes")


def cases(tier):
    L = 1 if tier == "quick" else 2
    for shape in SHAPES:
        yield Case(f"reachable[{shape}]", reachable(shape, L), ("reachable",))
    one = [x for x in SHAPES if x not in ("all", "nothing")]
    for a in one + ["nothing"]:
        for b in one:
            yield Case(f"two[{a}|{b}]", history([a, b], L), ("accepted", "meaning"))
    for a in ("name+symbol", "plural", "alias", "alias symbol"):
        yield Case(f"two[{a}|all]", history([a, "all"], 1), ("accepted", "meaning"))
        yield Case(f"two[all|{a}]", history(["all", a], 1), ("accepted", "meaning"))
    for a in ("name", "symbol", "alias"):
        for b in ("name+symbol", "alias", "plural"):
            yield Case(f"three[{a}|{b}]", history([a, b, "name+symbol"], 1), ("accepted", "meaning"))
    yield Case("basis", basis_units, ("basis",))
    yield Case("prefixes", prefixes, ("prefixes",))
    if tier == "thorough":
        yield Case("three[all]", history(["name+symbol", "all", "plural"], 1), ("accepted", "meaning"))
        yield Case("two[all|all]", history(["all", "all"], 1), ("accepted", "meaning"))
