"""C08: exact names first, then one prefix and exactly one name."""
from __future__ import annotations

from symx.runner import Case
from .registry import *  # noqa: F401,F403

PROPERTY = "C08"
BOUNDS = {
    "quick": "names, plurals, symbols and aliases of up to 2 units (1-3 characters, any code points), up to 2 prefixes "
    "(names and symbols, 1-3 characters), looked-up texts of 1-6 characters, every code point, in every pattern of "
    "coincidence between them; texts of up to 3 letters through the unit parser",
    "thorough": "as quick with up to 4 characters per name and 8 in the looked-up text",
}
OUTSIDE = ["names longer than the bound", "empty names or prefixes"]
ASSUMPTIONS = []
STUBS = ["the system's own dictionaries compare symbolic keys through the solver"]


def S(ctx, name, n, lo=1):
    return ctx.string(name, n, minlen=lo)


def setup(ctx, *adds):
    s, m = fresh(ctx)
    return s, m


def add(ctx, s, m, scale, **kw):
    try:
        s.add_unit(unit_def(s, scale, **kw))
        ok = True
    except ValueError:
        ok = False
    if not m.add(scale, **kw) or not ok:
        raise Infeasible()  # refused registrations: C09


def exact(L, parts, others):
    def run(ctx):
        s, m = fresh(ctx)
        kw = {}
        for p in parts:
            t = S(ctx, "u." + p, L)
            kw[p] = t if p in ("name", "plural") else (t,)
        add(ctx, s, m, 3, **kw)
        kw = {}
        for p in others:
            t = S(ctx, "v." + p, L)
            kw[p] = t if p in ("name", "plural") else (t,)
        add(ctx, s, m, 5, **kw)
        q = S(ctx, "q", L)
        judge(ctx, s, m, q, "exact")

    return run


def prefixed(L, Q, unit_parts, prefix_parts):
    def run(ctx):
        s, m = fresh(ctx)
        kw = {}
        for p in unit_parts:
            t = S(ctx, "u." + p, L)
            kw[p] = t if p in ("name", "plural") else (t,)
        add(ctx, s, m, 3, **kw)
        pn = S(ctx, "p.name", L) if "name" in prefix_parts else T(ctx, "never")
        ps = tuple(S(ctx, f"p.{x}", L) for x in prefix_parts if x != "name")
        s.add_prefix(Prefix(name=pn, value="1e3", symbols=ps))
        m.prefix(1000, pn, ps)
        q = S(ctx, "q", Q)
        judge(ctx, s, m, q, "prefix")

    return run


def two_prefixes(L, Q, kinds):
    def run(ctx):
        s, m = fresh(ctx)
        u = S(ctx, "u", L)
        add(ctx, s, m, 3, name=u)
        for i, (kind, v, val) in enumerate(zip(kinds, ("1000", ".07"), (1000, sympy.Rational(7, 100)))):
            t = S(ctx, f"p{i}", L)
            if kind == "n":
                s.add_prefix(Prefix(name=t, value=v))
                m.prefix(val, t)
            else:
                s.add_prefix(Prefix(name=T(ctx, f"never{i}"), value=v, symbols=(t,)))
                m.prefix(val, T(ctx, f"never{i}"), (t,))
        q = S(ctx, "q", Q, lo=2)
        judge(ctx, s, m, q, "two prefixes")

    return run


def two_readings(kinds, L):
    """Two prefixes and two units: a text which can be read in two ways."""

    def run(ctx):
        s, m = fresh(ctx)
        units = [S(ctx, "t0", L), S(ctx, "t1", L)]
        how = ctx.choose("how", ["name", "symbols"] if L < 3 else ["asymbols"])
        add(ctx, s, m, 3, **{how: units[0] if how == "name" else (units[0],)})
        add(ctx, s, m, 5, **{("symbols" if how == "name" else "name"): (units[1],) if how == "name" else units[1]})
        prefixes = []
        for i, (kind, v, val) in enumerate(zip(kinds, ("1000", ".07"), (1000, sympy.Rational(7, 100)))):
            t = S(ctx, f"p{i}", L)
            prefixes.append(t)
            if kind == "n":
                s.add_prefix(Prefix(name=t, value=v))
                m.prefix(val, t)
            else:
                s.add_prefix(Prefix(name=T(ctx, f"never{i}"), value=v, symbols=(t,)))
                m.prefix(val, T(ctx, f"never{i}"), (t,))
        q = prefixes[ctx.choose("p", [0, 1])] + units[ctx.choose("u", [0, 1])]
        judge(ctx, s, m, q, "two readings")

    return run


def shadow(L, Q):
    """A unit whose name could be read as a prefix and another unit."""

    def run(ctx):
        s, m = fresh(ctx)
        u, w, p = S(ctx, "u", L), S(ctx, "w", L + 1), S(ctx, "p", L)
        add(ctx, s, m, 3, name=u)
        kind = ctx.choose("kind", ["name", "symbols", "asymbols"])
        add(ctx, s, m, 5, **{kind: w if kind == "name" else (w,)})
        s.add_prefix(Prefix(name=p, value="1000"))
        m.prefix(1000, p)
        q = S(ctx, "q", Q)
        judge(ctx, s, m, q, "shadow")

    return run


def through_parser(ctx):
    """The same rules for identifiers inside an expression."""
    s, m = fresh(ctx)
    for scale, kw in (
        (3, dict(name="foo", plural="foos", symbols=("F",))),
        (5, dict(name="k", symbols=("kF",))),
        (7, dict(name="mm", anames=("kk",), asymbols=("oo", "F"))),
    ):
        add(ctx, s, m, scale, **{k: T(ctx, v) if isinstance(v, str) else tuple(T(ctx, x) for x in v) for k, v in kw.items()})
    for val, name, sym in ((1000, "k", ("K", "f")), (10, "m", ("F", "fo"))):
        s.add_prefix(Prefix(name=T(ctx, name), value=str(val), symbols=tuple(T(ctx, x) for x in sym)))
        m.prefix(val, T(ctx, name), tuple(T(ctx, x) for x in sym))
    # (the letters the grammar gives a meaning of their own are left out)
    q = ctx.string("q", 3, [(ord(c), ord(c)) for c in "fosFkKm"], minlen=1)
    want = m.lookup(q)
    text = ctx.choose("context", ["{}", "7 {}", "({})^1", "meter {}/meter"]).format(q)
    try:
        u = s.unit(text)
        got = scale_of(s, u) / (7 if "7" in text else 1)
    except UnresolvableUnitException:
        got = None
    ctx.check(got == want, "through the parser", f"{text!r} means {got}, want {want}")


def alike(ctx):
    """Prefix and unit spelled alike; the reference names exactly the unit."""
    s, m = fresh(ctx)
    a, b = S(ctx, "a", 2), S(ctx, "b", 2)
    val = ctx.real("val", positive=True)
    add(ctx, s, m, 3, name=a, symbols=(b,))
    s.add_prefix(Prefix(name=a, value="1000", symbols=(b,)))
    m.prefix(1000, a, (b,))
    pick = ctx.choose("pick", ["aa", "ab", "ba", "bb", "aaa", "a", "abb"])
    q = a[:0]
    for ch in pick:
        q = q + (a if ch == "a" else b)
    judge(ctx, s, m, q, "alike")


def cases(tier):
    L, Q = (3, 6) if tier == "quick" else (4, 8)
    l1 = 2 if tier == "quick" else 3
    yield Case("exact1", exact(L, ("name", "plural"), ("name",)), ("exact",))
    yield Case("exact2", exact(L, ("name",), ("symbols",)), ("exact",))
    yield Case("exact3", exact(l1, ("name", "symbols", "anames"), ("name", "plural", "asymbols")), ("exact",))
    yield Case("exact4", exact(l1, ("anames", "asymbols"), ("name", "symbols")), ("exact",))
    yield Case("exact5", exact(l1, ("symbols", "asymbols"), ("anames", "plural", "name")), ("exact",))
    yield Case("prefix1", prefixed(L, Q, ("name",), ("name",)), ("prefix",))
    yield Case("prefix2", prefixed(L, Q - 1, ("name",), ("sym",)), ("prefix",))
    yield Case("prefix3", prefixed(l1, 3, ("name", "symbols"), ("name", "sym")), ("prefix",))
    yield Case("prefix4", prefixed(l1, 3, ("name", "plural"), ("name", "sym")), ("prefix",))
    yield Case("prefix5", prefixed(l1, 3, ("symbols", "asymbols"), ("sym", "sym2")), ("prefix",))
    yield Case("prefix6", prefixed(l1, 3, ("anames",), ("name", "sym", "sym2")), ("prefix",))
    yield Case("two1", two_prefixes(2, 3, "nn"), ("two prefixes",))
    yield Case("two2", two_prefixes(2, 3, "sn"), ("two prefixes",))
    yield Case("two3", two_prefixes(2, 3, "ss"), ("two prefixes",))
    for kinds in ("nn", "sn", "ss"):
        yield Case(f"readings[{kinds}]", two_readings(kinds, 2 if tier == "quick" else 3), ("two readings",))
    yield Case("shadow", shadow(1 if tier == "quick" else 2, 3), ("shadow",))
    yield Case("parser", through_parser, ("through the parser",))
    yield Case("alike", alike, ("alike",))
