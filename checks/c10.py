"""C10: lookups leave no trace."""
from __future__ import annotations

from symx.runner import Case
from .registry import *  # noqa: F401,F403

PROPERTY = "C10"
BOUNDS = {
    "quick": "histories of 2 and 3 registrations (replacing or not, texts of 1 character in every pattern of coincidence) with "
    "a lookup of any 1-character text after each; 6 definitions in every order of registration with up to 2 "
    "lookups (by name, symbol, alias, prefix, expression, or failing) interleaved anywhere, then every text looked "
    "up; numeric factors any real",
    "thorough": "as quick with 3 interleaved lookups and 2 lookups after each registration",
}
OUTSIDE = [
    "re-defining a text that an already resolved definition relies on (definitions are resolved once)",
    "definitions that refer to themselves",
]
ASSUMPTIONS = ["numbers are exact reals"]
STUBS = ["the system's own dictionaries compare symbolic keys through the solver"]


def symbolic_history(shapes, looks):
    """Lookups of any text between registrations against the reference model,
    which does not know about them."""

    def run(ctx):
        s, m = fresh(ctx)
        for i, (shape, replace) in enumerate(shapes):
            scale = (3, 5, 7, 11)[i]
            kw = {}
            for part in shape.split("+"):
                t = ctx.string(f"u{i}.{part}", 1, minlen=1)
                kw[part] = t if part in ("name", "plural") else (t,)
            want = m.add(scale, replace=replace, **kw)
            try:
                s.add_unit(unit_def(s, scale, **kw), replace=replace)
                got = True
            except ValueError:
                got = False
            ctx.check(got == want, "accepted", f"registration {i}")
            for j in range(looks):
                q = ctx.string(f"q{i}.{j}", 1, minlen=1)
                judge(ctx, s, m, q, "between")
        q = ctx.string("q", 1, minlen=1)
        judge(ctx, s, m, q, "afterwards")
        judge(ctx, s, m, q, "repeated")

    return run


# definitions over each other: name, symbol, alias, factor name, what it is of
DEFS = [
    ("foo", ("F",), (), "a", "meter"),
    ("bar", ("B",), ("barre",), "b", "foo"),
    ("baz", (), (), "c", "barre"),
    ("kbar", (), (), "d", "F"),  # could be read as k-bar
    ("qux", ("Q",), ("quux",), "a", "kilobaz"),
    ("kilobaz", (), (), "b", "B"),  # could be read as kilo-baz
]
SCALES = {
    "foo": "a", "F": "a", "bar": "ab", "B": "ab", "barre": "ab", "baz": "abc", "kbar": "ad", "kilobaz": "abb",
    "qux": "aabb", "Q": "aabb", "quux": "aabb", "kiloqux": "kaabb", "kfoo": "ka", "kB": "kab", "kilobarre": "kab",
}
ORDERS = [(0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (2, 4, 1, 5, 0, 3), (3, 5, 0, 4, 2, 1), (4, 0, 3, 1, 5, 2)]
PROBES = ["bar", "Q", "kilobaz", "kbar", "kiloqux", "nope", "2 baz^2/F", "F F", "kilobarre", "meter", "kkB", "foo^("]


def try_lookup(s, text):
    try:
        u = s.unit(text)
        str(u), u.expanded(), u.dimensionality()
        return u
    except (UnresolvableUnitException, SyntaxError):
        return None


def definitions(order, times, finals, pool=PROBES):
    def run(ctx):
        s = UnitSystem()
        s.add_unit(basis("meter", None))
        s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
        val = {n: ctx.real(n, positive=True) for n in "abcd"}
        at = [ctx.choose(f"when{i}", range(len(order) + 1)) for i in range(times)]
        if at != sorted(at):
            raise Infeasible()
        probes = [ctx.choose(f"probe{i}", pool) for i in range(times)]
        for step in range(len(order) + 1):
            for when, p in zip(at, probes):
                if when == step:
                    done = {DEFS[j][0] for j in order[:step]}
                    if p in ("Q", "kiloqux") and {"qux", "baz"} <= done and "kilobaz" not in done:
                        raise Infeasible()  # what "kilobaz" means changes later
                    try_lookup(s, p)
            if step < len(order):
                name, syms, aliases, f, of = DEFS[order[step]]
                define(
                    s, name, f"{ctx.lit(val[f])} {of}", symbols=syms, alias_names=tuple(Name(singular=x) for x in aliases)
                )
        meter = s.unit("meter")
        for text in [ctx.choose("final", finals)]:
            want = sympy.Integer(1)
            for ch in SCALES[text]:
                want = want * (1000 if ch == "k" else esym(val[ch]))
            u = s.unit_by_name_or_symbol(text)
            expr = Converter(u, meter).expression
            ctx.same(expr, want * V, "definition order", f"{text}: {expr}")
            again = s.unit_by_name_or_symbol(text)
            ctx.check(again == u, "same unit again", text)

    return run


def failing(ctx):
    """A lookup that fails now succeeds once what it needs is registered, and
    changes nothing else."""
    s = UnitSystem()
    s.add_unit(basis("meter", None))
    a = ctx.real("a", positive=True)
    la = ctx.lit(a)
    kind = ctx.choose("kind", ["unknown", "syntax", "date inside", "prefix"])
    if kind == "unknown":
        define(s, "foo", f"{la} late", symbols=("F",))
        bad = ["foo", "F", "late", "foo meter"]
    elif kind == "syntax":
        define(s, "foo", f"{la} meter^", symbols=("F",))
        bad = ["foo", "F", "2 foo"]
    elif kind == "date inside":
        s.add_unit(basis("second", None, time=True))
        define(s, "foo", f"{la} (second since 2000-01-01)")
        bad = ["foo", "foo meter"]
    else:
        bad = ["kilometer", "kmeter", "kilokilometer"]
    define(s, "ok", f"{la} meter")
    state = lambda: {k: dict(v) for k, v in vars(s).items() if isinstance(v, dict)}
    for i in range(2):
        b = ctx.choose(f"bad{i}", bad)
        before = state()
        try:
            s.unit(b)
            ctx.fail("failing lookup", f"{b} was accepted")
        except (UnresolvableUnitException, SyntaxError, ValueError):
            pass
        ctx.check(state() == before, "failing lookup", f"{b} changed the system")
    expr = Converter(s.unit("ok"), s.unit("meter")).expression
    ctx.same(expr, esym(a) * V, "failing lookup", f"ok: {expr}")
    if kind == "unknown":
        define(s, "late", "7 meter")
        expr = Converter(s.unit("F"), s.unit("meter")).expression
        ctx.same(expr, 7 * esym(a) * V, "succeeds later", f"F: {expr}")
    elif kind == "prefix":
        s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
        for t in ("kilometer", "kmeter"):
            expr = Converter(s.unit(t), s.unit("meter")).expression
            ctx.same(expr, 1000 * V, "succeeds later", f"{t}: {expr}")
    else:
        ctx.reach("succeeds later")


def cases(tier):
    looks = 1 if tier == "quick" else 2
    parts = ["name", "symbols", "anames", "asymbols", "name+symbols", "name+anames"]
    for a in parts:
        for b in parts:
            for r in (False, True):
                third = ("name+symbols", True)
                yield Case(
                    f"history[{a}|{b}|{r}]",
                    symbolic_history([(a, False), (b, r)] + ([third] if tier != "quick" or (r and a in parts[:3] and b in parts[:4]) else []), looks),
                    ("between", "afterwards"),
                )
    finals = list(SCALES)
    for o in ORDERS:
        yield Case(f"orders[{o[0]}]", definitions(o, 1, finals), ("definition order",))
        if tier == "thorough":
            yield Case(f"orders2[{o[0]}]", definitions(o, 2, finals), ("definition order",))
        else:
            yield Case(f"orders2[{o[0]}]", definitions(o, 2, ["Q"], PROBES[:4] + ["2 baz^2/F", "nope"]), ("definition order",))
    yield Case("failing", failing, ("failing lookup", "succeeds later"))
