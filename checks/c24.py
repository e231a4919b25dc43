"""C24: the strict database reader refuses exactly what the tolerant one ignores."""
from __future__ import annotations

from symx import xmlmod
from symx.runner import Case
from .c17 import METER, NS, S, db, name_xml, regular
from .registry import *  # noqa: F401,F403

PROPERTY = "C24"
BOUNDS = {
    "quick": "one tag whose name is any text of 3-10 letters, with text or with tags inside, at every place of a database (the "
    "root, a derived and a basis unit, a name, an alias name, the aliases, a prefix), before or after what is declared "
    "there; two such tags at two places; a second tag of every known kind; three databases without any, and the shipped one",
    "thorough": "as quick with tag names of 1-14 letters and two tags at every pair of places",
}
OUTSIDE = ["tags inside a text (a symbol, a definition)", "text between tags", "attributes"]
ASSUMPTIONS = []
STUBS = [
    "the reader's source is compiled with membership tests (a in b) that take symbolic text",
    "symbolic characters and tag names stand in the XML file as private-use characters and marked names; lxml itself runs as it is",
]

STRICT, TOLERANT = "UnhandledContentDisallowed", "UDUNITS2XMLParser"
TAGCH = [(65, 90), (97, 122)]
# where a tag can be put -> (the tags known there, those which would not be well-formed there)
PLACES = {
    "root": ((), ("unit", "prefix")),
    "unit": (("symbol", "comment", "definition"), ("aliases",)),
    "basis": (("symbol", "comment", "definition"), ("aliases", "def", "dimensionless")),
    "name": ((), ("plural", "noplural")),
    "alias name": ((), ("plural", "noplural")),
    "aliases": (("symbol",), ("name", "noplural")),
    "prefix": (("symbol",), ()),
}


# declared there already: a second one after it is ignored (and before it is the first one)
DECLARED = {"unit": ("def", "name"), "basis": ("base", "name"), "name": ("singular",), "alias name": ("singular",), "prefix": ("name", "value")}


class File:
    """A database with marked places, and what it means."""

    def __init__(self, ctx, places=()):
        self.ctx = ctx
        self.extra = {}
        # (a unit need not have a name)
        self.named = ctx.choose("named", [True, False]) if {"unit", "aliases", "alias name", "root"} & set(places) and "name" not in places else True
        self.s, self.b, self.a, self.p = (T(ctx, t) for t in ("ax", "bx", "cx", "kx"))
        self.symbols = {"unit": [], "basis": [], "aliases": [], "prefix": []}

    def put(self, place, xml, end):
        self.extra.setdefault((place, end), []).append(xml)

    def at(self, place, inner):
        return "".join(self.extra.get((place, False), [])) + inner + "".join(self.extra.get((place, True), []))

    def text(self):
        name = lambda tag, place, t: f"<{tag}>" + self.at(place, f"<singular>{t}</singular>") + f"</{tag}>"
        prefix = "<prefix>" + self.at("prefix", f"<name>{self.p}</name><value>7</value>") + "</prefix>"
        aliases = "<aliases>" + self.at("aliases", name("name", "alias name", self.a)) + "</aliases>"
        own = name("name", "name", self.s) if self.named else f"<symbol>{self.s}</symbol>"
        unit = "<unit>" + self.at("unit", f"<def>3 meter</def>{own}{aliases}") + "</unit>"
        basis = "<unit>" + self.at("basis", f"<base/><name><singular>{self.b}</singular></name>") + "</unit>"
        return db(self.at("root", METER + prefix + unit + basis), ns=NS)

    def model(self):
        ctx, m = self.ctx, Model()
        m.add(1, T(ctx, "meter"), T(ctx, "meters"))
        symbols = list(self.symbols["unit"]) + ([] if self.named else [self.s])
        m.add(3, *((self.s, regular(self.s)) if self.named else ()), symbols=tuple(symbols), anames=(self.a, regular(self.a)), asymbols=tuple(self.symbols["aliases"]))
        m.prefix(7, self.p, tuple(self.symbols["prefix"]))
        return m

    def judge(self, system, label, more=()):
        """The tags known mean what they say, and the others nothing."""
        ctx, m = self.ctx, self.model()
        for q in (self.s, regular(self.s), self.a, regular(self.a), self.p + self.s, *more):
            if any(q == t for t in (self.b, regular(self.b), *self.symbols["basis"])):
                u = system.unit(str(q))
                check_dims(ctx, u.dimensionality(), {str(self.b): 1}, label, f"{q}")
                continue
            judge(ctx, system, m, q, label)


CONTENT = {"text": "w", "nothing": "", "tags": "<deep><deeper>w</deeper></deep>", "symbol": "<symbol>w</symbol>"}


def place_tag(ctx, f, key, place, n, lo):
    """Put a tag of any name at a place -> whether it is known there, and its symbol."""
    t = S(ctx, f"tag{key}", n, lo, TAGCH)
    known, ill = PLACES[place]
    if place == "unit" and not f.named:
        ill += ("name",)
    if any(t == x for x in ill):
        raise Infeasible()
    content = ctx.choose(f"content{key}", list(CONTENT))
    is_symbol = "symbol" in known and bool(t == "symbol")
    is_known = is_symbol or any(t == x for x in known)
    if is_symbol and content != "text":
        raise Infeasible()
    name = xmlmod.tag(ctx, key, t)
    end = ctx.choose(f"end{key}", [False, True])
    if not end and any(t == x for x in DECLARED.get(place, ())):
        raise Infeasible()
    f.put(place, f"<{name}>{CONTENT[content]}</{name}>", end)
    if is_symbol:
        f.symbols[place].append(T(ctx, "w"))
    return is_known, t


def verdict(ctx, f, unknown, label):
    text = f.text()
    f.judge(xmlmod.read(ctx, text), label, [T(ctx, "w"), "w" + f.s, T(ctx, "deeper")])
    try:
        system = xmlmod.read(ctx, text, STRICT)
    except ValueError:
        ctx.check(unknown, label, f"refused, though every tag is known: {text}")
        return
    ctx.check(not unknown, label, f"accepted: {text}")
    f.judge(system, label, [T(ctx, "w"), "w" + f.s])


def one(place, lo, n):
    def run(ctx):
        f = File(ctx, [place])
        known, _ = place_tag(ctx, f, "a", place, n, lo)
        verdict(ctx, f, not known, "one")

    return run


def two(p, q, lo, n):
    def run(ctx):
        f = File(ctx, [p, q])
        k1, t1 = place_tag(ctx, f, "a", p, n, lo)
        k2, t2 = place_tag(ctx, f, "b", q, n, lo)
        unknown = not (k1 and k2)
        if k1 and k2 and p == q and t1 == t2 and t1 != "symbol":
            # (a comment or a description is had once)
            unknown = True
        if len(f.symbols.get(p, ())) + (len(f.symbols.get(q, ())) if p != q else 0) > 1:
            raise Infeasible()
        verdict(ctx, f, unknown, "two")

    return run


def second(ctx):
    """A second tag where one is meant: the first counts, the strict reader refuses."""
    place, xml = ctx.choose(
        "second",
        [("unit", "<def>5 meter</def>"), ("unit", "<name><singular>q</singular></name>"), ("unit", "<aliases><symbol>w</symbol></aliases>"),
         ("unit", "<base/>"), ("unit", "<dimensionless/>"), ("basis", "<base/>"), ("basis", "<name><singular>q</singular></name>"),
         ("name", "<singular>q</singular>"), ("alias name", "<singular>q</singular>"), ("prefix", "<name>q</name>"), ("prefix", "<value>9</value>")],
    )  # fmt: skip
    f = File(ctx)
    f.put(place, xml, True)
    text = f.text()
    f.judge(xmlmod.read(ctx, text), "second", [T(ctx, "w"), T(ctx, "q"), "q" + f.s])
    try:
        xmlmod.read(ctx, text, STRICT)
        ctx.check(False, "second", f"accepted: {text}")
    except ValueError:
        ctx.check(True, "second", xml)


def clean(ctx):
    """Nothing unknown: both read the same."""
    kind = ctx.choose("kind", ["plain", "declared", "commented", "repeated"])
    f = File(ctx, ["unit"])
    if kind == "declared":
        f.put("unit", "<symbol>w</symbol><definition>the width</definition><comment>a comment</comment>", True)
        f.symbols["unit"].append(T(ctx, "w"))
    if kind == "commented":
        for place in PLACES:
            f.put(place, "<!-- <unknown/> --><?unknown unknown?>\n", ctx.choose("end", [False, True]))
    if kind == "repeated":
        for place in ("unit", "aliases", "prefix"):
            f.put(place, f"<symbol>{place[0]}</symbol><symbol>{place[1]}</symbol>", True)
            f.symbols[place] += [T(ctx, place[0]), T(ctx, place[1])]
    q = S(ctx, "q", 2)
    for reader in (TOLERANT, STRICT):
        system = xmlmod.read(ctx, f.text(), reader)
        f.judge(system, "clean", [q, T(ctx, "w")])


def shipped(ctx):
    """The shipped database has nothing unknown."""
    ctx.reach("shipped")
    mod = xmlmod.module(ctx)
    a = getattr(mod, STRICT).parse_file(mod.XML_path)
    b = getattr(mod, TOLERANT).parse_file(mod.XML_path)
    q = ctx.choose("text", ["km", "arcmin", "degF", "hours", "avogadro_constant", "minutes", "µPa", "light_year"])
    x, y = a.unit(q), b.unit(q)
    ctx.check(x.expanded() == y.expanded(), "shipped", f"{q}: {x.expanded()} and {y.expanded()}")


def cases(tier):
    t = tier == "thorough"
    for place in PLACES:
        yield Case(f"one[{place}]", one(place, 1 if t else 3, 14 if t else 10), ("one",))
    pairs = [("unit", "unit"), ("unit", "prefix"), ("aliases", "alias name"), ("root", "basis"), ("prefix", "prefix"), ("name", "aliases")]
    if t:
        pairs = [(p, q) for p in PLACES for q in PLACES]
    for p, q in pairs:
        yield Case(f"two[{p},{q}]", two(p, q, 6, 7 if t else 6), ("two",))
    yield Case("second", second, ("second",))
    yield Case("clean", clean, ("clean",))
    yield Case("shipped", shipped, ("shipped",))
