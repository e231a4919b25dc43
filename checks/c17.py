"""C17: reading a unit database gives exactly the declared names and plurals."""
from __future__ import annotations

import importlib
import pathlib
import tempfile

from symx import xmlmod
from symx.runner import Case
from symx.smt import exact_float
from .registry import *  # noqa: F401,F403

PROPERTY = "C17"
BOUNDS = {
    "quick": "databases of one basis unit and up to two units and prefixes whose names (1-4 characters), plurals, symbols "
    "and aliases (1-2 characters) are any text of letters, accented letters and underscores; every combination of declared, "
    "suppressed and regular plurals for names and aliases; looked up under their every candidate plural and under any text "
    "of 1-3 characters; prefixes with any value and up to 3 symbols; XML with blanks, comments and descriptive tags",
    "thorough": "names of 1-6 characters and looked-up texts of 1-4",
}
OUTSIDE = ["longer names; more units (registration itself: C09)", "files that are not well-formed XML; encodings other than the eight tried"]
ASSUMPTIONS = []
STUBS = [
    "the reader's source is compiled with membership tests (a in b) that take symbolic text",
    "symbolic characters stand in the XML file as private-use characters; lxml itself runs as it is",
]

CHARS = [(65, 90), (95, 95), (97, 122), (0xC0, 0xFF), (0x3B1, 0x3C9)]
LOW = [(97, 122), (0xE9, 0xE9)]
HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'
NS = ' xmlns="urn:unidata:udunits"'
METER = "<unit><base/><name><singular>meter</singular></name></unit>"


def db(*parts, ns=""):
    return f"{HEAD}<unit-system{ns}>\n" + "\n".join(parts) + "\n</unit-system>\n"


def read(ctx, *parts, ns=NS, how="{}"):
    return xmlmod.read(ctx, how.format(db(METER, *parts, ns=ns)))


def model(ctx):
    m = Model()
    m.add(1, T(ctx, "meter"), T(ctx, "meters"))
    return m


def regular(s):
    """The plural UDUNITS-2 forms."""
    if len(s) < 2:
        return s + "s"
    last = s[len(s) - 1 :]
    if last == "y":
        before = s[len(s) - 2 : len(s) - 1]
        if any(before == v for v in "aeiou"):
            return s + "s"
        return s[: len(s) - 1] + "ies"
    if any(last == x for x in "sxz") or s[len(s) - 2 :] == "ch" or s[len(s) - 2 :] == "sh":
        return s + "es"
    return s + "s"


def S(ctx, name, n, lo=1, chars=CHARS):
    return ctx.string(name, n, chars, minlen=lo)


MODES = ["", "plural", "noplural"]


def name_xml(ctx, tag, singular, mode, plural=None, pad=""):
    inner = f"<singular>{pad}{singular}{pad}</singular>"
    if mode == "plural":
        inner += f"<plural>{pad}{plural}{pad}</plural>"
    if mode == "noplural":
        inner += "<noplural/>"
    return f"<{tag}>{inner}</{tag}>"


def plural_text(mode, s, p):
    return {"": lambda: regular(s), "plural": lambda: p, "noplural": lambda: None}[mode]()


def plurals(lo, L, chars):
    """The regular plural, and no other of the texts it could have been."""

    def run(ctx):
        s = S(ctx, "s", L, lo, chars)
        if any(x == y for x in (s, regular(s)) for y in ("meter", "meters")):
            raise Infeasible()
        m = model(ctx)
        where = ctx.choose("where", ["unit", "alias"])
        if where == "unit":
            system = read(ctx, f"<unit><def>3 meter</def>{name_xml(ctx, 'name', s, '')}</unit>")
            m.add(3, s, regular(s))
        else:
            system = read(ctx, f"<unit><def>3 meter</def><aliases>{name_xml(ctx, 'name', s, '')}</aliases></unit>")
            m.add(3, anames=(s, regular(s)))
        for q in (s, regular(s), s + "s", s + "es", s[: len(s) - 1] + "ies"):
            if len(q):
                judge(ctx, system, m, q, "plural")
        judge(ctx, system, m, T(ctx, "meters"), "plural")

    return run


def declared(mode, amode, L, Q):
    """What is declared about the plural is what holds."""

    def run(ctx):
        s, p = S(ctx, "s", L), S(ctx, "p", L) if mode == "plural" else None
        m = model(ctx)
        aliases, anames = "", ()
        if amode != "none":
            a, ap = S(ctx, "a", L), S(ctx, "ap", 1) if amode == "plural" else None
            aliases = f"<aliases>{name_xml(ctx, 'name', a, amode, ap)}</aliases>"
            anames = tuple(t for t in (a, plural_text(amode, a, ap)) if t is not None)
        pad = "\n   " if mode == "plural" else ""
        system = read(ctx, f"<unit><def>3 meter</def>{name_xml(ctx, 'name', s, mode, p, pad)}{aliases}</unit>")
        m.add(3, s, plural_text(mode, s, p), anames=anames)
        judge(ctx, system, m, S(ctx, "q", Q), "declared")

    return run


def symbols(Q):
    """Symbols and alias symbols, in any number, and nothing else."""

    def run(ctx):
        n, k = ctx.choose("symbols", [0, 1, 2, 3]), ctx.choose("alias symbols", [0, 1, 2])
        ss = [S(ctx, f"s{i}", 2 if i == 0 else 1) for i in range(n)]
        al = [S(ctx, f"a{i}", 1) for i in range(k)]
        m = model(ctx)
        xml = "<unit>" + "".join(f"<symbol>{t}</symbol>" for t in ss)
        xml += ctx.choose("kind", ["<def>3 meter</def>"])
        if k:
            xml += "<aliases>" + "".join(f"<symbol> {t}\n</symbol>" for t in al) + "</aliases>"
        xml += "</unit>"
        for i, t in enumerate(ss):
            if any(t == u for u in ss[:i]):
                raise Infeasible()
        system = read(ctx, xml)
        m.add(3, symbols=tuple(ss), asymbols=tuple(al))
        judge(ctx, system, m, S(ctx, "q", Q), "symbols")

    return run


def aliases(k):
    """Aliases of every kind, in any order."""

    def run(ctx):
        kinds = [ctx.choose(f"k{i}", ["symbol", "declared", "none", "noplural", "regular"]) for i in range(k)]
        if "regular" in kinds and "noplural" in kinds:
            # (the declaration of no plural for all of them)
            raise Infeasible()
        xml, an, asy = "", [], []
        for i, kind in enumerate(kinds):
            if kind == "noplural":
                xml += "<noplural/>"
                continue
            t = S(ctx, f"t{i}", 1)
            if kind == "symbol":
                xml += f"<symbol>{t}</symbol>"
                asy.append(t)
                continue
            p = T(ctx, f"plural{i}")
            mode = {"declared": "plural", "none": "noplural", "regular": ""}[kind]
            xml += name_xml(ctx, "name", t, mode, p)
            an += [t] + ([p] if kind == "declared" else [regular(t)] if kind == "regular" else [])
        m = model(ctx)
        system = read(ctx, f"<unit><def>3 meter</def><aliases>{xml}</aliases></unit>")
        m.add(3, anames=tuple(an), asymbols=tuple(asy))
        judge(ctx, system, m, S(ctx, "q", 1), "aliases")
        for t in an:
            judge(ctx, system, m, t, "aliases")

    return run


def two_units(kind):
    return lambda ctx: _two_units(ctx, kind)


def _two_units(ctx, kind):
    """Each unit gets its own names; a name declared twice is refused."""
    a, b = S(ctx, "a", 2), S(ctx, "b", 3)
    m = model(ctx)
    ka, kb = kind.split()
    xml, kws = [], []
    for t, k, d in ((a, ka, 3), (b, kb, 5)):
        if k == "name":
            xml.append(f"<unit><def>{d} meter</def>{name_xml(ctx, 'name', t, '')}</unit>")
            kws.append(dict(name=t, plural=regular(t)))
        elif k == "symbol":
            xml.append(f"<unit><symbol>{t}</symbol><def>{d} meter</def></unit>")
            kws.append(dict(symbols=(t,)))
        else:
            xml.append(f"<unit><aliases>{name_xml(ctx, 'name', t, 'noplural')}</aliases><def>{d} meter</def></unit>")
            kws.append(dict(anames=(t,)))
    ok = m.add(3, **kws[0]) and m.add(5, **kws[1])
    try:
        system = read(ctx, *xml)
    except ValueError:
        ctx.check(not ok, "two units", "refused")
        return
    ctx.check(ok, "two units", "a name declared twice")
    for q in (a, b, regular(a), regular(b)):
        judge(ctx, system, m, q, "two units")


def prefixes(n, Q):
    def run(ctx):
        name = S(ctx, "p", 2)
        ss = [S(ctx, f"s{i}", 2 if i == 0 else 1) for i in range(n)]
        pad = ["", " \n"][n % 2]
        xml = f"<prefix>{pad}<name>{pad}{name}{pad}</name>{pad}<value>{pad}1e-3{pad}</value>" + "".join(f"<symbol>{pad}{t}{pad}</symbol>" for t in ss) + "</prefix>"
        order = ctx.choose("order", ["before", "after"])
        u = "<unit><def>3 meter</def><symbol>w</symbol></unit>"
        system = read(ctx, *([xml, u] if order == "before" else [u, xml]))
        m = model(ctx)
        m.add(3, symbols=(T(ctx, "w"),))
        m.prefix(sympy.Rational(1, 1000), name, tuple(ss))
        q = S(ctx, "q", Q)
        judge(ctx, system, m, q + "w", "prefix")
        judge(ctx, system, m, q + "meters", "prefix")

    return run


def two_prefixes(ctx):
    p1, p2 = S(ctx, "p1", 1), S(ctx, "p2", 2)
    system = read(
        ctx,
        f"<prefix><name>{p1}</name><value>7</value><symbol>K</symbol></prefix>",
        f"<prefix><name>{p2}</name><value>.5</value><symbol>M</symbol><symbol>MM</symbol></prefix>",
        "<unit><def>3 meter</def><symbol>w</symbol></unit>",
    )
    m = model(ctx)
    m.add(3, symbols=(T(ctx, "w"),))
    m.prefix(7, p1, (T(ctx, "K"),))
    m.prefix(sympy.Rational(1, 2), p2, (T(ctx, "M"), T(ctx, "MM")))
    judge(ctx, system, m, S(ctx, "q", 3) + "w", "two prefixes")


VALUES = ["1e24", "1e-24", "1E3", ".01", "0.001", "1000", "10", "1e1", "2.5e-7", "123456789", "1e+2", "-3", "5.",
    "1.0000000000000000000000001", "123456789012345678901234567", "1.7e140", "3e-140", "0.1234567890123456789"]  # fmt: skip


def values(ctx):
    """Any value: as declared, exactly."""
    text = ctx.choose("value", ["any"] + VALUES)
    if text == "any":
        x = ctx.real("x", nonzero=True)
        text, want = ctx.lit(x), esym(x)
    else:
        want = sympy.Rational(text)
    system = read(ctx, f"<prefix><name>zork</name><value>\n {text} </value><symbol>z</symbol></prefix>")
    def same(e, want, detail, digits=None):
        ctx.same(e, want * V, "value", detail)

    if isinstance(want, sympy.Rational):

        def same(e, want, detail, digits=26):
            got = sympy.expand(e).coeff(V)
            got = got if got.is_Rational else sympy.Rational(exact_float(got))
            ctx.check(bool(e.free_symbols == {V} and abs(got / want - 1) < sympy.Rational(1, 10**digits)), "value", detail)

    for u in ("zorkmeter", "zorkmeters", "zmeters"):
        e = Converter(system.unit(u), system.unit("meter")).expression
        same(e, want, f"{text}: {u}: {e}")
    e = Converter(system.unit("meter^2"), system.unit("zmeter^2")).expression
    same(e, 1 / want**2, f"{text}: {e}", 14)


def definitions(ctx):
    """The definition as written; declared dimensionless units are; blanks, comments and descriptions do not matter."""
    x = ctx.real("x", nonzero=True)
    pad = ctx.choose("pad", ["", "\n  "])
    extra = ctx.choose("extra", ["", "<comment>a comment</comment>", "<definition>the length</definition>", "<!-- note -->"])
    basis_kind = ctx.choose("basis", ["<base/>", "<dimensionless/>"])
    time = ctx.choose("name", ["blob", "second", "seconds", "minute", "Second"])
    order = ctx.choose("order", [0, 1])
    units = [
        f"<unit>{extra}<def>{pad}{ctx.lit(x)} {time}.meter{pad}</def><symbol>{pad}w{pad}</symbol>{extra}</unit>",
        f"<unit>{basis_kind}{extra}<name><singular>{time}</singular><noplural/></name></unit>",
    ]
    system = read(ctx, *(units if order else units[::-1]))
    u, w = system.unit(time), system.unit("w")
    dimless = basis_kind != "<base/>"
    ctx.check(u.is_dimensionless() == dimless, "definition", f"{time} {basis_kind}")
    want = {"meter": 1}
    if not dimless:
        want[time] = 1
    check_dims(ctx, w.dimensionality(), want, "definition", f"{time} {basis_kind}")
    ctx.check(u.is_time_reference() is False if hasattr(u, "is_time_reference") else True, "definition", "date")
    ctx.check(w._names.name is None, "definition", "name") if hasattr(w, "_names") else None
    e = Converter(w, system.unit("meter" if dimless else f"meter {time}")).expression
    ctx.same(e, esym(x) * V, "definition", f"{e}")
    date = not dimless and time == "second"
    got = isinstance(system.unit(f"{time} since 2001-02-03"), DateUnit) if date else None
    if date:
        ctx.check(got, "definition", "second is the unit of time")
    else:
        try:
            system.unit(f"{time} since 2001-02-03")
            ctx.check(False, "definition", f"{time} is no unit of time")
        except ValueError:
            pass


def spellings(ctx):
    """What XML lets one write in more than one way means the same."""
    s, a, y = S(ctx, "s", 1), S(ctx, "a", 1), S(ctx, "y", 1)
    kind = ctx.choose("kind", ["plain", "default", "prefixed", "wrapped", "comments", "instructions", "cdata", "attributes", "unknown"])
    unit = (
        f"<unit><def>3 meter</def>{name_xml(ctx, 'name', s, '')}<symbol>{y}</symbol>"
        f"<aliases>{name_xml(ctx, 'name', a, 'noplural')}</aliases></unit>"
    )
    prefix = "<prefix><name>zork</name><value>7</value></prefix>"
    text = db(METER, unit, prefix, ns=NS if kind in ("default", "wrapped") else "")
    import re

    if kind == "prefixed":
        text = re.sub(r"<(/?)([a-z])", r"<\1u:\2", text).replace("<u:unit-system", '<u:unit-system xmlns:u="urn:unidata:udunits"')
    elif kind == "wrapped":
        head, _, body = text.partition("?>")
        text = head + "?><udunits-2><!-- one file of several -->" + body + "</udunits-2>"
    elif kind == "comments":
        text = text.replace("<unit>", "<!-- a -->\n<unit><!-- <def>1</def> -->").replace("<name>", "<name>\n<!-- b -->").replace("</aliases>", "<!-- c --></aliases>").replace("<value>", "<!-- <value>8</value> --><value>")
    elif kind == "instructions":
        text = text.replace("<unit>", "<unit><?note a?>").replace("</name>", "<?note b?></name>")
    elif kind == "cdata":
        text = text.replace("3 meter", "<![CDATA[3 meter]]>").replace(">7<", "><![CDATA[7]]><")
    elif kind == "attributes":
        text = text.replace("<unit>", "<unit id='1'>").replace("<name>", "<name xml:lang='en'>")
    elif kind == "unknown":
        text = text.replace("<unit>", "<author>me<def>4 meter</def></author><unit><reviewed/>").replace("<name>", "<note>n</note><name>").replace("<value>", "<since>1960</since><value>")
    system = xmlmod.read(ctx, text)
    m = model(ctx)
    if not m.add(3, s, regular(s), symbols=(y,), anames=(a,)):
        raise Infeasible()
    m.prefix(7, T(ctx, "zork"))
    for q in (s, a, y, "zork" + regular(s), T(ctx, "b")):
        judge(ctx, system, m, q, "spelling")


def time_name(L):
    """The basis unit named second, and only that, measures time."""

    def run(ctx):
        s = S(ctx, "s", L, L, [(97, 122)])
        if any(s == x for x in ("meter", "meters")):
            raise Infeasible()
        system = read(ctx, f"<unit><base/>{name_xml(ctx, 'name', s, 'noplural')}<symbol>w</symbol></unit>")
        want = bool(s == "second")
        ctx.reach("time")
        try:
            got = isinstance(system.unit("w since 2001-02-03"), DateUnit)
        except ValueError:
            got = False
        ctx.check(got == want, "time", f"{s}: {got}")

    return run


def another_file(ctx):
    """A given file is read, or refused: it is never replaced by the shipped one."""
    kind = ctx.choose("path", [pathlib.Path, str])
    with tempfile.TemporaryDirectory() as d:
        name = pathlib.Path(d) / "own.xml"
        name.write_text(db(METER, "<unit><def>7 meter</def><name><singular>zork</singular></name></unit>"))
        ctx.reach("file")
        try:
            system = UnitSystem.from_udunits2_xml(kind(name))
        except NotImplementedError:
            return
        try:
            system.unit("candela")
            known = True
        except UnresolvableUnitException:
            known = False
        ctx.check(not known and system.unit("zorks") == system.unit("7 meter"), "file", f"{kind}: another database was read")


ENCODINGS = ["UTF-8", "utf-8-sig", "ISO-8859-1", "ISO-8859-15", "UTF-16", "UTF-16LE", "US-ASCII", ""]


def encodings(ctx):
    """A file is read in the encoding it declares."""
    enc = ctx.choose("encoding", ENCODINGS)
    sym, name = ctx.choose("symbol", ["µ", "é", "°Z", "ÿ"]), ctx.choose("name", ["zork", "Ångström", "Ørsted"])
    text = db(METER, f"<unit><def>7 meter</def><name><singular>{name}</singular></name><symbol>{sym}</symbol></unit>")
    first, rest = text.split("\n", 1)
    codec = enc or "UTF-8"
    declared = {"utf-8-sig": "UTF-8", "UTF-16LE": "UTF-16"}.get(enc, enc)
    first = first.replace(' encoding="UTF-8"', f' encoding="{declared}"' if enc else "")
    data = (first + "\n" + rest).encode(codec, "xmlcharrefreplace")
    if enc == "UTF-16LE":
        data = b"\xff\xfe" + data
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "own.xml"
        path.write_bytes(data)
        ctx.reach("encoding")
        mod = importlib.import_module(xmlmod.NAME)
        for reader in (mod.UDUNITS2XMLParser, mod.UnhandledContentDisallowed):
            try:
                system = reader.parse_file(path)
            except Exception as e:
                ctx.check(False, "encoding", f"{enc or 'no'} encoding declared: {type(e).__name__}: {e}")
            want = system.unit("7 meter")
            for t in (sym, name, name + "s"):
                u, why = outcome(system, t)
                ctx.check(u is not None and u == want, "encoding", f"{enc or 'no'} encoding declared: {t}: {why}")


def outcome(system, t):
    try:
        return system.unit(t), None
    except (UnresolvableUnitException, SyntaxError, ValueError) as e:
        return None, e


def cases(tier):
    t = tier == "thorough"
    yield Case("encodings", encodings, ("encoding",))
    yield Case("another file", another_file, ("file",))
    yield Case("plural1", plurals(1, 2, CHARS), ("plural",))
    yield Case("plural3", plurals(3, 3, CHARS), ("plural",))
    yield Case("plural4", plurals(4, 4, LOW), ("plural",))
    if t:
        yield Case("plural5", plurals(5, 5, CHARS), ("plural",))
        yield Case("plural6", plurals(6, 6, CHARS), ("plural",))
    for mode in MODES:
        for amode in ["none"] + MODES:
            yield Case(f"declared[{mode},{amode}]", declared(mode, amode, 2, (4 if t else 3) if amode == "none" else 3 if t else 2), ("declared",))
    yield Case("symbols", symbols(3 if t else 2), ("symbols",))
    yield Case("aliases", aliases(4 if t else 3), ("aliases",))
    for k in ["name name", "name symbol", "symbol symbol", "alias name"]:
        yield Case(f"two units[{k}]", two_units(k), ("two units",))
    for n in range(4):
        yield Case(f"prefixes{n}", prefixes(n, 3 if t else 2), ("prefix",))
    yield Case("two prefixes", two_prefixes, ("two prefixes",))
    yield Case("values", values, ("value",), decimal_module=True)
    yield Case("definitions", definitions, ("definition",))
    yield Case("spellings", spellings, ("spelling",))
    for n in (5, 6, 7):
        yield Case(f"time{n}", time_name(n), ("time",))
