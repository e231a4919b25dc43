"""C16: the shipped database means what UDUNITS-2 says it means."""
from __future__ import annotations

import json
import os

from symx import boot as _boot
from symx.runner import Case
from .common import *  # noqa: F401,F403
from pyudunits2._exceptions import UnresolvableUnitException

PROPERTY = "C16"
BOUNDS = {
    "quick": "every name, plural, symbol and alias of the UDUNITS-2 database (857 texts) looked up and parsed, its "
    "dimensionality, and its conversion to and from its basis for every value; every prefix spelling (20 names, 22 symbols) "
    "before 7 units of every kind; one conversion between neighbours of the same dimensionality per text",
    "thorough": "as quick with the prefixes before 60 units and conversions to 6 other units of the same dimensionality",
}
OUTSIDE = ["differences below 1e-12 relative (UDUNITS-2 computes in double precision)", "texts UDUNITS-2 does not list"]
ASSUMPTIONS = ["ref/udunits2.json, generated once from the UDUNITS-2 C library (2.2.28, via cf_units), is the reference"]
STUBS = []

REF = json.load(open(os.path.join(_boot.VERIF, "ref", "udunits2.json")))
UNITS = REF["units"]
BY_TEXT = {u["text"]: u for u in UNITS}
PREFIXES = [(t, p["value"]) for p in REF["prefixes"] for t in [p["name"]] + p["symbols"]]
VALUE = sympy.Symbol("value")
REL = sympy.Rational(1, 10**12)

# texts of the UDUNITS-2 database the lexer does not read as one identifier
CHARACTERS = {"%", "'", '"', "\u2032", "\u2033", "\u2103", "\u2109", "\u03a9", "\u2126", "\u212b"}
# ... and units whose own definition is written with such a text
THROUGH = {
    "characters": {"arc_second", "arc_seconds", "angular_second", "angular_seconds", "arcsecond", "arcseconds", "arcsec", "arcsecs", '"', "\u2033"},
    "inner-digits": {
        "cmH2O", "cm_H2O", "inch_H2O_39F", "inches_H2O_39F", "inch_H2O_60F", "inches_H2O_60F", "inch_Hg_32F",
        "inches_Hg_32F", "inch_Hg_60F", "inches_Hg_60F", "millimeter_Hg_0C", "millimeters_Hg_0C",
    },
}

_SYSTEM = []


def system():
    if not _SYSTEM:
        _SYSTEM.append(UnitSystem.from_udunits2_xml())
    return _SYSTEM[0]


def R(x):
    """The decimal number a double prints as."""
    return sympy.Rational(repr(x)) if isinstance(x, float) else sympy.Rational(x)


def dims(ref):
    return {k: n for k, n in ref["dims"].items() if k != "radian" and n}


def to_base(ref, v):
    if ref["kind"] == "lin":
        return R(ref["a"]) * v + R(ref["b"])
    base = {"lg": sympy.Integer(10), "lb": sympy.Integer(2), "ln": sympy.E}[ref["kind"]]
    return R(ref["ref"]) * base ** (R(ref["k"]) * v)


def from_base(ref, x):
    if ref["kind"] == "lin":
        return (x - R(ref["b"])) / R(ref["a"])
    base = {"lg": sympy.Integer(10), "lb": sympy.Integer(2), "ln": sympy.E}[ref["kind"]]
    return sympy.log(x / R(ref["ref"])) / sympy.log(base) / R(ref["k"])


def equal(ctx, got, ref_fn, label, detail, origin=0):
    want = ref_fn(VALUE)
    if want.has(sympy.log):
        # (compared as the powers of ten they are: a tolerance inside a logarithm)
        got, want = (sympy.exp(sympy.expand(e * sympy.log(10))) for e in (got, want))
    ctx.same(got, want, label, f"{detail}: {got}, want {want}", form="tol", rel=REL, abs_=abs(R(origin)) * REL)


def basis_text(d):
    return "·".join(f"{k}^{n}" for k, n in sorted(d.items())) or "1"


def meaning(ctx, s, unit, ref, detail):
    d = dims(ref)
    check_dims(ctx, unit.dimensionality(), d, "dimensionality", detail)
    basis = s.unit(basis_text(d))
    got = Converter(unit, basis).expression
    equal(ctx, got, lambda v: to_base(ref, v), "to basis", detail, ref.get("b", 0))
    back = Converter(basis, unit).expression
    equal(ctx, back, lambda v: from_base(ref, v), "from basis", detail, R(ref.get("b", 0)) / R(ref.get("a", 1)))


def reach_text(ctx, s, text, how):
    """The unit a text of the database names; None for a listed finding."""
    try:
        return s.unit_by_name_or_symbol(text) if how == "lookup" else s.unit(text)
    except (UnresolvableUnitException, SyntaxError) as e:
        why = None
        for key, texts in THROUGH.items():
            if text in texts:
                why = key
        if how == "parse" and why is None:
            if text in CHARACTERS and isinstance(e, SyntaxError):
                why = "characters"
            elif isinstance(e, UnresolvableUnitException) and inner_digits(text):
                why = "inner-digits"
        if why is None:
            ctx.fail("present", f"{text!r} by {how}: {type(e).__name__}: {e}"[:200])
        ctx.known(why, f"{text!r} by {how}")
        return None


def inner_digits(text):
    import re

    return re.search(r"\d", text) is not None


def texts_case(texts):
    def run(ctx):
        s = system()
        text = ctx.choose("text", texts)
        ref = BY_TEXT[text]
        for how in ("lookup", "parse"):
            unit = reach_text(ctx, s, text, how)
            if unit is not None:
                ctx.reach("present")
                meaning(ctx, s, unit, ref, f"{text!r} by {how}")

    return run


PLAIN_UNITS = ["m", "second", "pascal", "K", "g", "degrees_Celsius", "liters"]


def prefix_case(prefixes, units):
    def run(ctx):
        s = system()
        p, value = ctx.choose("prefix", prefixes)
        u = ctx.choose("unit", units)
        text = p + u
        if text in BY_TEXT:
            raise Infeasible()
        base = BY_TEXT[u]
        unit = s.unit_by_name_or_symbol(text)
        try:
            unit = s.unit(text)
        except SyntaxError:
            ctx.check(p == "\u03bc", "prefix", f"{text}: SyntaxError")
            ctx.known("characters", f"{text}")
        ref = dict(base)
        ref["a"], ref["b"] = R(value) * R(base["a"]), 0
        d = dims(ref)
        check_dims(ctx, unit.dimensionality(), d, "prefix", text)
        basis = s.unit(basis_text(d))
        equal(ctx, Converter(unit, basis).expression, lambda v: to_base(ref, v), "prefix", text)

    return run


def pairs_case(texts, k):
    def run(ctx):
        s = system()
        text = ctx.choose("text", texts)
        ref = BY_TEXT[text]
        same = [u for u in UNITS if dims(u) == dims(ref) and usable(u["text"])]
        i = [u["text"] for u in same].index(text)
        step = ctx.choose("step", range(1, k + 1))
        other = same[(i + step * step) % len(same)]
        if ref["kind"] != "lin" and other["kind"] != "lin" and ref["kind"] != other["kind"]:
            raise Infeasible()
        a, b = s.unit(text), s.unit(other["text"])
        ctx.check(a.is_convertible_to(b), "pair", f"{text} -> {other['text']}")
        got = Converter(a, b).expression
        scale = R(other.get("a", 1))
        origin = (abs(R(ref.get("b", 0))) + abs(R(other.get("b", 0)))) / scale * 2
        equal(ctx, got, lambda v: from_base(other, to_base(ref, v)), "pair", f"{text} -> {other['text']}", origin)

    return run


def usable(text):
    return (
        text not in CHARACTERS
        and not inner_digits(text)
        and not any(text in t for t in THROUGH.values())
        and text.isascii()
    )


def colliding(ctx):
    """Texts two prefixes fit: UDUNITS-2 takes the longer prefix."""
    s = system()
    text, p, u = ctx.choose("text", [("dat", "10", "t"), ("dau", "10", "u"), ("dam", "10", "m"), ("Pam", None, None), ("mm", "1e-3", "m"), ("Eg", "1e18", "g"), ("microm", "1e-6", "m"), ("kilokilogram", "1e3", "kilogram")])
    try:
        unit = s.unit(text)
    except UnresolvableUnitException:
        ctx.check(p is None, "collisions", text)
        return
    ctx.check(p is not None, "collisions", text)
    base = BY_TEXT[u]
    ref = dict(base)
    ref["a"] = R(p) * R(base["a"])
    meaning(ctx, s, unit, ref, text)
    ctx.reach("collisions")


def cases(tier):
    t = tier == "thorough"
    texts = [u["text"] for u in UNITS]
    n = 24
    for i in range(n):
        yield Case(f"texts{i}", texts_case(texts[i::n]), ("present", "to basis", "from basis"))
    units = PLAIN_UNITS if not t else PLAIN_UNITS + [x for x in texts if usable(x) and BY_TEXT[x]["kind"] == "lin" and not BY_TEXT[x]["b"]][::12]
    for i in range(8):
        yield Case(f"prefixes{i}", prefix_case(PREFIXES[i::8], units), ("prefix",))
    good = [x for x in texts if usable(x)]
    for i in range(16):
        yield Case(f"pairs{i}", pairs_case(good[i::16], 1 if not t else 6), ("pair",))
    yield Case("collisions", colliding, ("collisions",))
