"""A reference model of a unit system's names, and systems with symbolic names."""
from __future__ import annotations

from symx.values import SymStr, symbolic_tables
from .common import *  # noqa: F401,F403
from pyudunits2._exceptions import UnresolvableUnitException

LETTERS = [(65, 90), (97, 122)]
ANY = [(1, 0x10FFFF)]


def T(ctx, x):
    """Text as it is handed to the system."""
    return SymStr.of(x) if ctx.symbolic else x


class Model:
    """What the registrations made so far mean: four kinds of text, looked up
    name, name alias, symbol, symbol alias; then prefix names and symbols."""

    def __init__(self):
        self.names, self.anames, self.symbols, self.asymbols = [], [], [], []
        self.pnames, self.psymbols = [], []

    @staticmethod
    def put(table, text, what):
        for i, (t, _) in enumerate(table):
            if t == text:
                table[i] = (t, what)
                return
        table.append((text, what))

    @staticmethod
    def get(table, text):
        for t, w in table:
            if t == text:
                return w
        return None

    def add(self, what, name=None, plural=None, symbols=(), anames=(), asymbols=(), replace=False):
        """-> whether the registration is accepted"""
        if not replace:
            for t in (name, plural):
                if t is not None and self.get(self.names, t) is not None:
                    return False
            for t in symbols:
                if self.get(self.symbols, t) is not None:
                    return False
        for t in (name, plural):
            if t is not None:
                self.put(self.names, t, what)
        for t in symbols:
            self.put(self.symbols, t, what)
        for t in anames:
            self.put(self.anames, t, what)
        for t in asymbols:
            self.put(self.asymbols, t, what)
        return True

    def prefix(self, value, name, symbols=()):
        self.put(self.pnames, name, value)
        for t in symbols:
            self.put(self.psymbols, t, value)

    def exact(self, q):
        for table in (self.names, self.anames, self.symbols, self.asymbols):
            w = self.get(table, q)
            if w is not None:
                return w
        return None

    def lookup(self, q):
        """-> scale of what q means, or None"""
        w = self.exact(q)
        if w is not None:
            return w
        for table in (self.pnames, self.psymbols):
            for p, value in table:
                if len(p) <= len(q) and q[: len(p)] == p:
                    w = self.exact(q[len(p):])
                    if w is not None:
                        return value * w
        return None


def fresh(ctx):
    s = symbolic_tables(UnitSystem())
    s.add_unit(basis("meter", None))
    m = Model()
    m.add(1, T(ctx, "meter"), T(ctx, "meters"))
    return s, m


def unit_def(s, scale, name=None, plural=None, symbols=(), anames=(), asymbols=(), definition=None):
    return LazilyDefinedUnit(
        unit_system=s,
        definition=definition or f"{scale} meter",
        names=UnitReference(
            name=Name(singular=name, plural=plural) if name is not None else None,
            symbols=tuple(symbols),
            alias_names=tuple(a if isinstance(a, Name) else Name(singular=a) for a in anames),
            alias_symbols=tuple(asymbols),
        ),
    )


def scale_of(s, unit):
    """The scale of a unit (in meters), from the converter."""
    e = Converter(unit, s.unit("meter")).expression
    r = sympy.expand(e / V)
    if r.free_symbols:
        return None
    return sympy.nsimplify(r, rational=True)


def look(s, q):
    try:
        u = s.unit_by_name_or_symbol(q)
    except UnresolvableUnitException:
        return None
    return scale_of(s, u)


def judge(ctx, s, model, q, label):
    want = model.lookup(q)
    got = look(s, q)
    ctx.check(got == want, label, f"{show(ctx, q)} means {got}, want {want}")
    return want


def show(ctx, q):
    return repr(str(q))
