"""Shared pieces of the harnesses: a reference meaning of unit expressions that
is independent of the code under test, and unit systems with symbolic data."""
from __future__ import annotations

from symx import boot  # noqa: F401
import sympy
import z3


from symx.engine import Infeasible

import pyudunits2
from pyudunits2 import BasisUnit, Converter, DateUnit, UnitSystem
from pyudunits2._unit_reference import Name, Prefix, UnitReference
from pyudunits2._unit_system import LazilyDefinedUnit

V = sympy.Symbol("value")


def esym(x):
    """The exact sympy number/symbol of a coefficient (symbolic or concrete)."""
    from decimal import Decimal
    from fractions import Fraction

    if hasattr(x, "e"):
        return x.e
    if isinstance(x, (Decimal, str)):
        f = Fraction(x)
        return sympy.Rational(f.numerator, f.denominator)
    return sympy.sympify(x)


def zi(x):
    """Integer (symbolic or concrete) -> solver term / int."""
    return getattr(x, "_z", x)


# -- reference meaning of unit expressions ------------------------------------
class U:
    """A unit expression: its text, and what it means.

    kind  'lin' : base = scale * v
          'off' : base = scale * (v + offset)
          'log' : base = ref.to_base(logbase ** (k * (v + offset)))
    dims  basis name -> integer (symbolic or concrete)
    """

    def __init__(self, text, kind="lin", scale=1, dims=None, offset=0, base=None, ref=None, prec=3, k=1):
        self.k = sympy.sympify(k)
        self.text, self.kind = text, kind
        self.scale = sympy.sympify(scale)
        self.dims = {k: v for k, v in (dims or {}).items()}
        self.offset = sympy.sympify(offset)
        self.base, self.ref = base, ref
        self.prec = prec  # 3 atom, 2 power, 1 product, 0 shift

    # text helpers
    def at(self, prec):
        return self.text if self.prec >= prec else "(" + self.text + ")"

    def linear(self):
        """In a product or power an offset has no effect (UDUNITS-2)."""
        if self.kind == "off":
            return U(self.text, "lin", self.scale, self.dims, prec=self.prec)
        return self

    def mul(self, o, op=" "):
        a, b = self.linear(), o.linear()
        dims = dict(a.dims)
        for k, n in b.dims.items():
            dims[k] = zadd(dims.get(k, 0), n)
        return U(
            self.at(1) + op + o.at(2), "lin", a.scale * b.scale, dims, prec=1
        )

    def div(self, o, op="/"):
        a, b = self.linear(), o.linear()
        dims = dict(a.dims)
        for k, n in b.dims.items():
            dims[k] = zsub(dims.get(k, 0), n)
        return U(
            self.at(1) + op + o.at(2), "lin", a.scale / b.scale, dims, prec=1
        )

    def pow(self, n, ntext, op="^", scale=True):
        a = self.linear()
        return U(
            self.at(3) + op + ntext,
            "lin",
            a.scale ** powsym(n),
            {k: zmul(v, n) for k, v in a.dims.items()},
            prec=2,
        )

    def shift(self, c, ctext, op=" @ "):
        """value in this unit counts from c of the shifted unit"""
        off = self.offset if self.kind in ("off", "log") else 0
        if self.kind == "log":
            return U(
                self.at(1) + op + ctext, "log", 1, self.dims, off + sympy.sympify(c), self.base, self.ref, 0, self.k
            )
        return U(
            self.at(1) + op + ctext,
            "off",
            self.scale,
            self.dims,
            offset=off + sympy.sympify(c),
            prec=0,
        )

    def log(self, fn):
        base = {"lg": sympy.Integer(10), "lb": sympy.Integer(2), "ln": sympy.E, "log": sympy.Integer(10)}[fn]
        return U(f"{fn}(re {self.text})", "log", 1, self.dims, base=base, ref=self, prec=3)

    def named(self, name):
        return U(name, self.kind, self.scale, self.dims, self.offset, self.base, self.ref, 3, self.k)

    # meaning
    def to_base(self, v):
        if self.kind == "log":
            return self.ref.to_base(self.base ** (self.k * (v + self.offset)))
        return self.scale * (v + self.offset)

    def from_base(self, x):
        if self.kind == "log":
            y = self.ref.from_base(x)
            y = sympy.log(y) if self.base is sympy.E else sympy.log(y) / sympy.log(self.base)
            return y / self.k - self.offset
        return x / self.scale - self.offset

    def convert(self, v, to, inverse=False):
        b = self.to_base(v)
        return to.from_base(1 / b if inverse else b)


def powsym(n):
    if hasattr(n, "_z"):
        from symx import engine

        return engine.CUR.sympy_of(n._z)
    return sympy.Integer(int(n))


def zadd(a, b):
    return a + b


def zsub(a, b):
    return a - b


def zmul(a, b):
    return a * b


def num(ctx, x):
    """A numeric factor as a unit expression."""
    return U(ctx.lit(x), "lin", esym(x), {}, prec=3)


# -- systems -------------------------------------------------------------------
def basis(name, symbol, dimensionless=False, time=False, plural=None):
    return BasisUnit(
        names=UnitReference(
            name=Name(singular=name, plural=plural or name + "s"),
            symbols=(symbol,) if symbol else (),
        ),
        dimensionless=dimensionless,
        is_time_unit=time,
    )


def define(system, name, text, symbols=(), plural=None, **kw):
    system.add_unit(
        LazilyDefinedUnit(
            unit_system=system,
            definition=text,
            names=UnitReference(
                name=Name(singular=name, plural=plural), symbols=tuple(symbols), **kw
            ),
        )
    )


BASES = {
    "m": ("meter", {"m": 1}),
    "s": ("second", {"s": 1}),
    "kg": ("kilogram", {"kg": 1}),
    "K": ("kelvin", {"K": 1}),
    "rad": ("radian", {}),
}
LONG = {"m": "meter", "s": "second", "kg": "kilogram", "K": "kelvin", "rad": "radian"}


def base_system():
    s = UnitSystem()
    s.add_unit(basis("meter", "m"))
    s.add_unit(basis("second", "s", time=True))
    s.add_unit(basis("kilogram", "kg"))
    s.add_unit(basis("kelvin", "K"))
    s.add_unit(basis("radian", "rad", dimensionless=True))
    return s


def base_unit(sym):
    if sym == "rad":
        return U("rad", "lin", 1, {})
    return U(sym, "lin", 1, {LONG[sym]: 1})


def dims_of(d):
    """Observed dimensionality -> {basis text: order}"""
    return {str(k): v for k, v in d.items()}


def zero(ctx, n):
    """Is the (symbolic or concrete) integer zero on this path?"""
    n = zi(n)
    if isinstance(n, int):
        return n == 0
    return ctx.branch(n == 0)


def check_dims(ctx, observed, want, label, detail=""):
    """Observed dimensionality is exactly the expected one."""
    got = dims_of(observed)
    keys = sorted(set(got) | set(want))
    conds = []
    for k in keys:
        g, w = zi(got.get(k, 0)), zi(want.get(k, 0))
        conds.append(g == w)
        if k in got:
            conds.append(zi(got[k]) != 0)
    conds = [c if not isinstance(c, bool) else z3.BoolVal(c) for c in conds]
    if ctx.symbolic:
        ctx.check(z3.And(conds + [True]), label, f"{detail}: got {got}, want {want}")
    else:
        ctx.check(
            all(z3.is_true(z3.simplify(c)) for c in conds),
            label,
            f"{detail}: got {got}, want {want}",
        )


def nonzero_dims(ctx, dims):
    """Expected dimensionality with the zero orders dropped (forks on them)."""
    return {k: n for k, n in dims.items() if not zero(ctx, n)}


def same_text(ctx, a, b):
    """Do two texts read the same, on this path?  (Symbolic characters are
    compared by the solver, numbers by their term.)"""
    a, b = str(a), str(b)
    if a == b or not ctx.symbolic:
        return a == b
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x == y:
            continue
        tx, ty = ctx._char_terms(x), ctx._char_terms(y)
        if tx is None or ty is None:
            return False
        conds.append(tx[0] == ty[0])
    return not ctx.branch(z3.Not(z3.And(conds)))
