"""Atoms that stand for unknown numbers in sympy expressions.

The code under test turns a number's text into a sympy number; a symbolic
coefficient becomes one of these instead.  Like sympy.physics' Quantity they
are not Symbols (``free_symbols`` is empty, nothing substitutes them away) but
also not a particular number."""
from __future__ import annotations

from . import boot  # noqa: F401
from sympy.core.expr import AtomicExpr


class Coef(AtomicExpr):
    is_commutative = True
    is_real = True
    is_number = False
    __slots__ = ("name",)

    def __new__(cls, name):
        obj = AtomicExpr.__new__(cls)
        obj.name = name
        return obj

    def __getnewargs__(self):
        return (self.name,)

    def _hashable_content(self):
        return (self.name,)

    @property
    def free_symbols(self):
        return set()

    def _sympystr(self, printer):
        return self.name

    _sympyrepr = _latex = _pretty = _pythoncode = _numpycode = _lambdacode = _sympystr


class PosCoef(Coef):
    is_positive = True
    __slots__ = ()


class IntCoef(Coef):
    is_integer = True
    __slots__ = ()


def coefs(e):
    return e.atoms(Coef)
