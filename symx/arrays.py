"""Array elements that carry a sympy expression over solver variables.

They are put in numpy object arrays; the real numpy code of the generated
function runs over them.  Floats appearing in that code are read back as the
exact number they spell."""
from __future__ import annotations

import math
from fractions import Fraction

from . import boot  # noqa: F401
import numpy as np
import sympy
import z3

from .coef import Coef

_LOGS = {}
for _n in range(2, 200):
    _LOGS[math.log(_n)] = sympy.log(_n)
    _LOGS[1 / math.log(_n)] = 1 / sympy.log(_n)
_LOGS[math.e] = sympy.E


def exact(x):
    """The number a float literal (or a rational computed in floats) spells."""
    if isinstance(x, (bool, int)):
        return sympy.Integer(int(x))
    if isinstance(x, sympy.Basic):
        return x.xreplace({f: exact(float(f)) for f in x.atoms(sympy.Float)})
    x = float(x)
    if x in _LOGS:
        return _LOGS[x]
    if x != x or x in (math.inf, -math.inf):
        raise ValueError("not a finite number in the generated code")
    f = Fraction(x).limit_denominator(10**8)
    if float(f) != x:
        f = Fraction(repr(x))
    return sympy.Rational(f.numerator, f.denominator)


class Elt:
    """An array element: any real number (see ``e``)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = sympy.sympify(e)

    def _o(self, o):
        if type(o) is Elt:
            return o.e
        if isinstance(o, (int, float, np.floating, np.integer, sympy.Basic)):
            return exact(o if not isinstance(o, np.generic) else o.item())
        return None

    def exp(self):
        return Elt(sympy.exp(self.e))

    def log(self):
        return Elt(sympy.log(self.e))

    def log2(self):
        return Elt(sympy.log(self.e) / sympy.log(2))

    def log10(self):
        return Elt(sympy.log(self.e) / sympy.log(10))

    def exp2(self):
        return Elt(sympy.Integer(2) ** self.e)

    def sqrt(self):
        return Elt(sympy.sqrt(self.e))

    def __neg__(self):
        return Elt(-self.e)

    def __pos__(self):
        return self

    def __repr__(self):
        return f"<{self.e}>"


def _ops():
    def arith(name, fn):
        def op(self, o):
            v = self._o(o)
            return NotImplemented if v is None else Elt(fn(self.e, v))

        def rop(self, o):
            v = self._o(o)
            return NotImplemented if v is None else Elt(fn(v, self.e))

        setattr(Elt, f"__{name}__", op)
        setattr(Elt, f"__r{name}__", rop)

    arith("add", lambda a, b: a + b)
    arith("sub", lambda a, b: a - b)
    arith("mul", lambda a, b: a * b)
    arith("truediv", lambda a, b: a / b)
    arith("pow", lambda a, b: a**b)


_ops()


class Fixed:
    """A fixed-size integer of numpy: arithmetic with integers wraps around."""

    __slots__ = ("z", "lo", "size", "e")

    def __init__(self, z, lo, size, e):
        self.z, self.lo, self.size, self.e = z, lo, size, e

    def _wrap(self, z):
        return z3.simplify((z - self.lo) % self.size + self.lo)

    def __repr__(self):
        return f"<{self.z}>"


def _fixed_ops():
    def arith(name, fn, efn):
        def go(self, o, swap):
            if type(o) is int:
                a, b = (z3.IntVal(o), self.z) if swap else (self.z, z3.IntVal(o))
                if fn is not None:
                    return Fixed(self._wrap(fn(a, b)), self.lo, self.size, None)
            if type(o) is Fixed or self.e is None:
                raise ArithmeticError("integer arithmetic beyond the encoding")
            x = Elt(self.e)
            return efn(o, x) if swap else efn(x, o)

        setattr(Fixed, f"__{name}__", lambda self, o: go(self, o, False))
        setattr(Fixed, f"__r{name}__", lambda self, o: go(self, o, True))

    arith("add", lambda a, b: a + b, lambda a, b: a + b)
    arith("sub", lambda a, b: a - b, lambda a, b: a - b)
    arith("mul", lambda a, b: a * b, lambda a, b: a * b)
    arith("truediv", None, lambda a, b: a / b)
    for fn in ("exp", "log", "log2", "log10", "sqrt"):
        setattr(Fixed, fn, lambda self, fn=fn: getattr(Elt(self.e), fn)())


_fixed_ops()


class IntArray(np.ndarray):
    """An object array which claims an integer dtype."""

    def __new__(cls, items, dtype):
        a = np.empty(np.shape(items), dtype=object).view(cls)
        for i in np.ndindex(a.shape):
            x = items
            for k in i:
                x = x[k]
            np.ndarray.__setitem__(a, i, x)
        a._claims = np.dtype(dtype)
        return a

    def __array_finalize__(self, obj):
        self._claims = getattr(obj, "_claims", None)

    @property
    def dtype(self):
        return self._claims or np.dtype(object)

    def astype(self, dtype, *a, **k):
        kind = np.dtype(dtype).kind
        base = np.asarray(self.view(np.ndarray))
        if kind in "fO":
            out = np.empty(base.shape, dtype=object)
            for i in np.ndindex(base.shape):
                x = base[i]
                out[i] = Elt(x.e) if type(x) is Fixed and kind == "f" else x
            return out
        raise ArithmeticError("integer conversion beyond the encoding")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        args = [x.view(np.ndarray) if isinstance(x, IntArray) else x for x in inputs]
        return getattr(ufunc, method)(*args, **kw)


def wrap_lambdify(orig):
    """The generated function finds symbolic coefficients by their name."""

    def lambdify(args, expr, modules=None, *a, **k):
        cs = expr.atoms(Coef) if hasattr(expr, "atoms") else set()
        if not cs:
            return orig(args, expr, modules, *a, **k)
        ns = {c.name: Elt(c) for c in cs}
        mods = ["numpy"] if modules is None else modules if isinstance(modules, list) else [modules]
        return orig(args, expr, [ns] + mods, *a, **k)

    lambdify.__wrapped__ = orig
    return lambdify
