"""Translation of the sympy expressions the code under test produced (and of
the oracle's) into solver terms.

Rational arithmetic is exact.  exp/log are uninterpreted apart from: equal
arguments (proved equal by the solver on the current path) give equal results,
exp > 0, log(exp(u)) = u and exp(log(u)) = u."""
from __future__ import annotations

from fractions import Fraction

from . import boot  # noqa: F401
import sympy
import z3

from .coef import Coef


class Untranslatable(Exception):
    pass


MAXPOW = 80


class Smt:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exps = []  # (num, den, var)
        self.logs = []  # (num, den, var)
        self.side = []  # facts about introduced variables
        self.defined = []  # conditions under which the expressions are defined
        self.n = 0

    # -- helpers -----------------------------------------------------------
    def symbol(self, name):
        t = self.ctx.term_of_name(name)
        if t is None:
            return z3.Real(name)
        return z3.ToReal(t) if z3.is_int(t) else t

    def _fresh(self, kind):
        self.n += 1
        return z3.Real(f"{kind}!{self.n}")

    def _proved(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.ctx._check(z3.Not(cond), *self.side, *self.defined) == z3.unsat

    def _same(self, n1, d1, n2, d2):
        return self._proved(n1 * d2 == n2 * d1)

    def exp(self, n, d):
        if self._proved(n == 0):
            return z3.RealVal(1), z3.RealVal(1)
        for ln, ld, v in self.logs:
            if self._same(n, d, v, z3.RealVal(1)):
                return ln, ld
        # exp(k*log(u)) for a small integer k
        for ln, ld, v in self.logs:
            for k in (-1, 2, -2, 3, -3, 4, 5, 6):
                if self._same(n, d, v * k, z3.RealVal(1)):
                    a, b = (ln, ld) if k > 0 else (ld, ln)
                    return self._ipow(a, abs(k)), self._ipow(b, abs(k))
        for en, ed, v in self.exps:
            if self._same(n, d, en, ed):
                return v, z3.RealVal(1)
            if self._same(n, d, -en, ed):
                return z3.RealVal(1), v
        v = self._fresh("EXP")
        self.side.append(v > 0)
        self.exps.append((n, d, v))
        return v, z3.RealVal(1)

    def log(self, n, d):
        if self._proved(n == d):
            return z3.RealVal(0), z3.RealVal(1)
        for en, ed, v in self.exps:
            if self._same(n, d, v, z3.RealVal(1)):
                return en, ed
        for ln, ld, v in self.logs:
            if self._same(n, d, ln, ld):
                return v, z3.RealVal(1)
            if self._same(n, d, ld, ln):
                return -v, z3.RealVal(1)
        v = self._fresh("LOG")
        self.defined.append(n * d > 0)
        # log is 0 exactly at 1, and positive exactly above it
        self.side.append((v == 0) == (n == d))
        self.side.append(z3.Implies(d > 0, (v > 0) == (n > d)))
        self.logs.append((n, d, v))
        return v, z3.RealVal(1)

    @staticmethod
    def _ipow(t, k):
        r = z3.RealVal(1)
        for _ in range(k):
            r = r * t
        return r

    # -- translation ---------------------------------------------------------
    def tr(self, e):
        """-> (numerator, denominator) solver terms."""
        one = z3.RealVal(1)
        if e.is_Rational:
            return z3.RealVal(digits(int(e.p))), z3.RealVal(digits(int(e.q)))
        if e.is_Float:
            f = exact_float(e)
            return z3.RealVal(digits(f.numerator)), z3.RealVal(digits(f.denominator))
        if e.is_Symbol or isinstance(e, Coef):
            return self.symbol(e.name), one
        if e is sympy.E:
            return self.exp(one, one)
        if e is sympy.pi:
            v = z3.Real("PI")
            self.side.append(z3.And(v > z3.Q(314159265, 100000000), v < z3.Q(314159266, 100000000)))
            return v, one
        if e.is_Add:
            n, d = self.tr(e.args[0])
            for a in e.args[1:]:
                n2, d2 = self.tr(a)
                if z3.eq(d, d2):
                    n = n + n2
                else:
                    n, d = n * d2 + n2 * d, d * d2
            return z3.simplify(n), z3.simplify(d)
        if e.is_Mul:
            n, d = one, one
            for a in e.args:
                n2, d2 = self.tr(a)
                n, d = n * n2, d * d2
            return z3.simplify(n), z3.simplify(d)
        if isinstance(e, sympy.exp):
            return self.exp(*self.tr(e.args[0]))
        if isinstance(e, sympy.log):
            if len(e.args) != 1:
                raise Untranslatable(str(e))
            return self.log(*self.tr(e.args[0]))
        if e.is_Pow:
            b, x = e.args
            if x.is_Float and x == int(x):
                x = sympy.Integer(int(x))
            if x.is_Integer:
                k = int(x)
                if abs(k) > MAXPOW:
                    raise Untranslatable(str(e))
                n, d = self.tr(b)
                if k < 0:
                    self.defined.append(n != 0)
                    n, d, k = d, n, -k
                return z3.simplify(self._ipow(n, k)), z3.simplify(self._ipow(d, k))
            if b is sympy.E:
                return self.exp(*self.tr(x))
            ln, ld = self.log(*self.tr(b))
            xn, xd = self.tr(x)
            return self.exp(z3.simplify(ln * xn), z3.simplify(ld * xd))
        if isinstance(e, sympy.Abs):
            n, d = self.tr(e.args[0])
            return z3.If(n >= 0, n, -n), z3.If(d >= 0, d, -d)
        raise Untranslatable(f"{type(e).__name__}: {e}")

    def real(self, e):
        n, d = self.tr(sympy.sympify(e))
        if z3.is_rational_value(d) and d.as_fraction() == 1:
            return n
        return n / d

    def differ(self, a, b):
        """A solver condition: both defined, and different."""
        n1, d1 = self.tr(sympy.sympify(a))
        n2, d2 = self.tr(sympy.sympify(b))
        return z3.And(
            *self.side, *self.defined, d1 != 0, d2 != 0, n1 * d2 != n2 * d1
        )

    def differ_tol(self, a, b, rel, abs_=None):
        """Both defined, and further apart than rel (relative to b) + abs_."""
        n1, d1 = self.tr(sympy.sympify(a))
        n2, d2 = self.tr(sympy.sympify(b))
        x, y = n1 / d1, n2 / d2
        ay = z3.If(y >= 0, y, -y)
        tol = z3.RealVal(str(rel)) * ay
        if abs_:
            tol = tol + z3.RealVal(str(abs_))
        diff = z3.If(x >= y, x - y, y - x)
        return z3.And(*self.side, *self.defined, d1 != 0, d2 != 0, diff > tol)


def digits(n):
    """The digits of an integer of any size (``str`` has a limit)."""
    if abs(n) < 10**4000:
        return str(n)
    sign, n, k = "-" * (n < 0), abs(n), 2000
    parts = []
    while n:
        n, r = divmod(n, 10**k)
        parts.append(str(r).zfill(k))
    return sign + "".join(reversed(parts)).lstrip("0")


def exact_float(e):
    """The decimal literal a sympy Float was read from, when it has one."""
    s = str(e)
    try:
        return Fraction(s)
    except ValueError:
        return Fraction(*e.as_integer_ratio())


class LogForm:
    """value-free scale expressions as  sign * PROD base^exponent, exponents
    being integer terms (possibly symbolic): compared in the log domain."""

    def __init__(self, ctx):
        self.ctx = ctx

    def expo(self, e):
        """An exponent: polynomial over integer variables -> z3 Int term."""
        if e.is_Integer:
            return z3.IntVal(int(e))
        if e.is_Float and e == int(e):
            return z3.IntVal(int(e))
        if e.is_Symbol or isinstance(e, Coef):
            t = self.ctx.term_of_name(e.name)
            if t is None or not z3.is_int(t):
                raise Untranslatable(f"exponent {e}")
            return t
        if e.is_Add:
            return z3.Sum([self.expo(a) for a in e.args])
        if e.is_Mul:
            r = z3.IntVal(1)
            for a in e.args:
                r = r * self.expo(a)
            return r
        if e.is_Pow and e.args[1].is_Integer and 0 <= int(e.args[1]) <= 8:
            r = z3.IntVal(1)
            for _ in range(int(e.args[1])):
                r = r * self.expo(e.args[0])
            return r
        raise Untranslatable(f"exponent {e}")

    def form(self, e):
        """-> dict base name -> z3 Int exponent"""
        if e.is_Symbol or isinstance(e, Coef):
            return {e.name: z3.IntVal(1)}
        if e.is_Rational:
            out = {}
            for k, s in ((int(e.p), 1), (int(e.q), -1)):
                if k <= 0:
                    raise Untranslatable(f"non-positive factor {e}")
                for p, m in sympy.factorint(k).items():
                    out[f"#{p}"] = z3.IntVal(s * m)
            return out
        if e.is_Float:
            f = exact_float(e)
            return self.form(sympy.Rational(f.numerator, f.denominator))
        if e.is_Mul:
            out = {}
            for a in e.args:
                for k, v in self.form(a).items():
                    out[k] = out[k] + v if k in out else v
            return out
        if e.is_Pow:
            x = self.expo(e.args[1])
            return {k: v * x for k, v in self.form(e.args[0]).items()}
        raise Untranslatable(f"{type(e).__name__}: {e}")

    def differ(self, a, b):
        """Condition: the two products differ, as functions of their bases."""
        fa, fb = self.form(sympy.sympify(a)), self.form(sympy.sympify(b))
        zero = z3.IntVal(0)
        keys = sorted(set(fa) | set(fb))
        return z3.Or([fa.get(k, zero) != fb.get(k, zero) for k in keys] + [False])

    def differ_in(self, a, b, names):
        """Condition: the two products have different exponents of the named
        symbols.  What else is in them must agree on this path."""
        fa, fb = self.form(sympy.sympify(a)), self.form(sympy.sympify(b))
        zero = z3.IntVal(0)
        out = []
        for k in sorted(set(fa) | set(fb)):
            d = fa.get(k, zero) != fb.get(k, zero)
            if k in names:
                out.append(d)
            elif self.ctx._check(d) != z3.unsat:
                raise Untranslatable(f"{k} to a symbolic power")
        return z3.Or(out + [False])
