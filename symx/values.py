"""Symbolic stand-ins for the data the code under test computes with.

They are ordinary objects that claim to be ``int`` / ``str`` / ``Decimal``
through ``__class__`` (so ``isinstance`` in the code under test behaves), but
are not sub-classes of them, so no C routine can silently read a wrong
concrete value out of them: it either calls back into the methods below or
raises.
"""
from __future__ import annotations

import builtins
import decimal
from fractions import Fraction

from . import boot  # noqa: F401
import z3

from . import engine

RealInt = int
RealDecimal = decimal.Decimal

# -- placeholders: characters that stand for symbolic text -------------------
PH_BASE = 0xF0000
PH_LAST = 0xFFFFD


def is_ph(ch) -> bool:
    return PH_BASE <= ord(ch) <= PH_LAST


def has_ph(s) -> bool:
    return type(s) in (str, PhStr) and any(PH_BASE <= ord(c) <= PH_LAST for c in str(s))


def zint(x):
    if isinstance(x, SymInt):
        return x._z
    return x


class SymBool:
    __slots__ = ("_z",)

    def __init__(self, z):
        self._z = z

    def __bool__(self):
        return engine.CUR.branch(self._z)

    def __and__(self, o):
        return SymBool(z3.And(self._z, _zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self._z, _zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self._z))

    def __eq__(self, o):
        return SymBool(self._z == _zb(o))

    def __ne__(self, o):
        return SymBool(self._z != _zb(o))

    __hash__ = None

    def __repr__(self):
        return f"SymBool({self._z})"


def _zb(x):
    if isinstance(x, SymBool):
        return x._z
    return z3.BoolVal(bool(x))


def _real_int(x):
    return type(x) is RealInt or type(x) is bool


class SymInt:
    """An integer of any size."""

    __slots__ = ("_z",)

    def __init__(self, z):
        object.__setattr__(self, "_z", z)

    @property
    def __class__(self):
        return RealInt

    @staticmethod
    def _mk(z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SymInt(z)

    def _o(self, o):
        if type(o) is SymInt:
            return o._z
        if _real_int(o):
            return z3.IntVal(RealInt(o))
        return None

    def __hash__(self):
        return 7

    def __int__(self):
        return engine.CUR.concretise(self._z)

    __index__ = __int__

    def __bool__(self):
        return engine.CUR.branch(self._z != 0)

    def __neg__(self):
        return SymInt._mk(-self._z)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __str__(self):
        return engine.CUR.text_of_int(self)

    def __format__(self, spec):
        return engine.CUR.text_of_int(self, spec)

    def __repr__(self):
        return engine.CUR.text_of_int(self) if engine.CUR else f"SymInt({self._z})"

    def bit_length(self):
        return RealInt(self).bit_length()

    def is_integer(self):
        return True


def _add_int_ops():
    def arith(name, fn):
        def op(self, o):
            if type(o) is SymDec:
                return getattr(SymDec.lift(self), name)(o)
            z = self._o(o)
            if z is None:
                return NotImplemented
            return SymInt._mk(fn(self._z, z))

        def rop(self, o):
            z = self._o(o)
            if z is None:
                return NotImplemented
            return SymInt._mk(fn(z, self._z))

        setattr(SymInt, name, op)
        setattr(SymInt, "__r" + name[2:], rop)

    arith("__add__", lambda a, b: a + b)
    arith("__sub__", lambda a, b: a - b)
    arith("__mul__", lambda a, b: a * b)

    def floordiv(a, b):
        # z3's div is Euclidean; Python's rounds towards minus infinity
        return z3.If(b > 0, a / b, (-a) / (-b))

    def pymod(a, b):
        return a - floordiv(a, b) * b

    def guard(fn):
        def g(self, o):
            z = self._o(o)
            if z is None:
                return NotImplemented
            if engine.CUR.branch(z == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return SymInt._mk(fn(self._z, z))

        return g

    SymInt.__floordiv__ = guard(floordiv)
    SymInt.__mod__ = guard(pymod)

    def rfloordiv(self, o):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SymInt(z).__floordiv__(self)

    SymInt.__rfloordiv__ = rfloordiv

    def divmod_(self, o):
        return self // o, self % o

    SymInt.__divmod__ = divmod_

    def compare(name, fn, miss):
        def op(self, o):
            if type(o) is SymDec:
                return NotImplemented
            if type(o) is float and o == RealInt(o):
                o = RealInt(o)
            z = self._o(o)
            if z is None:
                return miss
            return SymBool(fn(self._z, z))

        setattr(SymInt, name, op)

    compare("__eq__", lambda a, b: a == b, False)
    compare("__ne__", lambda a, b: a != b, True)
    compare("__lt__", lambda a, b: a < b, NotImplemented)
    compare("__le__", lambda a, b: a <= b, NotImplemented)
    compare("__gt__", lambda a, b: a > b, NotImplemented)
    compare("__ge__", lambda a, b: a >= b, NotImplemented)

    def pow_(self, o, mod=None):
        if _real_int(o):
            if 0 <= o <= 64:
                r = z3.IntVal(1)
                for _ in range(o):
                    r = r * self._z
                return SymInt._mk(r)
            return SymDec.lift(self) ** o
        return NotImplemented

    SymInt.__pow__ = pow_

    def truediv(self, o):
        return SymDec.lift(self) / o

    def rtruediv(self, o):
        return SymDec.lift(o) / self

    SymInt.__truediv__ = truediv
    SymInt.__rtruediv__ = rtruediv


_add_int_ops()


class SymDec:
    """A numeric coefficient: an exact real, carried as a sympy expression over
    named symbols, each of which is a solver variable."""

    __slots__ = ("e", "parts")

    def __init__(self, e, parts=None):
        object.__setattr__(self, "e", e)
        # (negative, digit characters, exponent) when read from text
        object.__setattr__(self, "parts", parts)

    @property
    def __class__(self):
        return RealDecimal

    @classmethod
    def var(cls, name, positive=False):
        from .coef import Coef, PosCoef

        return cls((PosCoef if positive else Coef)(name))

    @classmethod
    def lift(cls, x):
        import sympy

        if type(x) is SymDec:
            return x
        if type(x) is SymInt:
            return cls(engine.CUR.sympy_of(x._z))
        if type(x) is RealDecimal:
            f = Fraction(x)
            return cls(sympy.Rational(f.numerator, f.denominator))
        return cls(sympy.sympify(x))

    def _sympy_(self):
        return self.e

    def __str__(self):
        return engine.CUR.text_of_dec(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec not in ("", "s"):
            raise engine.Inconclusive(f"format spec {spec!r} on a symbolic decimal")
        return engine.CUR.text_of_dec(self)

    def __hash__(self):
        return 7

    def _z(self):
        return engine.CUR.smt().real(self.e)

    def __float__(self):
        raise TypeError("symbolic coefficient would be rounded to a float")

    def __int__(self):
        raise TypeError("symbolic coefficient would be truncated to an int")

    def __bool__(self):
        return engine.CUR.branch(self._z() != 0)

    def __neg__(self):
        p = self.parts
        return SymDec(-self.e, p and (not p[0], p[1], p[2]))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def is_zero(self):
        return not self.__bool__()

    def is_nan(self):
        return False

    def is_finite(self):
        return True

    def is_signed(self):
        return bool(self < 0)

    def normalize(self, *a):
        return self


def _numlike(o):
    return type(o) in (SymDec, SymInt, RealInt, RealDecimal, float, Fraction, bool)


def _add_dec_ops():
    def arith(name, fn):
        def op(self, o):
            if not _numlike(o):
                return NotImplemented
            return SymDec(fn(self.e, SymDec.lift(o).e))

        def rop(self, o):
            if not _numlike(o):
                return NotImplemented
            return SymDec(fn(SymDec.lift(o).e, self.e))

        setattr(SymDec, name, op)
        setattr(SymDec, "__r" + name[2:], rop)

    arith("__add__", lambda a, b: a + b)
    arith("__sub__", lambda a, b: a - b)
    arith("__mul__", lambda a, b: a * b)
    arith("__truediv__", lambda a, b: a / b)
    arith("__pow__", lambda a, b: a**b)

    def compare(name, fn, miss):
        def op(self, o):
            if not _numlike(o):
                return miss
            return SymBool(fn(self._z(), SymDec.lift(o)._z()))

        setattr(SymDec, name, op)

    compare("__eq__", lambda a, b: a == b, False)
    compare("__ne__", lambda a, b: a != b, True)
    compare("__lt__", lambda a, b: a < b, NotImplemented)
    compare("__le__", lambda a, b: a <= b, NotImplemented)
    compare("__gt__", lambda a, b: a > b, NotImplemented)
    compare("__ge__", lambda a, b: a >= b, NotImplemented)


_add_dec_ops()


#: what str.strip() strips
WHITE = "".join(chr(i) for i in range(0x3001) if chr(i).isspace())


class SymStr:
    """Text of known length whose characters are solver variables."""

    __slots__ = ("c",)

    def __init__(self, chars):
        object.__setattr__(self, "c", tuple(chars))

    @property
    def __class__(self):
        return str

    @staticmethod
    def of(s):
        if type(s) is SymStr:
            return s
        s = str(s)
        if has_ph(s):
            terms = engine.CUR._char_terms(s)
            if terms is None:
                raise engine.Inconclusive("text of a symbolic number used as text")
            return SymStr(terms)
        return SymStr([z3.IntVal(ord(ch)) for ch in s])

    def __hash__(self):
        return 11

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def _eqz(self, o):
        if type(o) in (str, PhStr):
            o = SymStr.of(o)
        if type(o) is not SymStr:
            return None
        if len(o.c) != len(self.c):
            return z3.BoolVal(False)
        return z3.And([a == b for a, b in zip(self.c, o.c)])

    def __eq__(self, o):
        z = self._eqz(o)
        if z is None:
            return NotImplemented
        return bool(SymBool(z))

    def __ne__(self, o):
        z = self._eqz(o)
        if z is None:
            return NotImplemented
        return not bool(SymBool(z))

    def __lt__(self, o):
        o = SymStr.of(o)
        for a, b in zip(self.c, o.c):
            if engine.CUR.branch(a < b):
                return True
            if engine.CUR.branch(a > b):
                return False
        return len(self.c) < len(o.c)

    def __gt__(self, o):
        return SymStr.of(o) < self

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def startswith(self, p, start=0, end=None):
        me = self[start:end]
        if isinstance(p, tuple):
            return any(me.startswith(q) for q in p)
        p = SymStr.of(p)
        if len(p.c) > len(me.c):
            return False
        return bool(SymBool(z3.And([a == b for a, b in zip(me.c, p.c)] + [True])))

    def endswith(self, p, start=0, end=None):
        me = self[start:end]
        if isinstance(p, tuple):
            return any(me.endswith(q) for q in p)
        p = SymStr.of(p)
        n = len(p.c)
        if n > len(me.c):
            return False
        if n == 0:
            return True
        return bool(SymBool(z3.And([a == b for a, b in zip(me.c[-n:], p.c)])))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr(self.c[k])
        return SymStr([self.c[k]])

    def __iter__(self):
        for ch in self.c:
            yield SymStr([ch])

    def __contains__(self, o):
        o = SymStr.of(o)
        n = len(o.c)
        return any(self[i : i + n] == o for i in range(len(self.c) - n + 1))

    def find(self, o):
        o = SymStr.of(o)
        n = len(o.c)
        for i in range(len(self.c) - n + 1):
            if self[i : i + n] == o:
                return i
        return -1

    def __add__(self, o):
        if type(o) not in (str, SymStr, PhStr):
            return NotImplemented
        return SymStr(self.c + SymStr.of(o).c)

    def __radd__(self, o):
        if type(o) not in (str, SymStr, PhStr):
            return NotImplemented
        return SymStr(SymStr.of(o).c + self.c)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _space(self, ch, chars):
        if chars is None:
            chars = WHITE
        if z3.is_int_value(ch):
            return chr(ch.as_long()) in chars
        return engine.CUR.branch(z3.Or([ch == ord(x) for x in chars]))

    def isspace(self):
        return len(self.c) > 0 and all(self._space(c, None) for c in self.c)

    def replace(self, old, new, count=-1):
        old, new = SymStr.of(old), SymStr.of(new)
        n = len(old.c)
        if n == 0:
            raise engine.Inconclusive("replacing the empty text")
        out, i = [], 0
        while i < len(self.c):
            if count and i + n <= len(self.c) and self[i : i + n] == old:
                out.extend(new.c)
                i += n
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return SymStr(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0:
                raise engine.Inconclusive("splitting a symbolic text")
            words, word = [], []
            for ch in self.c:
                if self._space(ch, None):
                    if word:
                        words.append(SymStr(word))
                    word = []
                else:
                    word.append(ch)
            return words + ([SymStr(word)] if word else [])
        out, rest = [], self
        while maxsplit and (i := rest.find(sep)) >= 0:
            out.append(rest[:i])
            rest = rest[i + len(sep) :]
            maxsplit -= 1
        return out + [rest]

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._space(self.c[i], chars):
            i += 1
        return SymStr(self.c[i:])

    def rstrip(self, chars=None):
        n = len(self.c)
        while n and self._space(self.c[n - 1], chars):
            n -= 1
        return SymStr(self.c[:n])

    def lower(self):
        return SymStr(
            [z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in self.c]
        )

    def upper(self):
        return SymStr(
            [z3.If(z3.And(c >= 97, c <= 122), c - 32, c) for c in self.c]
        )

    def isdigit(self):
        return len(self.c) > 0 and bool(
            SymBool(z3.And([z3.And(c >= 48, c <= 57) for c in self.c]))
        )

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymStr([]), SymStr([])
        return self[:i], self[i : i + len(sep)], self[i + len(sep) :]

    def rfind(self, o):
        n = len(o)
        for i in range(len(self.c) - n, -1, -1):
            if self[i : i + n] == o:
                return i
        return -1

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return SymStr([]), SymStr([]), self
        return self[:i], self[i : i + len(sep)], self[i + len(sep) :]

    def __str__(self):
        return engine.CUR.text_of_chars(self.c)

    def __format__(self, spec):
        return engine.CUR.text_of_chars(self.c)

    def __repr__(self):
        if engine.CUR is None:
            return f"SymStr({self.c})"
        return repr(engine.CUR.text_of_chars(self.c))


class PhStr(str):
    """Text with placeholders for symbolic characters that asks the solver
    what its characters are (where it goes into C code it is a plain text)."""

    __slots__ = ()
    __hash__ = str.__hash__

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if len(self) != len(o):
            return False
        if str.__eq__(self, str(o)):
            return True
        return SymStr.of(str(self)) == SymStr.of(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    @staticmethod
    def back(r):
        if type(r) is SymStr:
            r = str(r)
            return PhStr(r) if has_ph(r) else r
        if type(r) in (tuple, list):
            return type(r)(map(PhStr.back, r))
        return r

    def __getitem__(self, k):
        return PhStr.back(SymStr.of(str(self))[k])

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __add__(self, o):
        r = str.__add__(self, o)
        return PhStr(r) if has_ph(r) else r


def _add_ph_methods():
    def through(name):
        def f(self, *a, **k):
            return PhStr.back(getattr(SymStr.of(str(self)), name)(*a, **k))

        f.__name__ = name
        setattr(PhStr, name, f)

    for name in ("isspace isdigit lower upper startswith endswith strip lstrip rstrip split partition rpartition find "
                 "replace removeprefix removesuffix __contains__").split():  # fmt: skip
        through(name)

    def outside(name):
        def f(self, *a, **k):
            raise engine.Inconclusive(f"str.{name} of symbolic text")

        setattr(PhStr, name, f)

    for name in ("isalpha isalnum isnumeric isdecimal isidentifier islower isupper istitle isascii isprintable casefold "
                 "capitalize title swapcase splitlines count rfind index rindex rsplit translate").split():  # fmt: skip
        outside(name)


_add_ph_methods()


class SymDict(dict):
    """A dictionary whose keys may be symbolic text: looking a key up compares
    it with every key in turn (each comparison is a solver decision)."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._kv = []
        self.update(*a, **k)

    @staticmethod
    def _same(a, b):
        if type(a) is SymStr or type(b) is SymStr or has_ph(a) or has_ph(b):
            if not (isinstance(a, str) and isinstance(b, str)):
                return False
            return SymStr.of(a) == SymStr.of(b)
        return a == b

    def _find(self, key):
        for i, (k, _) in enumerate(self._kv):
            if self._same(k, key):
                return i
        return None

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        return self._kv[i][1]

    def __setitem__(self, key, value):
        i = self._find(key)
        if i is None:
            self._kv.append((key, value))
        else:
            self._kv[i] = (self._kv[i][0], value)

    def __delitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        del self._kv[i]

    def __contains__(self, key):
        return self._find(key) is not None

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self._kv[i][1]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i is None:
            self._kv.append((key, default))
            return default
        return self._kv[i][1]

    _MISS = object()

    def pop(self, key, default=_MISS):
        i = self._find(key)
        if i is None:
            if default is self._MISS:
                raise KeyError(key)
            return default
        return self._kv.pop(i)[1]

    def update(self, *a, **k):
        for src in a:
            for key in src.keys() if hasattr(src, "keys") else ():
                self[key] = src[key]
            if not hasattr(src, "keys"):
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def clear(self):
        self._kv.clear()

    def keys(self):
        return [k for k, _ in self._kv]

    def values(self):
        return [v for _, v in self._kv]

    def items(self):
        return list(self._kv)

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def __len__(self):
        return len(self._kv)

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        return len(self) == len(o) and all(k in o and o[k] == v for k, v in self._kv)

    __hash__ = None

    def __repr__(self):
        return repr(dict(enumerate(self._kv)))


def symbolic_tables(obj):
    """Let the dictionaries an object owns take symbolic keys."""
    if engine.CUR is not None and engine.CUR.symbolic:
        for k, v in list(vars(obj).items()):
            if type(v) is dict:
                setattr(obj, k, SymDict(v))
    return obj


# -- number constructors the code under test calls on token text --------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, RealInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, RealInt)

    def __call__(cls, *a, **k):
        if a and len(a) == 1 and not k:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) is SymStr:
                x = str(x)
            if has_ph(x):
                return engine.CUR.int_of_text(str(x))
        return RealInt(*a, **k)

    def __getattr__(cls, name):
        return getattr(RealInt, name)

    def __eq__(cls, o):
        return o is RealInt or o is cls

    def __hash__(cls):
        return hash(RealInt)


class IntType(metaclass=_IntMeta):
    pass


class _DecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, RealDecimal)

    def __subclasscheck__(cls, c):
        return issubclass(c, RealDecimal)

    def __call__(cls, *a, **k):
        if a and len(a) == 1 and not k:
            x = a[0]
            if type(x) is SymDec:
                return x
            if type(x) is SymInt:
                return SymDec.lift(x)
            if type(x) is SymStr:
                x = str(x)
            if has_ph(x):
                return engine.CUR.decimal_of_text(str(x))
        return RealDecimal(*a, **k)

    def __getattr__(cls, name):
        return getattr(RealDecimal, name)

    def __eq__(cls, o):
        return o is RealDecimal or o is cls

    def __hash__(cls):
        return hash(RealDecimal)


class DecimalType(metaclass=_DecMeta):
    pass


assert builtins.int is RealInt
