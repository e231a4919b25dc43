"""What the symbolic run replaces in the code under test.

Only names are re-bound, in the running process: ``int``/``Decimal`` where the
code turns token text into numbers, and the character stream handed to the
lexer.  The replay of a counterexample runs without any of this."""
from __future__ import annotations

import contextlib
import decimal
import importlib
import sys

from . import boot  # noqa: F401
import z3

from . import engine
from .values import (
    DecimalType,
    IntType,
    RealDecimal,
    RealInt,
    SymDec,
    SymDict,
    SymInt,
    PhStr,
    SymStr,
    is_ph,
)

MODULES = [
    "pyudunits2._unit",
    "pyudunits2._unit_system",
    "pyudunits2._unit_reference",
    "pyudunits2._datetime",
    "pyudunits2._grammar",
    "pyudunits2._expr.atoms",
    "pyudunits2._expr.dimensionality",
    "pyudunits2._expr.expander",
    "pyudunits2._expr.graph",
    "pyudunits2._expr.normaliser",
    "pyudunits2._expr.split",
    "pyudunits2._expr.substitute",
    "pyudunits2._expr.sympy",
]


def _load():
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    out = []
    for name, mod in list(sys.modules.items()):
        if name.startswith("pyudunits2.") and mod is not None:
            if "_antlr4_runtime" in name or "_grammar.parser" in name or ".tests" in name:
                continue
            out.append(mod)
    return out


class SymChar:
    """One symbolic character, as the lexer sees it."""

    __slots__ = ("stream", "term", "key")

    def __init__(self, stream, term):
        self.stream = stream
        self.term = term
        self.key = term.sexpr()

    @property
    def __class__(self):
        return RealInt

    def __eq__(self, o):
        if type(o) is RealInt:
            if o < 0:
                return False
            if o == 10:
                return False  # line counting only; see DESIGN
            return engine.CUR.branch(self.term == o)
        return self is o

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return engine.CUR.branch(self.term < o)

    def __le__(self, o):
        return engine.CUR.branch(self.term <= o)

    def __gt__(self, o):
        return engine.CUR.branch(self.term > o)

    def __ge__(self, o):
        return engine.CUR.branch(self.term >= o)

    def __sub__(self, o):
        raise TypeError("symbolic character used as a table index")

    def __hash__(self):
        return 3


FULL = [(0, 0x10FFFF)]


def _intersect(a, b):
    out = []
    for x0, x1 in a:
        for y0, y1 in b:
            lo, hi = max(x0, y0), min(x1, y1)
            if lo <= hi:
                out.append((lo, hi))
    return out


def make_stream(base):
    class SymStream(base):
        __slots__ = ("texts",)

        def __init__(self, data):
            ctx = engine.CUR
            if ctx is None or not ctx.symbolic or not (
                type(data) is SymStr or any(is_ph(c) for c in data)
            ):
                super().__init__(data)
                self.texts = None
                return
            self.name = "<symbolic>"
            text = str(data)
            self.strdata = text
            self._index = 0
            self.data = []
            self.texts = list(text)
            self._size = len(text)
            for ch in text:
                if not is_ph(ch):
                    self.data.append(ord(ch))
                    continue
                kind, v = ctx.ph_entry(ch)
                if kind == "num":
                    self.data.append(ord("7"))
                else:
                    self.data.append(SymChar(self, v))

        def getText(self, start, stop):
            if self.texts is None:
                return super().getText(start, stop)
            if stop >= self._size:
                stop = self._size - 1
            if start >= self._size:
                return ""
            out = []
            for i in range(start, stop + 1):
                d = self.data[i]
                if type(d) is SymChar:
                    left = engine.CUR.charset.get(d.key, FULL)
                    if len(left) == 1 and left[0][0] == left[0][1]:
                        out.append(chr(left[0][0]))
                        continue
                out.append(self.texts[i])
            text = "".join(out)
            if all(not is_ph(c) or engine.CUR.ph_entry(c)[0] == "char" for c in text) and any(map(is_ph, text)):
                return PhStr(text)
            return text

    return SymStream


_MAXC = 0x10FFFF


def _ranges_of(trans, MAXC):
    """Code-point ranges a lexer transition matches, from its own data."""
    name = type(trans).__name__
    if name == "AtomTransition":
        return [(trans.label_, trans.label_)]
    if name == "RangeTransition":
        return [(trans.start, trans.stop)]
    if name in ("SetTransition", "NotSetTransition"):
        rs = [(r.start, r.stop - 1) for r in (trans.label.intervals or [])]
        if name == "SetTransition":
            return rs
        rs.sort()
        out, pos = [], 0
        for a, b in rs:
            if a > pos:
                out.append((pos, a - 1))
            pos = max(pos, b + 1)
        if pos <= MAXC:
            out.append((pos, MAXC))
        return out
    if name == "WildcardTransition":
        return [(0, MAXC)]
    return None


def _groups(sim, state):
    """Partition the code points by which of the state's transitions accept
    them: characters in one group are indistinguishable to the lexer here."""
    cache = sim.__dict__.setdefault("_symx_groups", {})
    hit = cache.get(id(state))
    if hit is not None and hit[0] is state:
        return hit[1]
    trs = []
    for cfg in state.configs:
        for t in cfg.state.transitions:
            r = _ranges_of(t, _MAXC)
            if r is not None:
                trs.append((t, r))
    cuts = {0, _MAXC + 1}
    for _, rs in trs:
        for a, b in rs:
            cuts.add(a)
            cuts.add(b + 1)
    cuts = sorted(c for c in cuts if c <= _MAXC + 1)
    groups = {}
    for a, b in zip(cuts, cuts[1:]):
        sig = tuple(bool(t.matches(a, 0, sim.MAX_CHAR_VALUE)) for t, _ in trs)
        g = groups.setdefault(sig, [])
        if g and g[-1][1] == a - 1:
            g[-1] = (g[-1][0], b - 1)
        else:
            g.append((a, b - 1))
    out = list(groups.values())
    cache[id(state)] = (state, out)
    return out


def _pick_group(sim, state, ch):
    ctx = engine.CUR
    left = ctx.charset.get(ch.key, FULL)
    options = []
    for g in _groups(sim, state):
        r = _intersect(left, g)
        if r:
            options.append(r)
    for r in options[:-1]:
        if ctx.branch(engine.in_ranges(ch.term, r)):
            ctx.charset[ch.key] = r
            return r[0][0]
    r = options[-1]
    ctx.assume(engine.in_ranges(ch.term, r))
    ctx.charset[ch.key] = r
    return r[0][0]


_MEMO = {}


def _memo(fn):
    """sympy's functions are pure: the many paths share their results."""
    table = _MEMO.setdefault(fn, {})

    def wrapper(*a, **k):
        try:
            key = (a, tuple(sorted(k.items())), tuple(type(x) for x in a))
            hit = table.get(key)
        except TypeError:
            return fn(*a, **k)
        if hit is None:
            hit = table[key] = (fn(*a, **k),)
        r = hit[0]
        return list(r) if type(r) is list else r

    wrapper.__wrapped__ = fn
    return wrapper


def _wrap(name, fn):
    if name == "parse_expr":
        return _parsing(fn)
    if name == "lambdify":
        from .arrays import wrap_lambdify

        return wrap_lambdify(fn)
    if name == "expand":

        def expand(*a, **k):
            r = fn(*a, **k)
            ctx = engine.CUR
            if ctx is not None and ctx.symbolic and hasattr(r, "atoms"):
                r = ctx.decide_zero(r)
            return r

        return expand
    return fn


def _parsing(parse):
    """parse_expr on the text of a number: the names in it are numbers."""

    def parse_number(text, *a, **k):
        e = parse(text, *a, **k)
        ctx = engine.CUR
        if ctx is not None and ctx.symbolic:
            sub = {s: ctx.coef(s.name) for s in e.free_symbols}
            e = e.xreplace({s: c for s, c in sub.items() if c is not None})
        return e

    return parse_number


@contextlib.contextmanager
def installed(decimal_module=False):
    mods = _load()
    undo = []

    def setattr_(obj, name, value):
        old = obj.__dict__.get(name, undo)
        undo.append((obj, name, old))
        setattr(obj, name, value)

    grammar = sys.modules["pyudunits2._grammar"]
    for mod in mods:
        if "int" not in mod.__dict__:
            setattr_(mod, "int", IntType)
    runtime = sys.modules["pyudunits2._grammar._antlr4_runtime"]
    real_stream = runtime.InputStream
    if not isinstance(real_stream, type):  # the module rather than the class
        real_stream = real_stream.InputStream
    for mod in [*mods, runtime, sys.modules[real_stream.__module__]]:
        for name, val in list(mod.__dict__.items()):
            if val is RealDecimal and mod in mods:
                setattr_(mod, name, DecimalType)
            elif isinstance(val, type) and issubclass(val, real_stream) and (val is real_stream or val.__module__ == mod.__name__):
                setattr_(mod, name, make_stream(val))
    import sympy
    from sympy.parsing import sympy_parser

    pure = {}
    for owner, name in (
        (sympy, "simplify"),
        (sympy, "expand"),
        (sympy, "solve"),
        (sympy, "lambdify"),
        (sympy_parser, "parse_expr"),
    ):
        orig = getattr(owner, name)
        pure[id(orig)] = (orig, _wrap(name, _memo(orig)))
        setattr_(owner, name, pure[id(orig)][1])
    for mod in mods:
        for name, val in list(mod.__dict__.items()):
            hit = pure.get(id(val))
            if hit is not None and hit[0] is val:
                setattr_(mod, name, hit[1])
    if decimal_module:
        setattr_(decimal, "Decimal", DecimalType)
    us = sys.modules["pyudunits2._unit_system"].UnitSystem
    orig_lookup = us.__dict__.get("unit_by_name_or_symbol")
    if callable(orig_lookup):

        def unit_by_name_or_symbol(self, name, *a, **k):
            # text read from symbolic characters, or to be compared with such
            if type(name) in (str, PhStr) and (
                any(is_ph(c) for c in name)
                or any(type(v) is SymDict for v in vars(self).values())
            ):
                name = SymStr.of(name)
            return orig_lookup(self, name, *a, **k)

        setattr_(us, "unit_by_name_or_symbol", unit_by_name_or_symbol)
    from pyudunits2._grammar._antlr4_runtime.atn.LexerATNSimulator import (
        LexerATNSimulator,
    )

    orig_existing = LexerATNSimulator.getExistingTargetState
    orig_compute = LexerATNSimulator.computeTargetState

    def getExistingTargetState(self, s, t):
        if type(t) is SymChar:
            rep = _pick_group(self, s, t)
            target = orig_existing(self, s, rep)
            if target is None:
                target = orig_compute(self, t.stream, s, rep)
            return target
        return orig_existing(self, s, t)

    setattr_(LexerATNSimulator, "getExistingTargetState", getExistingTargetState)
    assert grammar is not None
    try:
        yield
    finally:
        for obj, name, old in reversed(undo):
            if old is undo:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
