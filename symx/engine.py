"""Path exploration by re-execution, with z3 deciding every symbolic branch."""
from __future__ import annotations

import os
import sys
import time
import traceback

from . import boot  # noqa: F401
import z3


class Steer(BaseException):
    """Base of the engine's control-flow exceptions (never caught by code
    under test that catches ``Exception``)."""


class Infeasible(Steer):
    pass


class Violated(Steer):
    def __init__(self, message, model):
        self.message = message
        self.assignment = model


class Inconclusive(Steer):
    pass


CUR = None  # the active context


def cur():
    return CUR


class Stats:
    FIELDS = (
        "paths queries sat unsat unknown branches forks decisions assertions "
        "discharged witnesses infeasible trivially_true concretisations replays"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
        self.samples = []
        self.known = {}
        self.notes = {}
        self.functions = set()

    def asdict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["labels"] = dict(self.labels)
        d["samples"] = list(self.samples)
        d["known"] = dict(self.known)
        d["notes"] = dict(self.notes)
        d["functions"] = sorted(self.functions)
        return d


def merge(total, d):
    for k, v in d.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            t = total.setdefault(k, {})
            for kk, vv in v.items():
                if isinstance(vv, (int, float)):
                    t[kk] = t.get(kk, 0) + vv
                else:
                    t.setdefault(kk, vv)
        elif isinstance(v, list):
            t = total.setdefault(k, [])
            if k == "functions":
                total[k] = sorted(set(t) | set(v))
            else:
                t.extend(v)
    return total


# -- which functions of /repo ran under symbolic execution -------------------
class FunctionLog:
    TOOL = 4

    def __init__(self):
        self.seen = set()
        self.on = False
        root = os.path.realpath(os.path.join(boot.REPO, "pyudunits2")) + os.sep
        mon = sys.monitoring

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(fn[len(root):] + ":" + code.co_qualname)
            return mon.DISABLE

        try:
            mon.use_tool_id(self.TOOL, "symx")
            mon.register_callback(self.TOOL, mon.events.PY_START, start)
            mon.set_events(self.TOOL, mon.events.PY_START)
            self.on = True
        except ValueError:
            pass

    def close(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False


class _Base:
    symbolic = False

    def known(self, key, message):
        """Record that a listed finding showed itself on this path."""
        self.stats.known[key] = message

    def note(self, key, n=1):
        self.stats.notes[key] = self.stats.notes.get(key, 0) + n


class SymCtx(_Base):
    """Symbolic run of one harness."""

    symbolic = True

    def __init__(self, timeout_ms=20000, seed=1, max_paths=200000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.tape = []  # [value, alternatives(list), pushed]
        self.pos = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.vars = {}
        self.int_text = "name"
        self.on_violation = None
        self.validate_every = 0
        self.validation = []
        self._reset_path()

    def _reset_path(self):
        self.ph = []  # placeholder characters -> what they stand for
        self.ph_of = {}
        self.names = {}  # text of a symbolic number -> solver term
        self.name_index = {}
        self.coefs = {}  # name -> atom, for the names declared as inputs
        self.int_digits = {}  # integer term -> the digits it was read from
        self.charset = {}  # symbolic character -> code-point ranges left
        self._smt = None
        self.int_text = "name"

    # -- symbolic text --------------------------------------------------------
    def smt(self):
        if self._smt is None:
            from .smt import Smt

            self._smt = Smt(self)
        return self._smt

    def name_of(self, term):
        key = term.sexpr()
        n = self.name_index.get(key)
        if n is None:
            if z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = key
            else:
                n = f"t{len(self.name_index)}_"
            self.name_index[key] = n
            self.names[n] = term
        return n

    def term_of_name(self, name):
        t = self.names.get(name)
        if t is None:
            ent = self.vars.get(name)
            if ent is not None and ent[0] in ("int", "real"):
                t = ent[1]
        return t

    def coef(self, name):
        """The atom a number's text stands for, when it is a symbolic number."""
        from .coef import Coef, IntCoef

        a = self.coefs.get(name)
        if a is None:
            t = self.term_of_name(name)
            if t is None:
                return None
            a = self.sympy_of(t, name)
        return a

    def sympy_of(self, t, name=None):
        """A solver term as a sympy expression over coefficient atoms, so that
        sympy's own arithmetic sees sums and products of symbolic numbers."""
        import sympy
        from .coef import Coef, IntCoef

        k = t.decl().kind()
        if z3.is_int_value(t):
            return sympy.Integer(t.as_long())
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*map(self.sympy_of, t.children()))
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*map(self.sympy_of, t.children()))
        if k == z3.Z3_OP_SUB:
            a, *rest = map(self.sympy_of, t.children())
            return sympy.Add(a, *[-r for r in rest])
        if k == z3.Z3_OP_UMINUS:
            return -self.sympy_of(t.arg(0))
        if k == z3.Z3_OP_TO_REAL:
            return self.sympy_of(t.arg(0))
        n = name or self.name_of(t)
        return self.coefs.get(n) or (IntCoef if z3.is_int(t) else Coef)(n)

    def decide_zero(self, e):
        """Is this expression in unit symbols and symbolic numbers zero, on this
        path?  (The code under test asks with ``== 0``, which for numbers is a
        numeric question; the numbers being symbolic, the solver answers.)"""
        import sympy
        from .coef import Coef
        from .smt import LogForm, Smt, Untranslatable

        if not e.atoms(Coef) or e == 0:
            return e
        whole = e
        # the logarithm of a variable is independent of the variables
        e = e.xreplace({g: sympy.Dummy() for g in e.atoms(sympy.log) if g.args[0].is_Symbol and not isinstance(g.args[0], Coef)})
        try:
            syms = sorted(e.free_symbols, key=str)
            smt = Smt(self)
            try:
                num = sympy.numer(sympy.together(e))
                cs = sympy.Poly(num, *syms).coeffs() if syms else [num]
                conds = [smt.tr(c)[0] == 0 for c in cs]
                cond = z3.And(conds)
            except (Untranslatable, sympy.PolynomialError):
                # a difference of two products of powers with symbolic exponents
                if not (e.is_Add and len(e.args) == 2):
                    raise
                f, g = e.args
                if g.could_extract_minus_sign():
                    g = -g
                else:
                    f = -f
                lf = LogForm(self)
                cond = z3.Not(lf.differ_in(f, g, {s.name for s in syms}))
            return sympy.S.Zero if self.branch(cond) else whole
        except (Untranslatable, sympy.PolynomialError):
            return whole

    def _placeholder(self, key, ent):
        from .values import PH_BASE

        ch = self.ph_of.get(key)
        if ch is None:
            ch = chr(PH_BASE + len(self.ph))
            self.ph.append(ent)
            self.ph_of[key] = ch
        return ch

    def ph_entry(self, ch):
        from .values import PH_BASE

        return self.ph[ord(ch) - PH_BASE]

    def lit(self, x):
        """A number token whose value is the symbolic number x."""
        from .values import SymInt, SymDec

        if type(x) is SymInt:
            return self._placeholder(("i", x._z.sexpr()), ("num", x))
        if type(x) is SymDec:
            return self._placeholder(("d", str(x.e)), ("num", x))
        return _literal(x)

    def text_of_chars(self, chars):
        out = []
        for c in chars:
            c = z3.simplify(c)
            if z3.is_int_value(c):
                out.append(chr(c.as_long()))
            else:
                out.append(self._placeholder(("c", c.sexpr()), ("char", c)))
        return "".join(out)

    def text_of_int(self, x, spec=""):
        if self.int_text == "lit":
            return self.lit(x)
        if self.int_text == "digits":
            return self._digits(x, spec)
        if spec:
            raise Inconclusive(f"format spec {spec!r} on a symbolic integer")
        return self.name_of(x._z)

    def text_of_dec(self, x):
        from .coef import Coef

        if self.int_text == "digits":
            if x.parts is not None:
                from .decimals import decimal_text

                return decimal_text(self, x.parts)
            return self.lit(x)
        if isinstance(x.e, Coef):
            if self.int_text == "lit":
                return self.lit(x)
            return x.e.name
        return "(" + str(x.e) + ")"

    MAXDIGITS = 7

    def _digits(self, x, spec=""):
        """Decimal text of x with symbolic digit characters (the number of
        digits is a fork), as Python's int formatting gives it."""
        import re

        m = re.fullmatch(r"(0?)(\d*)d?", spec)
        if not m:
            raise Inconclusive(f"format spec {spec!r} on a symbolic integer")
        width = int(m.group(2) or 0)
        fill = "0" if m.group(1) else " "
        z = x._z
        for neg in (False, True):
            terms = self.int_digits.get(z3.simplify(-z if neg else z).sexpr())
            if terms is not None and not width:
                return self._digits_read(terms, neg)
        neg = self.branch(z < 0)
        a = -z if neg else z
        for n in range(1, self.MAXDIGITS + 1):
            if self.branch(a < 10**n):
                break
        else:
            raise Inconclusive("more digits than the bound when formatting")
        out = ""
        for k in range(n - 1, -1, -1):
            c = z3.simplify(48 + (a / (10**k)) % 10)
            if z3.is_int_value(c):
                out += chr(c.as_long())
                continue
            ch = self._placeholder(("c", c.sexpr()), ("char", c))
            self.charset[c.sexpr()] = [(48, 57)]
            out += ch
        sign = "-" if neg else ""
        if fill == "0":
            return sign + out.rjust(width - len(sign), "0")
        return (sign + out).rjust(width, " ")

    def _digits_read(self, terms, neg):
        """Text of an integer that was read from these digits."""
        terms = list(terms)
        while len(terms) > 1 and self.branch(terms[0] == 48):
            del terms[0]
        if neg and len(terms) == 1 and self.branch(terms[0] == 48):
            neg = False
        out = self.text_of_chars(terms)
        for t in terms:
            self.charset.setdefault(z3.simplify(t).sexpr(), [(48, 57)])
        return ("-" if neg else "") + out

    def _char_terms(self, text):
        out = []
        for ch in text:
            from .values import is_ph

            if is_ph(ch):
                kind, v = self.ph_entry(ch)
                if kind != "char":
                    return None
                out.append(v)
            else:
                out.append(z3.IntVal(ord(ch)))
        return out

    def _digit_value(self, term):
        if z3.is_int_value(term):
            v = term.as_long()
            if not 48 <= v <= 57:
                raise ValueError("invalid literal for a number")
        elif not self.branch(z3.And(term >= 48, term <= 57)):
            raise ValueError("invalid literal for a number")
        return term - 48

    def _split_number(self, text):
        """text -> (negative, value placeholder or None, rest of text)"""
        from .decimals import _is

        neg = False
        if text[:1] in "+-" and text[:1]:
            neg = text[0] == "-"
            text = text[1:]
        elif text[:1] and _is(self, text[0], "-"):
            neg, text = True, text[1:]
        elif text[:1] and _is(self, text[0], "+"):
            text = text[1:]
        return neg, text

    def int_of_text(self, text):
        from .values import SymInt, SymDec, is_ph

        neg, body = self._split_number(text)
        if len(body) == 1 and is_ph(body) and self.ph_entry(body)[0] == "num":
            v = self.ph_entry(body)[1]
            return -v if neg else v
        terms = self._char_terms(body)
        if terms is None or not terms:
            raise ValueError(f"invalid literal for int(): {text!r}")
        r = z3.IntVal(0)
        for t in terms:
            r = r * 10 + self._digit_value(t)
        self.int_digits[z3.simplify(r).sexpr()] = terms
        return SymInt._mk(-r if neg else r)

    def decimal_of_text(self, text):
        from .values import SymDec, is_ph

        neg, body = self._split_number(text)
        if len(body) == 1 and is_ph(body) and self.ph_entry(body)[0] == "num":
            v = SymDec.lift(self.ph_entry(body)[1])
            return -v if neg else v
        from .decimals import decimal_literal

        return decimal_literal(self, neg, body)

    # -- exploration --------------------------------------------------------
    def explore(self, fn):
        """Run fn(self) along every feasible path.  Returns None or Violated."""
        global CUR
        CUR = self
        try:
            while True:
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("deadline reached with paths left")
                self.pos = 0
                self.vars = {}
                self._reset_path()
                try:
                    fn(self)
                    self.stats.paths += 1
                    if self.stats.paths <= 2:
                        self._sample()
                    if self.validate_every and (
                        self.stats.paths % self.validate_every == 1
                        or self.validate_every == 1
                    ):
                        a = self.assignment()
                        if a is not None:
                            self.validation.append(a)
                except Infeasible:
                    self.stats.infeasible += 1
                except Violated as v:
                    self.stats.paths += 1
                    if self.on_violation is None or self.on_violation(v):
                        return v
                if self.stats.paths > self.max_paths:
                    raise Inconclusive("path bound exceeded")
                if not self._backtrack():
                    return None
        finally:
            CUR = None

    def _sample(self):
        try:
            a = self.assignment()
            if a is not None:
                self.stats.samples.append({k: _short(v) for k, v in a.items()})
        except Exception:
            pass

    def _backtrack(self):
        while self.tape:
            ent = self.tape[-1]
            self.solver.pop()
            if ent[1]:
                value, cond = ent[1].pop(0)
                ent[0] = value
                self.solver.push()
                if cond is not None:
                    self.solver.add(cond)
                return True
            self.tape.pop()
        return False

    def _record(self, value, cond, alternatives):
        self.solver.push()
        if cond is not None:
            self.solver.add(cond)
        self.tape.append([value, alternatives])
        self.pos += 1
        self.stats.decisions += 1
        return value

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    # -- decisions ----------------------------------------------------------
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats.branches += 1
        if self.pos < len(self.tape):
            v = self.tape[self.pos][0]
            self.pos += 1
            return v
        neg = z3.Not(cond)
        rt = self._check(cond)
        if rt == z3.unsat:
            return self._record(False, None, [])
        rf = self._check(neg)
        if rf == z3.unsat:
            return self._record(True, None, [])
        self.stats.forks += 1
        return self._record(True, cond, [(False, neg)])

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(_z(cond))
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.pos < len(self.tape):
            self.pos += 1
            return
        if self._check(cond) == z3.unsat:
            raise Infeasible()
        self._record(None, cond, [])

    def choose(self, name, options):
        """A bounded structural choice: every option is followed."""
        options = list(options)
        if not options:
            raise Infeasible()
        if self.pos < len(self.tape):
            i = self.tape[self.pos][0]
            self.pos += 1
        else:
            i = self._record(0, None, [(k, None) for k in range(1, len(options))])
            if len(options) > 1:
                self.stats.forks += len(options) - 1
        self.vars[name] = ("choice", i)
        return options[i]

    def concretise(self, term):
        """Enumerate, by the solver, the values ``term`` can take on this path."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        self.stats.concretisations += 1
        for _ in range(400):
            if self.pos < len(self.tape):
                v = self.tape[self.pos][0]
                self.pos += 1
            else:
                if self._check() != z3.sat:
                    raise Inconclusive("cannot concretise")
                v = self.solver.model().eval(term, model_completion=True).as_long()
                self._record(v, None, [])
            if self.branch(term == v):
                return v
        raise Inconclusive("a symbolic value was concretised to more than 400 values")

    # -- inputs -------------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        from .values import SymInt

        v = z3.Int(name)
        self.vars[name] = ("int", v)
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SymInt(v)

    def bool(self, name):
        from .values import SymBool

        v = z3.Bool(name)
        self.vars[name] = ("bool", v)
        return SymBool(v)

    def real(self, name, positive=False, nonzero=False):
        """A numeric coefficient: any real number (see values.SymDec)."""
        from .values import SymDec

        v = z3.Real(name)
        self.vars[name] = ("real", v)
        if positive:
            self.assume(v > 0)
        elif nonzero:
            self.assume(v != 0)
        d = SymDec.var(name, positive)
        self.coefs[name] = d.e
        return d

    def real_term(self, name, positive=False, nonzero=False):
        self.real(name, positive, nonzero)
        return z3.Real(name)

    def string(self, name, maxlen, alphabet=None, minlen=0):
        """Any text of length minlen..maxlen over the alphabet (code-point
        ranges); the length is a fork, the characters are symbolic."""
        from .values import SymStr

        n = self.choose(name + "#len", range(minlen, maxlen + 1))
        chars = []
        for i in range(n):
            c = z3.Int(f"{name}[{i}]")
            self.assume(in_ranges(c, alphabet or [(1, 0x10FFFF)]))
            chars.append(c)
        self.vars[name] = ("str", chars)
        return SymStr(chars)

    # -- assertions ---------------------------------------------------------
    def reach(self, label):
        n = self.stats.labels.get(label, 0)
        if n == 0:
            # reachability witness: the path condition at the assertion has a model
            if self._check() == z3.sat:
                self.stats.witnesses += 1
        self.stats.labels[label] = n + 1

    def check(self, cond, label, detail=""):
        """Assert: cond holds for every value on this path."""
        self.reach(label)
        self.stats.assertions += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged += 1
                self.stats.trivially_true += 1
                return
            self.fail(label, detail)
        cond = z3.simplify(_z(cond))
        if z3.is_true(cond):
            self.stats.discharged += 1
            return
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            raise Inconclusive(f"solver answered unknown at {label}: {detail}")
        raise Violated(f"{label}: {detail}", self.assignment(z3.Not(cond)))

    def fail(self, label, detail=""):
        a = self.assignment()
        if a is None:
            raise Infeasible()
        raise Violated(f"{label}: {detail}", a)

    def agrees(self, got, want, form="exact", rel=None, abs_=None):
        """Solver verdict: do two expressions agree for every value of every
        symbol in them (where both are defined)?  -> (bool, assignment)"""
        import sympy
        from .smt import LogForm, Untranslatable

        try:
            if form == "log":
                cond = LogForm(self).differ(got, want)
            elif form == "tol":
                cond = self.smt().differ_tol(got, want, rel, abs_)
            else:
                cond = self.smt().differ(got, want)
        except Untranslatable as e:
            raise Inconclusive(f"outside the encodable expressions: {e}")
        if form != "log":
            # the two are defined together somewhere (no vacuous agreement)
            d = self.smt()
            if self._check(*d.side, *d.defined) == z3.unsat:
                raise Inconclusive(f"{got} and {want} are nowhere defined together")
        c = z3.simplify(cond)
        r = self._check(c)
        if r == z3.unsat:
            return True, None
        if r == z3.unknown:
            raise Inconclusive(f"solver answered unknown comparing {got} with {want}")
        extra = [c]
        names = {str(s) for e in (got, want) for s in sympy.sympify(e).free_symbols}
        a = self.assignment(*extra, also=names)
        return False, a

    def same(self, got, want, label, detail="", **kw):
        """Assert that two expressions agree for every value."""
        self.reach(label)
        self.stats.assertions += 1
        ok, a = self.agrees(got, want, **kw)
        if ok:
            self.stats.discharged += 1
            return
        raise Violated(f"{label}: {detail}", a)

    def assignment(self, *extra, also=()):
        """Concrete inputs of this path, small and 'generic' when possible."""
        reals = [t for k, t in self.vars.values() if k == "real"]
        free = [n for n in sorted(also) if self.term_of_name(n) is None]
        model = None
        if reals:
            pool = [2, 3, 5, 7, 11, 13]
            generic = [z3.Or([r == p for p in pool]) for r in reals]
            if self._check(*extra, *generic, z3.Distinct(*reals)) == z3.sat:
                model = self.solver.model()
            elif self._check(*extra, *generic) == z3.sat:
                model = self.solver.model()
        if model is None:
            if self._check(*extra) != z3.sat:
                return None
            model = self.solver.model()
        out = {}
        for n in free:
            v = model.eval(z3.Real(n), model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            out["@" + n] = str(v.as_fraction())
        for name, (kind, t) in self.vars.items():
            if kind == "choice":
                out[name] = t
            elif kind == "int":
                out[name] = model.eval(t, model_completion=True).as_long()
            elif kind == "bool":
                out[name] = z3.is_true(model.eval(t, model_completion=True))
            elif kind == "real":
                v = model.eval(t, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = str(v.as_fraction())
            elif kind == "str":
                out[name] = [
                    model.eval(c, model_completion=True).as_long() for c in t
                ]
        return out


class ConcCtx(_Base):
    """Concrete run of the same harness on given inputs: the replay."""

    symbolic = False

    def __init__(self, assignment):
        self.a = assignment
        self.stats = Stats()
        self.violations = []

    def explore(self, fn):
        global CUR
        CUR = self
        try:
            fn(self)
        except Infeasible:
            return None
        except Violated as v:
            return v
        finally:
            CUR = None
        return None

    def choose(self, name, options):
        options = list(options)
        i = self.a.get(name, 0)
        if i >= len(options):
            raise Infeasible()
        return options[i]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def branch(self, cond):
        return bool(cond)

    def int(self, name, lo=None, hi=None):
        v = self.a.get(name, lo if lo is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Infeasible()
        return v

    def bool(self, name):
        return bool(self.a.get(name, False))

    def real(self, name, positive=False, nonzero=False):
        from decimal import Decimal
        from fractions import Fraction

        f = Fraction(self.a.get(name, "2"))
        return Decimal(f.numerator) / Decimal(f.denominator)

    def real_term(self, name, positive=False, nonzero=False):
        return self.real(name)

    def string(self, name, maxlen, alphabet=None, minlen=0):
        return "".join(chr(c) for c in self.a.get(name, [ord("x")] * minlen))

    def lit(self, x):
        return _literal(x)

    def reach(self, label):
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1

    def same(self, got, want, label, detail="", **kw):
        self.reach(label)
        ok, _ = self.agrees(got, want, **kw)
        if not ok:
            raise Violated(f"{label}: {detail}", self.a)

    POINTS = ("5/2", "3", "7", "1/3", "-4", "1/8", "17/5", "101", "-1/2", "1/1000")

    def agrees(self, got, want, form="exact", rel=None, abs_=None):
        """Numerically, at the solver's point and at a handful of others."""
        import sympy

        got, want = sympy.sympify(got), sympy.sympify(want)
        syms = sorted(got.free_symbols | want.free_symbols, key=str)
        points = []
        if all("@" + str(s) in self.a for s in syms):
            points.append([sympy.Rational(self.a["@" + str(s)]) for s in syms])
        for i in range(len(self.POINTS)):
            points.append(
                [
                    sympy.Rational(self.POINTS[(i + 3 * j) % len(self.POINTS)])
                    for j in range(len(syms))
                ]
            )
        if not syms:
            points = [[]]
        rel = float(rel) if rel is not None else 1e-9
        seen = 0
        quick = None
        if got.has(sympy.exp, sympy.log) or want.has(sympy.exp, sympy.log, sympy.Pow):
            try:
                quick = sympy.lambdify(syms, [got, want], "math")
            except Exception:
                quick = None
        for p in points:
            sub = dict(zip(syms, p))
            try:
                if quick is not None:
                    quick(*map(float, p))  # too big (or undefined) to evaluate?
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                continue
            except Exception:
                pass
            try:
                sub = {q: sympy.Float(v, 40) for q, v in sub.items()}
                x = complex(sympy.N(got.subs(sub), 30))
                y = complex(sympy.N(want.subs(sub), 30))
            except (TypeError, OverflowError, ZeroDivisionError):
                continue
            if not all(map(_finite, (x, y))) or x.imag or y.imag:
                continue
            seen += 1
            tol = rel * max(abs(y), abs(x) if abs_ is None else 0) + float(abs_ or 0)
            if abs(x - y) > tol and abs(x - y) > _cancelled(want, sub):
                return False, self.a
        if not seen and got != want:
            # nowhere a number: only the very same expression agrees
            return False, self.a
        return True, None

    def check(self, cond, label, detail=""):
        self.reach(label)
        if not cond:
            raise Violated(f"{label}: {detail}", self.a)

    def fail(self, label, detail=""):
        raise Violated(f"{label}: {detail}", self.a)


class EnumCtx(ConcCtx):
    """Fallback when a change to the code puts it beyond the encoding: the same
    harness on concrete inputs drawn from shrunken domains."""

    INTS = (1, 2, 3, 0, -1, -2, 4, 5, 7, 10, 60, 12)
    REALS = ("2", "3", "1/2", "5", "7", "10", "1/4", "60", "1000")

    def __init__(self, rng):
        super().__init__({})
        self.rng = rng

    def choose(self, name, options):
        options = list(options)
        if not options:
            raise Infeasible()
        if name not in self.a:
            self.a[name] = self.rng.randrange(len(options))
        return super().choose(name, options)

    def int(self, name, lo=None, hi=None):
        if name not in self.a:
            dom = [
                i
                for i in self.INTS
                if (lo is None or i >= lo) and (hi is None or i <= hi)
            ] or [lo if lo is not None else hi]
            self.a[name] = self.rng.choice(dom)
        return super().int(name, lo, hi)

    def bool(self, name):
        if name not in self.a:
            self.a[name] = self.rng.random() < 0.5
        return super().bool(name)

    def real(self, name, positive=False, nonzero=False):
        if name not in self.a:
            self.a[name] = self.rng.choice(self.REALS)
        return super().real(name)

    def string(self, name, maxlen, alphabet=None, minlen=0):
        if name not in self.a:
            n = self.rng.randint(minlen, maxlen)
            pool = []
            for a, b in alphabet or [(97, 99), (32, 126)]:
                pool += [a, b, (a + b) // 2]
                if b - a > 2:
                    pool += [a + 1, self.rng.randint(a, b)]
            self.a[name] = [self.rng.choice(pool) for _ in range(n)]
        return super().string(name, maxlen, alphabet, minlen)


def _cancelled(e, sub):
    """What floating point may leave of a sum whose terms cancel at a point."""
    if not e.is_Add:
        return 0.0
    try:
        return 1e-15 * max(abs(complex(a.subs(sub))) for a in e.args)
    except (TypeError, OverflowError, ZeroDivisionError):
        return 0.0


def _finite(z):
    import math

    return math.isfinite(z.real) and math.isfinite(z.imag)


def _literal(x):
    from decimal import Decimal

    if isinstance(x, Decimal):
        return format(x, "f")
    return str(x)


def in_ranges(c, ranges):
    return z3.Or([z3.And(c >= a, c <= b) if a != b else c == a for a, b in ranges])


def _z(x):
    return getattr(x, "_z", x)


def _short(v):
    if isinstance(v, list) and v and all(isinstance(c, int) for c in v):
        return "".join(chr(c) for c in v).encode("unicode_escape").decode()
    return v


def format_exc(e):
    return "".join(traceback.format_exception(e))[-3000:]
