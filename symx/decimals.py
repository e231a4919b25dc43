"""Decimal literals with symbolic digits."""
from __future__ import annotations

import decimal

from . import boot  # noqa: F401
import z3

from . import engine
from .values import SymDec, is_ph


def _is(ctx, ch, chars):
    """Is the symbolic character one of these? (a fork where both are possible)"""
    if not is_ph(ch) or ctx.ph_entry(ch)[0] != "char":
        return False
    c = ctx.ph_entry(ch)[1]
    return ctx.branch(z3.Or([c == ord(x) for x in chars]))


def decimal_literal(ctx, neg, body):
    """What ``decimal.Decimal`` makes of [digits][.digits][e[sign]digits] when
    some of the digits are symbolic; ``neg`` is the sign already read."""
    mant, expo = body, None
    for i, ch in enumerate(body):
        if ch in "eE" or _is(ctx, ch, "eE"):
            mant, expo = body[:i], body[i + 1 :]
            break
    point = next((i for i, ch in enumerate(mant) if ch == "." or _is(ctx, ch, ".")), len(mant))
    whole, frac = mant[:point], mant[point + 1 :]
    if not whole and not frac:
        raise decimal.InvalidOperation(f"invalid literal {body!r}")
    terms = ctx._char_terms(whole + frac)
    if terms is None:
        raise decimal.InvalidOperation(f"invalid literal {body!r}")
    r = z3.IntVal(0)
    try:
        for t in terms:
            r = r * 10 + ctx._digit_value(t)
        e = -len(frac)
        if expo is not None:
            eneg, ebody = ctx._split_number(expo)
            eterms = ctx._char_terms(ebody)
            if not eterms:
                raise ValueError
            ev = z3.IntVal(0)
            for t in eterms:
                ev = ev * 10 + ctx._digit_value(t)
            k = ctx.concretise(z3.simplify(ev))
            e += -k if eneg else k
    except ValueError:
        raise decimal.InvalidOperation(f"invalid literal {body!r}") from None
    z = z3.ToReal(z3.simplify(-r if neg else r))
    z = z * (10**e) if e >= 0 else z / (10**-e)
    z = z3.simplify(z)
    d = SymDec.var(ctx.name_of(z))
    return SymDec(d.e, (neg, terms, e))


def decimal_text(ctx, parts):
    """The text ``decimal.Decimal`` gives such a literal."""
    neg, terms, exp = parts
    terms = list(terms)
    while len(terms) > 1 and ctx.branch(terms[0] == 48):
        del terms[0]
    digits = ctx.text_of_chars(terms)
    for t, ch in zip(terms, digits):
        if is_ph(ch):
            ctx.charset[z3.simplify(t).sexpr()] = [(48, 57)]
    left = exp + len(digits)
    point = left if exp <= 0 and left > -6 else 1
    if point <= 0:
        out = "0." + "0" * -point + digits
    elif point >= len(digits):
        out = digits + "0" * (point - len(digits))
    else:
        out = digits[:point] + "." + digits[point:]
    if left != point:
        out += "E%+d" % (left - point)
    return ("-" if neg else "") + out
