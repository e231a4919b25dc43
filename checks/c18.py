"""C18: converting an array converts each element."""
from __future__ import annotations

import math
import warnings

import mpmath
import numpy as np

from symx.coef import Coef
from symx.arrays import Elt, Fixed, IntArray, exact
from symx.runner import Case
from .common import *  # noqa: F401,F403
from .zoo import DIRECT, INVERSE, zoo

PROPERTY = "C18"
BOUNDS = {
    "quick": "all pairs of 18 linear, offset and logarithmic units (symbolic coefficients) over arrays of any numbers "
    "of 2 elements; 9 shapes and memory layouts up to 3 dimensions and 4 elements; arrays of every fixed-size integer "
    "type with any values; two converters used in turns, an array whose values change in between; 12 sizes up to "
    "120000 elements in 5 layouts and 5 types; NaN and infinity at any of 4 positions",
    "thorough": "as quick with every shape for every pair",
}
OUTSIDE = ["symbolic arrays of more than 6 elements (larger ones hold concrete numbers)", "values outside the domain of a logarithm", "rounding", "sequences that are not arrays"]
ASSUMPTIONS = ["coefficients and elements are exact reals"]
STUBS = [
    "array elements are objects carrying an exact expression (numpy applies +, *, exp, log to them itself); floats in the "
    "generated code are read as the number they spell",
    "a fixed-size integer array is an object array claiming that dtype, whose elements wrap around",
]

SHAPES = {
    "2": lambda e: np.array(e(2), dtype=object),
    "0": lambda e: np.empty((0,), dtype=object),
    "1": lambda e: np.array(e(1), dtype=object),
    "()": lambda e: _zero_d(e(1)[0]),
    "2x2": lambda e: _fill((2, 2), e(4)),
    "1x3x1": lambda e: _fill((1, 3, 1), e(3)),
    "2x2 transposed": lambda e: _fill((2, 2), e(4)).T,
    "every other": lambda e: _fill((4,), e(4))[::2],
    "reversed": lambda e: _fill((3,), e(3))[::-1],
    "fortran": lambda e: np.asfortranarray(_fill((2, 2), e(4))),
    "0x2": lambda e: np.empty((0, 2), dtype=object),
}


class quiet(warnings.catch_warnings):
    def __enter__(self):
        super().__enter__()
        warnings.simplefilter("ignore")


def _zero_d(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _fill(shape, xs):
    a = np.empty(shape, dtype=object)
    for i, x in zip(np.ndindex(shape), xs):
        a[i] = x
    return a


def elements(ctx, n, tag="x"):
    xs = [ctx.real(f"{tag}{i}", positive=True) for i in range(n)]
    return [Elt(x.e) if ctx.symbolic else float(x) for x in xs]


def concrete(ctx, a):
    return a if ctx.symbolic else a.astype(float) if a.size or True else a


def same_element(ctx, got, expr, x, label, detail):
    """One converted element is the published expression at that element."""
    if ctx.symbolic:
        if type(got) is Fixed:
            # exact integer arithmetic would give want
            want = exact(expr).xreplace({V: sympy.Symbol("__x")})
            a, b = want.coeff(sympy.Symbol("__x"), 1), want.coeff(sympy.Symbol("__x"), 0)
            if not (a.is_integer and b.is_integer):
                raise TypeError("integer result")
            ctx.check(got.z == int(a) * x.z + int(b), label, detail)
            return
        if not isinstance(got, Elt):
            if not math.isfinite(got):
                return
            want = exact(expr).xreplace({V: x.e})
            got = exact(float(got))
            ctx.same(got, want, label, f"{detail}: {got}", form="tol", rel=sympy.Rational(1, 10**9)) if want.atoms(Coef) else ctx.check(
                bool(abs(sympy.N(got - want, 20)) <= 1e-9 * abs(sympy.N(want, 20))), label, f"{detail}: {got}"
            )
            return
        want = exact(expr).xreplace({V: x.e})
        if want.has(sympy.log, sympy.exp) and (got.e == want or sympy.expand_log(got.e) == sympy.expand_log(want)):
            # the very same term: nothing left to solve
            ctx.check(True, label, detail)
            return
        ctx.same(got.e, want, label, f"{detail}: {got}")
        return
    v = float(x)
    want = complex(sympy.N(expr.subs({V: sympy.Float(v, 40)}), 30))
    if isinstance(got, complex) or want.imag or not math.isfinite(want.real):
        return
    got = float(got)
    if not math.isfinite(got):
        ctx.reach(label)
        # (overflow of floats is rounding; a wrong finite value is not)
        ctx.check(expr.has(sympy.exp, sympy.log) or abs(want.real) > 1e300, label, f"{detail}: {got} want {want.real}")
        return
    ctx.check(abs(got - want.real) <= 1e-9 * max(abs(want.real), abs(v), 1e-12), label, f"{detail}: {v} gives {got}, want {want.real}")


def judge(ctx, conv, a, label, detail):
    before = [a[i] for i in np.ndindex(a.shape)]
    with quiet():
        got = conv.convert(a)
        again = conv.convert(a)
        alone = [conv.convert(x) for x in before]
    ctx.check(np.shape(got) == a.shape, label + ": shape", f"{detail}: {np.shape(got)} from {a.shape}")
    ctx.check(all(a[i] is b or a[i] == b for i, b in zip(np.ndindex(a.shape), before)), label + ": input kept", detail)
    g = np.asarray(got, dtype=object)
    h = np.asarray(again, dtype=object)
    for i, x, one in zip(np.ndindex(a.shape), before, alone):
        same_element(ctx, g[i], conv.expression, x, label, f"{detail}{list(i)}")
        same_element(ctx, h[i], conv.expression, x, label + ": again", f"{detail}{list(i)}")
        same_element(ctx, one, conv.expression, x, label + ": alone", f"{detail}{list(i)}")


def pairs(frm, tos, shapes):
    def run(ctx):
        s, us = zoo(ctx, "lg")
        v = us[ctx.choose("v", tos)]
        conv = Converter(s.unit(us[frm].text), s.unit(v.text))
        shape = ctx.choose("shape", shapes)
        a = concrete(ctx, SHAPES[shape](lambda n: elements(ctx, n)))
        judge(ctx, conv, a, "elements", f"{us[frm].text} -> {v.text} {shape}")

    return run


def turns(ctx):
    """Two converters used in turns, and one on several inputs."""
    s, us = zoo(ctx, "lg")
    names = ["foo", "off", "lgm", "1/m", "lgs"]
    x, y = ctx.choose("x", names), ctx.choose("y", names)
    c1 = Converter(s.unit(us[x].text), s.unit("m"))
    c2 = Converter(s.unit("m"), s.unit(us[y].text))
    a = concrete(ctx, np.array(elements(ctx, 2), dtype=object))
    b = concrete(ctx, np.array(elements(ctx, 3, "y"), dtype=object))
    e1, e2 = c1.expression, c2.expression
    for conv, arr, e in ((c1, a, e1), (c2, a, e2), (c1, b, e1), (c2, b, e2), (c1, a, e1)):
        with quiet():
            got = conv.convert(arr)
        ctx.check(conv.expression == e, "turns", "expression changed")
        ctx.check(np.shape(got) == arr.shape, "turns", "shape")
        for i in range(len(arr)):
            same_element(ctx, got[i], e, arr[i], "turns", f"{x}, {y}")


def changed(ctx):
    """What a converter gives depends on the values only: the same array with
    other values in it, another array in the same place, a list of results."""
    s, us = zoo(ctx, "lg")
    x = ctx.choose("x", ["foo", "off", "lgm", "1/m"])
    conv = Converter(s.unit(us[x].text), s.unit("m"))
    a = concrete(ctx, np.array(elements(ctx, 2), dtype=object))
    more = elements(ctx, 2, "y")
    with quiet():
        first = conv.convert(a)
        kept = [first[i] for i in range(2)]
        a[0] = more[0]
        second = conv.convert(a)
        conv.convert(a[:1])
        scalar = conv.convert(more[1])
    for i in range(2):
        ctx.check(first[i] is kept[i] or first[i] == kept[i], "changed", f"{x}: an earlier result changed")
        same_element(ctx, second[i], conv.expression, a[i], "changed", f"{x}[{i}]")
    same_element(ctx, scalar, conv.expression, more[1], "changed", f"{x} alone")
    with quiet():
        second[0] = scalar
        third = conv.convert(a)
    for i in range(2):
        same_element(ctx, third[i], conv.expression, a[i], "changed", f"{x}[{i}] again")


DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def integers(dtype):
    """Fixed-size integers must not wrap around (or lose their fraction)."""

    def run(ctx):
        s = base_system()
        texts = {
            "60 s": "60 s", "86400 s": "86400 s", "s": "s", "s @ 250": "s rad/rad", "3600^2 s": "3600^2 s",
            "s/7": "s/7", "lg(re s)": "lg(re s)", "1/s": "1/s", "1/(60 s)": "1/(60 s)", "s^-1 5": "5 s^-1",
        }
        frm, to = ctx.choose("from", list(texts)), ctx.choose("to", ["s", "1/s", "lg(re 2 s)"])
        if frm == "s @ 250":
            define(s, "off", "rad s/rad @ 250")
            define(s, "kk", "K @ 250")
            u, v = s.unit("kk"), s.unit("K")
            if to != "s":
                raise Infeasible()
        else:
            u, v = s.unit(texts[frm]), s.unit(to)
        info = np.iinfo(dtype)
        log = "lg" in frm or "lg" in to
        lo, hi = (1 if log or True else int(info.min)), int(info.max)
        if not log and frm not in ("1/s", "1/(60 s)", "s^-1 5") and to == "s" or frm == "s @ 250":
            lo = int(info.min)
        n = [ctx.int(f"n{i}", lo, hi if not log else min(hi, 100)) for i in range(2)]
        conv = Converter(u, v)
        if ctx.symbolic:
            xs = [Fixed(k._z, int(info.min), 2 ** info.bits, powsym(k)) for k in n]
            a = IntArray(xs, dtype)
        else:
            a = np.array([int(k) for k in n], dtype=dtype)
            xs = [int(k) for k in n]
        with quiet():
            got = conv.convert(a)
        ctx.check(np.shape(got) == (2,), "integers", f"{frm} {dtype}: shape")
        g = np.asarray(got, dtype=object) if not isinstance(got, IntArray) else got.view(np.ndarray)
        for i in range(2):
            same_element(ctx, g[i], conv.expression, xs[i], "integers", f"{dtype} {frm} -> {to}")

    return run


def scalars(ctx):
    """Plain numbers: what the expression gives."""
    s, us = zoo(ctx, "lg")
    u = us[ctx.choose("u", DIRECT + INVERSE)]
    conv = Converter(s.unit(u.text), s.unit("m"))
    x = elements(ctx, 1)[0]
    with quiet():
        got = conv.convert(x)
    same_element(ctx, got, conv.expression, x, "scalars", u.text)
    if conv.expression.has(sympy.exp, sympy.log) and conv.expression.atoms(Coef):
        return
    for v in (2, 2.5, 1):
        with quiet():
            got = conv.convert(v)
        y = Elt(exact(v)) if ctx.symbolic else v
        same_element(ctx, got, conv.expression, y, "scalars", f"{u.text} {v}")


TEXTS = [
    "m", "km", "1e-15 m", "1e15 m", "1e-30 m", "3 m", "m/7", "m @ 0.1", "(1e-9 m) @ 3", "lg(re m)", "ln(re 1e-6 m)",
    "1/m", "1/(1e-12 m)",
]  # fmt: skip
TARGETS = ["m", "1e-12 m", "1e12 m", "m @ 273.15", "1/m", "lb(re 1 mm)"]
NUMBERS = [0, 1, -3, 7.25, 1 / 3, 1e-9, 1e-18, 123456789.123456789, 1e18, -2.5e-12, 5e-300, 2**70]
TYPES = {"int": int, "float": float, "float64": np.float64, "float32": np.float32, "int64": np.int64}


def plain(ctx):
    """Plain numbers of every size: a number alone is an array of one."""
    s = base_system()
    for n, v in (("kilo", "1000"), ("milli", ".001")):
        s.add_prefix(Prefix(name=n, value=v, symbols=(n[0],)))
    text, to = ctx.choose("u", TEXTS), ctx.choose("v", TARGETS)
    kind = ctx.choose("type", list(TYPES))
    try:
        conv = Converter(s.unit(text), s.unit(to))
    except ValueError:
        raise Infeasible() from None
    e = conv.expression
    parts = [sympy.lambdify([V], t, "mpmath") for t in sympy.Add.make_args(e)]
    if kind == "float32" and not all(1e-16 < abs(float(c)) < 1e16 for c in e.atoms(sympy.Number)):
        raise Infeasible()
    for n in NUMBERS:
        if kind.startswith("int") and (n != int(n) or abs(n) > 2**62):
            continue
        if kind == "float32" and not 1e-12 < abs(n) < 1e12:
            continue
        x = TYPES[kind](n)
        detail = f"{text} -> {to} {kind} {n}"
        with quiet():
            try:
                got = conv.convert(x)
            except (ArithmeticError, ValueError):
                continue  # (outside the domain, of numbers without infinities)
            arr = conv.convert(np.array([x, x]))
            obj = conv.convert(np.array([[x]], dtype=float))
        ctx.check(np.shape(got) == () and np.shape(arr) == (2,) and np.shape(obj) == (1, 1), "plain", f"{detail}: shape")
        try:
            with mpmath.workdps(40):
                terms = [f(mpmath.mpf(float(x))) for f in parts]
                want = complex(sum(terms))
                near = complex(sum(f(mpmath.mpf(float(x)) * (1 + mpmath.mpf(10) ** -13)) for f in parts))
                big = float(sum(map(abs, terms))) + e.has(sympy.log)
        except (ValueError, ArithmeticError):
            continue
        if near.imag or not abs(near.real - want.real) <= 1e-11 * big:
            continue  # (close to a pole: rounding is all there is)
        if want.imag or not math.isfinite(want.real) or not (1e-30 < abs(want.real) < 1e30 or kind != "float32" and 1e-290 < abs(want.real) < 1e290):
            continue
        want = want.real
        rel = 1e-3 if kind == "float32" and e.has(sympy.exp) else 1e-5 if kind == "float32" else 1e-9
        for g in (got, arr[0], arr[1], obj[0, 0]):
            g = float(g)
            if not math.isfinite(g):
                ctx.reach("plain")
                continue
            ctx.check(abs(g - want) <= rel * big, "plain", f"{detail}: {g}, want {want}")


SIZES = [(7,), (64,), (1000,), (4096,), (4097,), (15001,), (65537,), (100003,), (1, 5000), (5000, 1), (300, 400), (20, 30, 41)]


def large(text):
    """Large arrays, elementwise, with values of every kind among them."""

    def run(ctx):
        s = base_system()
        for n, v in (("kilo", "1000"), ("milli", ".001")):
            s.add_prefix(Prefix(name=n, value=v, symbols=(n[0],)))
        conv = Converter(s.unit(text), s.unit("1/m" if text == "m" else "m"))
        shape = ctx.choose("shape", SIZES)
        layout = ctx.choose("layout", ["c", "fortran", "strided", "reversed", "readonly"])
        kind = ctx.choose("dtype", ["f8", "f4", "i4", "u1", "i8"])
        count = int(np.prod(shape))
        base = (np.arange(count) % 97 + 1).astype(kind)
        if kind[0] == "f":
            base = base + np.asarray(0.5, dtype=kind)
        base = base.reshape(shape)
        # every 97 elements all the values once: few to compute exactly
        values, where = np.unique(base, return_inverse=True)
        a = {
            "c": lambda: base.copy(), "fortran": lambda: np.asfortranarray(base), "reversed": lambda: base[::-1],
            "strided": lambda: np.repeat(base, 2, axis=-1)[..., ::2], "readonly": lambda: base.copy(),
        }[layout]()
        if layout == "readonly":
            a.flags.writeable = False
        where = where.reshape(shape)
        if layout == "reversed":
            where = where[::-1]
        kept = a.copy()
        with quiet():
            got = conv.convert(a)
        detail = f"{text} {shape} {layout} {kind}"
        ctx.check(np.shape(got) == shape, "large", f"{detail}: shape {np.shape(got)}")
        ctx.check(bool((a == kept).all()), "large", f"{detail}: the input changed")
        exact_ = sympy.lambdify([V], conv.expression, "mpmath")
        with mpmath.workdps(30):
            want = np.array([float(exact_(mpmath.mpf(float(x)))) for x in values])[where]
        ctx.check(
            bool(np.allclose(np.asarray(got, dtype=float), want, rtol=1e-4 if kind == "f4" else 1e-9, atol=0)), "large",
            f"{detail}: {int((~np.isclose(np.asarray(got, dtype=float), want, rtol=1e-4, atol=0)).sum())} elements differ",
        )

    return run


def odd_values(ctx):
    """NaN and infinities are elements like the others, and change none of them."""
    s = base_system()
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))
    text, to = ctx.choose("u", ["m", "km", "m @ 3", "m/7", "lg(re m)"]), ctx.choose("v", ["m", "km", "m @ 273.15", "lg(re 2 m)", "1/m"])
    try:
        conv = Converter(s.unit(text), s.unit(to))
    except ValueError:
        raise Infeasible() from None
    odd = ctx.choose("odd", [math.nan, math.inf])
    at = ctx.choose("at", [0, 1, 2, 3])
    kind = ctx.choose("dtype", ["f8", "f4"])
    a = np.array([1.5, 2.0, 4.0, 8.25], dtype=kind)
    b = a.copy()
    b[at] = odd
    with quiet():
        x, y = conv.convert(a), conv.convert(b)
        alone = [conv.convert(v) for v in b]
    detail = f"{text} -> {to} {b}: {y}"
    ctx.check(np.shape(y) == (4,), "odd values", detail)
    for i in range(4):
        if i != at:
            ctx.check(bool(abs(y[i] - x[i]) <= 1e-5 * abs(x[i])), "odd values", detail)
        same = np.isclose(float(y[i]), float(alone[i]), rtol=1e-4, atol=0, equal_nan=True)
        ctx.check(bool(same), "odd values", f"{detail}, alone {alone[i]}")
    if odd != odd:
        ctx.check(bool(y[at] != y[at]), "odd values", detail)
    elif not conv.expression.has(sympy.log, sympy.exp) and to != "1/m":
        ctx.check(bool(y[at] == math.inf), "odd values", detail)


def cases(tier):
    t = tier == "thorough"
    both = DIRECT + INVERSE
    for u in both:
        yield Case(f"pairs[{u}]", pairs(u, both, list(SHAPES) if t else ["2"]), ("elements", "elements: shape"))
    some = ["m", "foo", "soff", "lgs", "b/foo"]
    for u in some:
        yield Case(f"shapes[{u}]", pairs(u, ["m", "lgfoo", "ooff"], list(SHAPES)), ("elements", "elements: shape"))
    yield Case("turns", turns, ("turns",))
    yield Case("changed", changed, ("changed",))
    for d in DTYPES:
        yield Case(f"integers[{d}]", integers(d), ("integers",))
    yield Case("scalars", scalars, ("scalars",))
    for text in ("m", "km", "m @ 273.15", "lg(re 3 m)", "m/7"):
        yield Case(f"large[{text}]", large(text), ("large",))
    yield Case("odd values", odd_values, ("odd values",))
    yield Case("plain", plain, ("plain",))
