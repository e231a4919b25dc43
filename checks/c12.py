"""C12: only a shifted time unit is a date, and dates never nest."""
from __future__ import annotations

from symx.runner import Case
from symx.values import SymStr
from .common import *  # noqa: F401,F403
from .gen import tree

PROPERTY = "C12"
BOUNDS = {
    "quick": "shifts of products of powers of 3 basis units with any integer exponents (4 ways of writing, prefixes, "
    "dimensionless factors and definitions) by any number or by a date; 9 forms of reference date with symbolic "
    "digits; dates nested in 14 contexts to depth 2; 9 ways of naming the time unit and another",
    "thorough": "as quick with unit expressions of depth 2 and contexts nested to depth 3",
}
OUTSIDE = ["which calendar dates exist beyond month 1-12 and day 1-31", "time zones by name"]
ASSUMPTIONS = ["numbers are exact reals"]


def system(ctx):
    s = base_system()
    e = ctx.real("e", nonzero=True)
    n, k = ctx.int("n"), ctx.int("k")
    us = {x: base_unit(x) for x in ("m", "s", "kg", "K", "rad")}
    s.add_prefix(Prefix(name="kilo", value="1000", symbols=("k",)))

    def dfn(name, u, **kw):
        define(s, name, u.text, **kw)
        us[name] = u.named(name)

    dfn("hour", num(ctx, e).mul(us["s"]))
    us["khour"] = U("khour", "lin", 1000 * us["hour"].scale, us["s"].dims)
    dfn("pw", us["m"].pow(n, ctx.lit(n)).mul(us["hour"].pow(k, ctx.lit(k))))
    dfn("freq", U("1", "lin", 1, {}).div(us["hour"]))
    dfn("speed", us["m"].div(us["hour"]))
    dfn("off", us["K"].shift(3, "3"))
    dfn("lg", us["m"].log("lg"))
    dfn("lgt", us["hour"].log("lg"))
    return s, us


def is_time(ctx, u):
    d = nonzero_dims(ctx, u.dims)
    if list(d) != ["second"]:
        return False
    n = zi(d["second"])
    return n == 1 if isinstance(n, int) else ctx.branch(n == 1)


OPS = ["@", "since", "from", "after", "ref"]
DATES = ["2000-01-01", "1999-12-31 23:59:59.5", "20010203T0405", "-5-3", "2001-02 12:30"]


def outcome(s, text):
    try:
        return s.unit(text)
    except ValueError as e:
        return "refused" if not isinstance(e, SyntaxError) else "syntax"
    except SyntaxError:
        return "syntax"


def judge_shift(ctx, s, u, ref, number, op="@"):
    text = f"{u.at(1)} {op} {ref}"
    got = outcome(s, text)
    if is_time(ctx, u):
        ctx.check(isinstance(got, DateUnit), "is a date", f"{text}: {got}")
        plain = s.unit(u.text)
        ctx.check(got.unit == plain, "its unit", text)
        ctx.check(str(got.reference_date) == ref, "its reference", f"{text}: {got.reference_date}")
        check_dims(ctx, got.dimensionality(), nonzero_dims(ctx, u.dims), "its dimensionality", text)
        ctx.check(got.is_time_unit() and not got.is_dimensionless(), "is a time", text)
        ctx.check(not got.is_convertible_to(plain) and not plain.is_convertible_to(got), "convertible", text)
        ctx.int_text = "lit"
        ctx.check(got.expanded() == f"{plain.expanded()} since {ref}", "expanded", f"{text}: {got.expanded()}")
        again = outcome(s, str(got))
        ctx.int_text = "name"
        ctx.check(isinstance(again, DateUnit), "text", f"{text}: {got}")
        ctx.check(again.unit == plain and str(again.reference_date) == ref, "text", f"{text}: {got}")
    elif number is None:
        ctx.check(got == "refused", "refused", f"{text}: {got}")
    else:
        ctx.check(isinstance(got, pyudunits2.Unit), "ordinary", f"{text}: {got}")
        check_dims(ctx, got.dimensionality(), nonzero_dims(ctx, u.dims), "ordinary", text)
        ctx.check(got.is_convertible_to(s.unit(u.text)), "ordinary", text)
        ctx.check(not got.is_time_unit(), "ordinary", text)
        expr = Converter(got, s.unit(u.text)).expression
        want = u.shift(number, ref).convert(V, u)
        form = {} if u.kind != "lin" or not any(hasattr(x, "_z") for x in u.dims.values()) else {}
        ctx.same(expr, want, "ordinary", f"{text}: {expr}", **form)


def shifts(top, atoms, depth):
    def run(ctx):
        s, us = system(ctx)
        pool = {a: us[a] for a in atoms}
        left = us[top]
        how = ctx.choose("how", ["alone", "mul", "div", "rdiv", "pow"])
        i = ctx.int("i")
        if how == "alone":
            u = left
        elif left.kind == "log":
            raise Infeasible()
        elif how == "pow":
            u = left.pow(i, ctx.lit(i))
        else:
            r = tree(ctx, depth, pool, "r", exps=("i", "k"))
            u = left.mul(r) if how == "mul" else left.div(r) if how == "div" else r.div(left)
        kind = ctx.choose("by", ["number", "integer", "date"])
        if kind == "number":
            c = ctx.real("c")
            judge_shift(ctx, s, u, ctx.lit(c), esym(c))
        elif kind == "integer":
            j = ctx.int("j", lo=0)
            judge_shift(ctx, s, u, ctx.lit(j), powsym(j), "since")
        else:
            judge_shift(ctx, s, u, "2000-01-01", None, "from")

    return run


def operators(ctx):
    s, us = system(ctx)
    u = us[ctx.choose("u", ["hour", "khour", "m", "pw"])]
    ref = ctx.choose("ref", DATES)
    judge_shift(ctx, s, u, ref, None, ctx.choose("op", OPS))


# a date of symbolic digits: # any digit
FORMS = [
    "2001-##-##",
    "##-#",
    "2000-1-#",
    "#-0#-1",
    "2001-02-03 ##:##",
    "2001-02-03 1#:3#:##.#",
    "2001-02-03T##:0#:00",
    "2001-02-03 00:00:00 +#",
    "2001-02-03 #",
    "##0#-1-1",
    "0##",
    "+#",
    "-0#.#0",
    ".#",
    "#e1",
    "#E+0#",
]
NUMBERS = 10  # those from here on are numbers: shifts of what is no time


def forms(i):
    def run(ctx):
        s, us = system(ctx)
        digits = []
        text = ""
        for ch in FORMS[i]:
            if ch == "#":
                d = ctx.string(f"d{len(digits)}", 1, [(48, 57)], minlen=1)
                digits.append(d)
                text = text + d if not isinstance(text, str) or isinstance(d, str) else SymStr.of(text) + d
            else:
                text = text + ch
        text = str(text)
        unit = ctx.choose("unit", ["hour", "m", "s rad"])
        got = outcome(s, f"{unit} since {text}")
        val = lambda a, b: ctx.int_of_text("".join(str(x) for x in digits[a:b])) if ctx.symbolic else int("".join(digits[a:b]))
        if i == 0:
            mon, day = val(0, 2), val(2, 4)
            valid = (mon >= 1) and (mon <= 12) and (day >= 1) and (day <= 31)
        elif i == 1:
            valid = bool(val(2, 3) >= 1)
        elif i == 2:
            valid = bool(val(0, 1) >= 1)
        elif i == 3:
            valid = bool(val(1, 2) >= 1)
        elif i == 4:
            valid = bool(val(0, 2) <= 23) and bool(val(2, 4) <= 59)
        elif i == 5:
            valid = bool(val(2, 4) <= 60)
        elif i == 6:
            valid = bool(val(0, 2) <= 23)
        else:
            valid = True
        if valid:
            ctx.reach("valid form")
            if unit == "m" and i >= NUMBERS:
                ctx.check(isinstance(got, pyudunits2.Unit) and not isinstance(got, DateUnit), "ordinary", f"{text}: {got}")
                return
            if unit == "m":
                ctx.check(got == "refused", "refused", f"{text}: {got}")
                return
            ctx.check(isinstance(got, DateUnit), "valid form", f"{unit} since {text}: {got}")
        if isinstance(got, DateUnit):
            ctx.check(unit != "m", "form", text)
            ctx.check(same_text(ctx, got.reference_date, text), "text kept", f"{text}: {got.reference_date}")
            if i >= 8:  # (its own text is read back)
                again = outcome(s, str(got))
                ctx.check(isinstance(again, DateUnit), "text", f"{text}: {got}")
                ctx.check(same_text(ctx, again.reference_date, text), "text", f"{text}: {again.reference_date}")
        else:
            ctx.check(got in ("refused", "syntax"), "form", f"{unit} since {text}: {got}")

    return run


WRAPS = {
    "({}) {u}": 1, "{u}*({})": 1, "({})/{u}": 1, "{u}/({})": 1, "({})^2": 1, "({})^-1": 1, "({})^1": 1,
    "lg(re {})": 0, "ln(re 1 ({}))": 1, "({}) @ 3": 1, "({}) since 2001-01-01": 1, "2 ({})": 1, "({})/1": 1, "1 ({})": 1,
}


def nested(wraps, depth):
    """A date inside anything at all is refused."""

    def run(ctx):
        s, us = system(ctx)
        unit = ctx.choose("unit", ["hour", "s rad", "m s/m", "khour", "pw", "speed"])
        u = {"s rad": us["s"], "m s/m": us["s"]}.get(unit) or us[unit]
        date = ctx.choose("date", ["2000-01-01", "5", "2.5"])
        time = is_time(ctx, u)
        text = f"{unit} since {date}"
        w = wraps
        for i in range(depth):
            wrap = ctx.choose(f"wrap{i}", w)
            w = list(WRAPS)
            text = wrap.format(text, u="kg" if i else ctx.choose("u", ["m", "hour"]))
        got = outcome(s, text)
        if time or date == "2000-01-01":
            ctx.check(got == "refused", "nested", f"{text}: {got}")
        elif "since 2001" in text:
            # a date after all, when what is shifted is a time
            ctx.reach("plain")
        else:
            ctx.check(isinstance(got, (pyudunits2.Unit, DateUnit)), "plain", f"{text}: {got}")

    return run


# name and symbol of the time unit, and of one that is none
CLOCKS = [
    ("tick", None, "meter", "m"), (None, "T", "meter", "m"), ("tick", "T", "second", "s"), (None, "tick", None, "s"),
    ("meter", "m", "second", "s"), (None, "m", "second", None), ("zz", "s", "second", "m"), ("hour", "h", "time", "t"),
    ("t", None, None, "sec"),
]


def clocks(ctx):
    """What counts is the basis unit declared to be the time, whatever the names."""
    tn, ts, on, os_ = ctx.choose("names", CLOCKS)
    s = UnitSystem()

    def add(name, symbol, time):
        ref = UnitReference(name=Name(singular=name, plural=None) if name else None, symbols=(symbol,) if symbol else ())
        s.add_unit(BasisUnit(names=ref, dimensionless=False, is_time_unit=time))

    order = ctx.choose("order", [0, 1])
    for time in (True, False) if order else (False, True):
        add(*((tn, ts) if time else (on, os_)), time)
    s.add_unit(basis("rad", None, dimensionless=True))
    a = ctx.real("a", positive=True)
    n = ctx.int("n")
    which = ctx.choose("which", ["time", "other"])
    base = [x for x in ((tn, ts) if which == "time" else (on, os_)) if x]
    base = base[ctx.choose("by", range(len(base)))]
    form = ctx.choose("form", ["{x}", "{a} {x}", "named", "{x} rad", "{x}^n", "({x} @ 3)", "{x}^2/{x}", "{x}/rad"])
    if form == "named":
        define(s, "defined", f"{ctx.lit(a)} {base}")
        text = "defined"
    else:
        text = form.replace("{a}", ctx.lit(a)).replace("^n", "^" + ctx.lit(n)).replace("{x}", base)
    time = which == "time" and form != "({x} @ 3)"
    if form == "{x}^n":
        time = ctx.branch(n._z == 1) if ctx.symbolic and time else time and n == 1
    ref = ctx.choose("ref", ["2000-01-01", "12"])
    got = outcome(s, f"{text} since {ref}")
    detail = f"{text} since {ref}, time is {tn or ts}: {got}"
    if time:
        ctx.check(isinstance(got, DateUnit), "is a date", detail)
        ctx.check(got.is_time_unit() and got.unit.is_time_unit() and got.unit == s.unit(text), "is a date", detail)
    elif form == "({x} @ 3)" and which == "time":
        # the bracket is a date already
        ctx.check(got == "refused", "refused", detail)
    elif ref == "2000-01-01":
        ctx.check(got == "refused", "refused", detail)
    else:
        ctx.check(isinstance(got, pyudunits2.Unit) and not isinstance(got, DateUnit), "ordinary", detail)
        ctx.check(not got.is_time_unit(), "ordinary", detail)
    if form != "({x} @ 3)":
        ctx.check(bool(s.unit(text).is_time_unit()) is bool(time), "time unit", detail)


def named(ctx):
    """A definition is inside the expressions that use its name."""
    s, us = system(ctx)
    define(s, "epoch", ctx.choose("def", ["hour since 2000-01-01", "s @ 5", "(hour rad) from 3.5", "pw since 1999-1-1", "m since 2000-01-01"]))
    text = ctx.choose("text", ["epoch", "2 epoch", "epoch/s", "epoch since 2000-01-01", "lg(re epoch)"])
    got = outcome(s, text)
    ctx.check(got == "refused", "named", f"{text}: {got}")


def cases(tier):
    t = tier == "thorough"
    tops = ["hour", "khour", "pw", "freq", "speed", "off", "lg", "rad"] + ["lgt"] * t
    for a in tops:
        if a == "lgt":
            continue
        yield Case(
            f"shifts[{a}]",
            shifts(a, ["s", "m", "pw"] if not t else ["s", "freq", "pw"], 0 if not t else 1),
            ("ordinary", "refused") if a == "lg" else ("ordinary", "refused", "is a date") if a not in ("off", "rad") else ("ordinary", "refused"),
        )
    yield Case("operators", operators, ("is a date", "refused"))
    for i in range(len(FORMS)):
        yield Case(f"forms[{FORMS[i]}]", forms(i), ("valid form", "text kept"))
    for w in WRAPS:
        yield Case(f"nested[{w}]", nested([w], 1), ("nested",))
        if t:
            yield Case(f"nested3[{w}]", nested([w], 3), ("nested",))
    for w in list(WRAPS)[:: 1 if t else 4]:
        yield Case(f"nested2[{w}]", nested([w], 2), ("nested",))
    yield Case("clocks", clocks, ("is a date", "refused", "ordinary", "time unit"))
    yield Case("named", named, ("named",))
