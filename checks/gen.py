"""Unit expressions of bounded depth over a given set of atoms."""
from __future__ import annotations

from .common import *  # noqa: F401,F403


def tree(ctx, depth, atoms, tag="t", ops=("mul", "div", "pow"), exps=("n", "k"), brackets=False):
    """Any expression of the given depth: a U."""
    kinds = ["atom"] + (list(ops) if depth else [])
    kind = ctx.choose(tag + ".op", kinds)
    if kind == "atom":
        return atoms[ctx.choose(tag + ".atom", list(atoms))]
    left = tree(ctx, depth - 1, atoms, tag + "l", ops, exps)
    if kind == "pow":
        e = ctx.int(exps[0])
        return left.pow(e, ctx.lit(e))
    right = tree(ctx, depth - 1, atoms, tag + "r", ops, exps)
    return left.mul(right, "*") if kind == "mul" else left.div(right)


def judge_meaning(ctx, s, unit, u, label, detail, reference="m", skip=()):
    """The unit means what the oracle says: dimensionality and conversion to
    the product of its basis units (any integer orders)."""
    check_dims(ctx, unit.dimensionality(), nonzero_dims(ctx, u.dims), label, detail)
    target = "1"
    for k, n in u.dims.items():
        if not zero(ctx, n):
            target += f"*{k}^{ctx.lit(n)}"
    expr = Converter(unit, s.unit(target)).expression
    form = {"form": "log"} if u.kind == "lin" and any(hasattr(n, "_z") for n in u.dims.values()) else {}
    ctx.same(expr, u.to_base(V), label, f"{detail}: {expr}, want {u.to_base(V)}", **form)
