"""Symbolic token types: the generated parser runs on tokens of any kind."""
from __future__ import annotations

import contextlib

import z3

from . import engine

RealInt = int


class TokType:
    """The type of one token: an integer the solver chooses, within a set."""

    def __init__(self, term, values):
        self.term = term
        self.all = tuple(values)

    @property
    def __class__(self):
        return RealInt

    def left(self):
        return engine.CUR.charset.get(("token", self.term.sexpr()), self.all)

    def within(self, values):
        """Is the type among these values? (a fork, unless settled already)"""
        left = self.left()
        yes = tuple(v for v in left if v in values)
        no = tuple(v for v in left if v not in values)
        if not yes or not no:
            return bool(yes)
        ctx = engine.CUR
        r = ctx.branch(z3.Or([self.term == v for v in yes]))
        ctx.charset[("token", self.term.sexpr())] = yes if r else no
        return r

    def value(self):
        while len(self.left()) > 1:
            self.within(self.left()[:1])
        return self.left()[0]

    def group(self, transitions, top):
        """A representative of the types these transitions treat alike."""
        groups = {}
        for v in self.left():
            groups.setdefault(tuple(bool(t.matches(v, 0, top)) for t in transitions), []).append(v)
        for g in list(groups.values())[:-1]:
            if self.within(g):
                break
        return self.left()[0]

    def __eq__(self, o):
        if type(o) is TokType:
            return self is o or self.value() == o.value()
        return isinstance(o, RealInt) and self.within((o,))

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.within([v for v in self.all if v < o])

    def __le__(self, o):
        return self.within([v for v in self.all if v <= o])

    def __gt__(self, o):
        return self.within([v for v in self.all if v > o])

    def __ge__(self, o):
        return self.within([v for v in self.all if v >= o])

    def __and__(self, mask):
        if mask == ~0x3F and all(0 <= v < 64 for v in self.all):
            return 0
        return self.value() & mask

    def __rlshift__(self, one):
        return OneBit(self) if one == 1 else one << self.value()

    def __hash__(self):
        return hash(self.value())

    def __index__(self):
        return self.value()

    __int__ = __index__

    def __add__(self, o):
        return self.value() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.value() - o

    def __rsub__(self, o):
        return o - self.value()

    def __str__(self):
        return str(self.value())

    __repr__ = __str__


class OneBit:
    def __init__(self, tok):
        self.tok = tok

    def __and__(self, mask):
        return RealInt(self.tok.within([v for v in self.tok.all if mask >> v & 1]))

    __rand__ = __and__


def labelled(configs):
    return [t for c in configs for t in c.state.transitions if not t.isEpsilon]


@contextlib.contextmanager
def parser_on_tokens():
    """The parser's tables are consulted once for all the types they treat alike."""
    from pyudunits2._grammar._antlr4_runtime.atn.ParserATNSimulator import ParserATNSimulator as Sim

    old = {n: Sim.__dict__[n] for n in ("getExistingTargetState", "computeTargetState", "computeReachSet")}

    def rep(self, configs, t):
        return t.group(labelled(configs), self.atn.maxTokenType) if type(t) is TokType else t

    def getExistingTargetState(self, d, t):
        return old["getExistingTargetState"](self, d, rep(self, d.configs, t))

    def computeTargetState(self, dfa, d, t):
        return old["computeTargetState"](self, dfa, d, rep(self, d.configs, t))

    def computeReachSet(self, closure, t, full):
        return old["computeReachSet"](self, closure, rep(self, closure, t), full)

    Sim.getExistingTargetState, Sim.computeTargetState, Sim.computeReachSet = getExistingTargetState, computeTargetState, computeReachSet
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(Sim, n, f)
