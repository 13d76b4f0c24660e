"""Shared pieces of the contracts."""
import z3
from vp.symcore import *
from vp.symtorch import *
from vp.symload import *


class OtherName:
    """An arbitrary string different from every literal in the program."""

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return 7

    def __str__(self):
        return "<other>"

    __repr__ = __str__
    __format__ = lambda self, s: "<other>"


GRIDS = ["legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]


def Z(x):
    return to_int(x)


def R(x):
    return to_real(x)


def Min(a, b):
    a, b = Z(a), Z(b)
    return z3.If(a <= b, a, b)


def Max(a, b):
    a, b = Z(a), Z(b)
    return z3.If(a >= b, a, b)


def rng(i, n):
    return [Z(i) >= 0, Z(i) < Z(n)]


def prove_shape(ctx, name, t, shape):
    ctx.prove(name + ".rank", len(t.shape) == len(shape))
    if len(t.shape) == len(shape):
        ctx.prove(name + ".shape", z3.And([Z(a) == Z(b) for a, b in zip(t.shape, shape)]) if shape else True)
        return True
    return False


def _root(t):
    while t._view is not None:
        t = t._view[0]
    return t


class Frame:
    """Frame condition of a call: the module's existing tensors keep value and precision, and the
    argument tensors keep their value (results do not depend on the history of earlier calls)."""

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self.at = {k: (v.dtype, tuple(v._shape), v._snapshot(), _root(v)._fn) for k, v in vars(op).items() if isinstance(v, SymTensor)} if op is not None else {}
        self.ar = [(a, a._snapshot(), _root(a)._fn) for a in args]

    def prove(self, ctx):
        for k, (dt, sh, old, fn) in self.at.items():
            v = vars(self.op).get(k)
            if not isinstance(v, SymTensor):
                continue
            ctx.prove(f"frame: {k} keeps its precision", v.dtype is dt)
            if _root(v)._fn is fn or len(v._shape) != len(sh):
                continue
            i = [ctx.idx("f", s) for s in sh]
            ctx.prove_eq(f"frame: {k} keeps its value", v.at(*i), old(*[Z(j) for j in i]))
        for n, (a, old, fn) in enumerate(self.ar):
            if _root(a)._fn is fn:
                continue
            i = [ctx.idx("f", s) for s in a._shape]
            ctx.prove_eq(f"frame: argument {n} unmodified", a.at(*i), old(*[Z(j) for j in i]))


def wrapidx(p, W):
    """p mod W for 0 <= p < 2W"""
    return z3.If(p < W, p, p - W)
