"""P04: Legendre tables.

Spec function PL(m,l,i) (orthonormal, no phase, node x_i), *defined* by the textbook recurrences
(Abramowitz-Stegun / DLMF 14.7, 18.9 in orthonormal form):
  PL(0,0)   = 1/sqrt(4 pi)
  PL(m,m)   = sqrt((2m+1)/(2m)) sqrt(1-x^2) PL(m-1,m-1)
  PL(m,m+1) = sqrt(2m+3) x PL(m,m)
  PL(m,l)   = sqrt((4l^2-1)/(l^2-m^2)) (x PL(m,l-1) - sqrt(((l-1)^2-m^2)/(4(l-1)^2-1)) PL(m,l-2))
  PL(m,l)   = 0 for l < m
Loop contracts: closed-form table state at the start of every iteration.
"""
from .common import *

PLF = z3.Function("PL", INT, INT, INT, REAL)
SQ = lambda a: rfun("sqrt", a)


class DiagLoop:
    """legpoly loop 0: diagonal and sub-diagonal."""

    def __init__(self, x, nf):
        self.x, self.nf = x, nf

    def locals_free(self):
        return ()

    def tensors(self, env):
        return {"vdm": env["vdm"]}

    def state(self, k, env):
        k = Z(k)

        def f(m, l, i):
            on = z3.And(l < k, z3.Or(m == l, m + 1 == l))
            return z3.If(z3.Or(on, z3.And(m == 0, l == 0)), self.nf * PLF(m, l, i), z3.RealVal(0))

        return {"vdm": f}

    def facts(self, ctx, k, gi):
        m, l, i = gi
        x = R(self.x.at(i))
        ctx.axiom(z3.And(x >= -1, x <= 1))
        kr = z3.ToReal(k)
        ctx.define(PLF(0, 0, i), 1 / SQ(4 * PI))
        ctx.define(PLF(k, k, i), SQ((2 * kr + 1) / (2 * kr)) * SQ(1 - x * x) * PLF(k - 1, k - 1, i), k >= 1)
        ctx.define(PLF(k - 1, k, i), SQ(2 * kr + 1) * x * PLF(k - 1, k - 1, i), k >= 1)

    def split(self, ctx, k, gi, prove):
        m, l, i = gi
        prove("[diagonal]", [m == k, l == k])
        prove("[sub-diagonal]", [m == k - 1, l == k])
        prove("[frame]", [z3.Not(z3.And(l == k, z3.Or(m == k, m == k - 1)))])


class ThreeTerm:
    """legpoly loop 1: three-term recurrence in the degree."""

    def __init__(self, x, nf):
        self.x, self.nf = x, nf

    def locals_free(self):
        return ("m", "a_lm", "b_lm")

    def tensors(self, env):
        return {"vdm": env["vdm"]}

    def state(self, k, env):
        k = Z(k)

        def f(m, l, i):
            on = z3.And(m <= l, z3.Or(l < k, m >= l - 1))
            return z3.If(on, self.nf * PLF(m, l, i), z3.RealVal(0))

        return {"vdm": f}

    def facts(self, ctx, k, gi):
        m, l, i = gi
        x = R(self.x.at(i))
        ctx.axiom(z3.And(x >= -1, x <= 1))
        kr, mr = z3.ToReal(k), z3.ToReal(m)
        A = (4 * kr * kr - 1) / (kr * kr - mr * mr)
        B = ((kr - 1) * (kr - 1) - mr * mr) / (4 * (kr - 1) * (kr - 1) - 1)
        ctx.define(PLF(m, k, i), SQ(A) * (x * PLF(m, k - 1, i) - SQ(B) * PLF(m, k - 2, i)), z3.And(m >= 0, m <= k - 2))

    def split(self, ctx, k, gi, prove):
        m, l, i = gi
        prove("[new degree]", [l == k, m <= k - 2])
        prove("[kept diagonals]", [l == k, m > k - 2])
        prove("[frame]", [l != k])


def spec_scale(norm, inverse, l):
    if norm == "ortho":
        return z3.RealVal(1)
    f = SQ(4 * PI)
    if norm == "schmidt":
        f = f / SQ(2 * z3.ToReal(l) + 1)
    return 1 / f if inverse else f


def mk(norm, inverse, cs, mle):
    def proof(ctx):
        m = Loader().load("torch_harmonics.legendre")
        ctx.functions.update(["legendre.legpoly"])
        ctx.assumptions.add("PL is the textbook recurrence; its identity with the Rodrigues form is standard and checked numerically in the bounded part")
        mmax, lmax, n = ctx.int("mmax", lo=1), ctx.int("lmax", lo=1), ctx.int("nodes", lo=1)
        # case split on which of mmax, lmax is the larger (max() in the code)
        ctx.assume(mmax.e <= lmax.e if mle else mmax.e > lmax.e)
        x = SymTensor.input("x", (n,))
        sp = SQ(4 * PI)
        nf = z3.RealVal(1) if norm == "ortho" else (1 / sp if inverse else sp)
        LoopContracts.table[("torch_harmonics.legendre", "legpoly", 0)] = DiagLoop(x, nf)
        LoopContracts.table[("torch_harmonics.legendre", "legpoly", 1)] = ThreeTerm(x, nf)
        t = m.legpoly(mmax, lmax, x, norm=norm, inverse=inverse, csphase=cs)
        if not prove_shape(ctx, "table", t, [mmax, lmax, n]):
            return
        a, l, i = ctx.idx("m", mmax), ctx.idx("l", lmax), ctx.idx("i", n)
        ph = z3.If(fdivmod(a, z3.IntVal(2))[1] == 1, z3.RealVal(-1), z3.RealVal(1)) if cs else z3.RealVal(1)
        ctx.axiom(z3.Implies(l < a, PLF(a, l, i) == 0))
        got = t.at(a, l, i)
        ctx.prove_eq("value = phase * scale * PL(m,l)", got, ph * spec_scale(norm, inverse, l) * PLF(a, l, i), [l >= a])
        ctx.prove_eq("zero above the diagonal", got, 0, [l < a])
        ctx.canary()

    return proof


PROOFS = [(f"legpoly[{n},inverse={i},csphase={c},{'mmax<=lmax' if w else 'mmax>lmax'}]", mk(n, i, c, w)) for n in ("ortho", "schmidt", OtherName()) for i in (False, True) for c in (False, True) for w in (1, 0)]


# ---- _precompute_legpoly: table of legpoly at cos(theta) (callee by contract)

MLEG = "torch_harmonics.legendre"
GEN = z3.Function("LEGPOLY", INT, INT, REAL, REAL)  # contract value of legpoly(m,l,x) for the fixed options


def mk_pre(norm, inverse, cs):
    def proof(ctx):
        calls = []

        def leg_c(mmax, lmax, x, norm="ortho", inverse=False, csphase=True):
            calls.append((norm, inverse, csphase))
            return SymTensor([mmax, lmax, x.shape[0]], lambda m, l, i: GEN(m, l, R(x.at(i))), float64)

        m = Loader({MLEG: {"legpoly": leg_c}}).load(MLEG)
        ctx.functions.add("legendre._precompute_legpoly")
        mmax, lmax, n = ctx.int("mmax", lo=1), ctx.int("lmax", lo=1), ctx.int("nodes", lo=1)
        t = SymTensor.input("t", (n,))
        y = m._precompute_legpoly(mmax, lmax, t, norm=norm, inverse=inverse, csphase=cs)
        ctx.prove("options handed on", all(c[0] is norm and bool(c[1]) == inverse and bool(c[2]) == cs for c in calls) and len(calls) == 1)
        if not prove_shape(ctx, "table", y, [mmax, lmax, n]):
            return
        a, l, i = ctx.idx("m", mmax), ctx.idx("l", lmax), ctx.idx("i", n)
        ctx.prove_eq("legpoly at cos(theta)", y.at(a, l, i), GEN(a, l, rfun("cos", R(t.at(i)))))
        ctx.canary()

    return proof


# ---- _precompute_dlegpoly.  Spec (ladder identities, DLMF 14.10; P = orthonormal, no phase):
#   d/dtheta P(m,l) = 1/2 ( sqrt((l+m)(l-m+1)) P(m-1,l) - sqrt((l-m)(l+m+1)) P(m+1,l) ),   m >= 1
#   d/dtheta P(0,l) = - sqrt(l(l+1)) P(1,l)
#   m P(m,l)/sin    = 1/2 sqrt((2l+1)/(2l+3)) ( sqrt((l-m+1)(l-m+2)) P(m-1,l+1) + sqrt((l+m+1)(l+m+2)) P(m+1,l+1) )


def dleg_post(ctx, y, a, par, q, l, i, mmax, norm, inverse, cs):
    """Postcondition at order a = 2q+par (parity case split), degree l, node i."""
    ph = z3.RealVal(-1 if (cs and par) else 1)
    lr, mr = z3.ToReal(l), 2 * z3.ToReal(q) + par
    sc = spec_scale(norm, inverse, l)
    half = z3.RealVal("1/2")
    d0 = half * (SQ((lr + mr) * (lr - mr + 1)) * PLF(a - 1, l, i) - SQ((lr - mr) * (lr + mr + 1)) * PLF(a + 1, l, i))
    d1 = half * SQ((2 * lr + 1) / (2 * lr + 3)) * (SQ((lr - mr + 1) * (lr - mr + 2)) * PLF(a - 1, l + 1, i) + SQ((lr + mr + 1) * (lr + mr + 2)) * PLF(a + 1, l + 1, i))
    z0, z1 = z3.IntVal(0), z3.IntVal(1)
    g0, g1 = y.at(z0, a, l, i), y.at(z1, a, l, i)
    h = [q >= 0, a < mmax]
    t = f"[m {'odd' if par else 'even'}] "
    ctx.prove_eq(t + "dtheta, 1<=m<l", g0, ph * sc * d0, h + [a >= 1, a < l])
    ctx.prove_eq(t + "dtheta, m=l>=1", g0, ph * sc * half * SQ(2 * lr) * PLF(a - 1, l, i), h + [a >= 1, a == l])
    if not par:
        ctx.prove_eq(t + "dtheta, m=0<l", g0, -sc * SQ(lr * (lr + 1)) * PLF(1, l, i), h + [a == 0, l >= 1])
        ctx.prove_eq(t + "dtheta, m=l=0", g0, 0, h + [a == 0, l == 0])
        ctx.prove_eq(t + "m P/sin, m=0", g1, 0, h + [a == 0])
    ctx.prove_eq(t + "dtheta, m>l", g0, 0, h + [a > l])
    ctx.prove_eq(t + "m P/sin, 1<=m<=l", g1, ph * sc * d1, h + [a >= 1, a <= l])
    ctx.prove_eq(t + "m P/sin, m>l", g1, 0, h + [a > l])


def mk_dleg(norm, inverse, cs):
    def proof(ctx):
        def pre_c(mmax, lmax, t, norm="ortho", inverse=False, csphase=True):
            def f(m, l, i):
                ph = z3.If(fdivmod(m, z3.IntVal(2))[1] == 1, z3.RealVal(-1), z3.RealVal(1)) if csphase else z3.RealVal(1)
                return z3.If(m <= l, ph * spec_scale(norm, inverse, l) * PLF(m, l, i), z3.RealVal(0))

            return SymTensor([mmax, lmax, t.shape[0]], f, float64)

        m = Loader({MLEG: {"_precompute_legpoly": pre_c}}).load(MLEG)
        ctx.functions.add("legendre._precompute_dlegpoly")
        ctx.assumptions.add("ladder identities of associated Legendre functions (DLMF 14.10) as definition of the two derivative tables; checked against closed forms in the bounded part")
        mmax, lmax, n = ctx.int("mmax", lo=1), ctx.int("lmax", lo=1), ctx.int("nodes", lo=1)
        t = SymTensor.input("t", (n,))
        y = m._precompute_dlegpoly(mmax, lmax, t, norm=norm, inverse=inverse, csphase=cs)
        if not prove_shape(ctx, "table", y, [2, mmax, lmax, n]):
            return
        l, i = ctx.idx("l", lmax), ctx.idx("i", n)
        for par in (0, 1):
            q = ctx.fresh("q")
            a = 2 * q + par
            dleg_post(ctx, y, a, par, q, l, i, Z(mmax), norm, inverse, cs)
        ctx.canary()

    return proof


PROOFS += [(f"_precompute_legpoly[{n},inverse={i},csphase={c}]", mk_pre(n, i, c)) for n in ("ortho", "schmidt", OtherName()) for i in (False, True) for c in (False, True)]
PROOFS += [(f"_precompute_dlegpoly[{n},inverse={i},csphase={c}]", mk_dleg(n, i, c)) for n in ("ortho", "schmidt", OtherName()) for i in (False, True) for c in (False, True)]
