"""P08: spectral convolution.  Callee contracts: RealSHT / InverseRealSHT as linear maps on the last two
dimensions (P06), QuadratureS2 as weighted sum (P05).
  y[b, g*Co+o, k, j] = ISHT( (l,m) -> sum_i W[g,i,o,l] * (SHT(x)[b, g*Ci+i, l, m] + bias[g*Ci+i,l,m] * Q(x)[b, g*Ci+i]) )
"""
from .shtspec import *

MC = "torch_harmonics.spectral_convolution"
def _cfg(nlat, nlon, lmax, mmax, grid, k):
    L = trunc_c(nlat, nlon, lmax, mmax, grid)[0]
    if k.get("norm", "ortho") != "ortho" or not k.get("csphase", True):
        raise Unsupported("other transform convention")
    return L


class Op(Module):
    """A module by contract: a fixed linear map of the last two dimensions (P05/P06).  The result is a new
    symbolic tensor; the obligation is that the argument is, pointwise, the specified one."""

    log = None

    def __init__(self, nlat, nlon, lmax=None, mmax=None, grid="equiangular", **k):
        self.nlat, self.nlon, self.grid = nlat, nlon, grid
        self.lmax = self.mmax = _cfg(nlat, nlon, lmax, mmax, grid, k)


class SHT(Op):
    def forward(self, x):
        Ctx.cur.prove("callee precondition: extents", z3.And(Z(x.shape[-2]) == Z(self.nlat), Z(x.shape[-1]) == Z(self.nlon)))
        r = SymTensor.input(f"sht{len(Op.log)}", list(x.shape[:-2]) + [self.lmax, self.mmax], dtype=complex128 if x.dtype is float64 else complex64, free=False)
        Op.log.append(("sht", self, x, r))
        return r


class ISHT(Op):
    def forward(self, c):
        Ctx.cur.prove("callee precondition: extents", z3.And(Z(c.shape[-2]) == Z(self.lmax), Z(c.shape[-1]) == Z(self.mmax)))
        r = SymTensor.input(f"isht{len(Op.log)}", list(c.shape[:-2]) + [self.nlat, self.nlon], dtype=float64 if c.dtype is complex128 else float32, free=False)
        Op.log.append(("isht", self, c, r))
        return r


class QUAD(Module):
    def __init__(self, img_shape, grid="equiangular", normalize=False):
        self.s, self.grid, self.normalize = img_shape, grid, normalize

    def forward(self, x):
        r = SymTensor.input(f"quad{len(Op.log)}", list(x.shape[:-2]), dtype=x.dtype, free=False)
        Op.log.append(("quad", self, x, r))
        return r


def the(ctx, kind):
    l = [e for e in Op.log if e[0] == kind]
    if len(l) != 1:
        raise Unsupported(f"{len(l)} applications of {kind}")
    return l[0]


def mk(gi, go, bias, groups, dt):
    def proof(ctx):
        Op.log = []
        ld = Loader(overrides({MS: dict(RealSHT=SHT, InverseRealSHT=ISHT), MQ: dict(QuadratureS2=QUAD)}))
        m = ld.load(MC)
        ctx.functions.update(["spectral_convolution.SpectralConvS2.__init__", "spectral_convolution.SpectralConvS2.forward", "spectral_convolution.SpectralConvS2._contract_lwise"])
        ctx.assumptions.add("RealSHT/InverseRealSHT/QuadratureS2 by contract (P05, P06); torch.compile preserves semantics")
        n1, n2, k1, k2 = ctx.int("nlat_in", lo=2), ctx.int("nlon_in", lo=1), ctx.int("nlat_out", lo=2), ctx.int("nlon_out", lo=1)
        G = ctx.int("groups", lo=1) if groups is None else groups
        ci, co = ctx.int("ci", lo=1), ctx.int("co", lo=1)
        Ci, Co = (wrap(z3.simplify(Z(G) * Z(c))) for c in (ci, co))
        L = Min(cut(n1, n2, None, None, gi), cut(k1, k2, None, None, go))
        ctx.assume(L >= 1)
        op = m.SpectralConvS2((n1, n2), (k1, k2), Ci, Co, num_groups=G, grid_in=gi, grid_out=go, bias=bias)
        ctx.prove("cut-off common to both grids", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        if not prove_shape(ctx, "weight", op.weight, [G, ci, co, L]):
            return
        W = SymTensor.input("W", op.weight.shape, dtype=complex64)
        op.weight = W
        if bias:
            if not prove_shape(ctx, "bias", op.spectral_bias, [1, Ci, L, L]):
                return
            bs = SymTensor.input("bias", op.spectral_bias.shape, dtype=complex64)
            op.spectral_bias = bs
        B = ctx.int("B", lo=1)
        x = SymTensor.input("x", [B, Ci, n1, n2], dtype=dt)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        if not prove_shape(ctx, "output", y, [B, Co, k1, k2]):
            return
        b, g, o, c = ctx.idx("b", B), ctx.idx("g", G), ctx.idx("o", co), ctx.idx("c", Ci)
        l, mm = ctx.idx("l", L), ctx.idx("m", L)
        k, j = ctx.idx("k", n1), ctx.idx("j", n2)
        _, so, sx, S = the(ctx, "sht")
        ctx.prove("analysis on the input grid up to the cut-off", z3.And(so.grid == gi, Z(so.nlat) == n1.e, Z(so.nlon) == n2.e, Z(so.lmax) == L))
        ctx.prove_eq("analysis of the input", sx.at(b, c, k, j), x.at(b, c, k, j))
        if bias:
            _, qo, qx, Q = the(ctx, "quad")
            ctx.prove("integral over the input grid", z3.And(qo.grid == gi, not qo.normalize, Z(qo.s[0]) == n1.e, Z(qo.s[1]) == n2.e))
            ctx.prove_eq("integral of the input", qx.at(b, c, k, j), x.at(b, c, k, j))
        _, io, ic, I = the(ctx, "isht")
        ctx.prove("synthesis on the output grid up to the cut-off", z3.And(io.grid == go, Z(io.nlat) == k1.e, Z(io.nlon) == k2.e, Z(io.lmax) == L))

        def t(ks):
            i = ks[0]
            ch = g * Z(ci) + i
            v = S.at(b, ch, l, mm)
            if bias:
                v = v_add(v, v_mul(Q.at(b, ch), bs.at(z3.IntVal(0), ch, l, mm)))
            return v_mul(v, W.at(g, i, o, l))

        och = g * Z(co) + o
        if not prove_shape(ctx, "coefficients", ic, [B, Co, L, L]):
            return
        ctx.prove_eq("degree-wise group contraction", ic.at(b, och, l, mm), nested_sum([ci], t))
        k, j = ctx.idx("k", k1), ctx.idx("j", k2)
        ctx.prove_eq("output is the synthesis", y.at(b, och, k, j), I.at(b, och, k, j))
        ctx.prove("input floating type kept", y.dtype is dt)
        ctx.canary()

    return proof


def reject(ctx):
    m = Loader(overrides({MS: dict(RealSHT=SHT, InverseRealSHT=ISHT), MQ: dict(QuadratureS2=QUAD)})).load(MC)
    C, D, G = ctx.int("in_channels", lo=1), ctx.int("out_channels", lo=1), ctx.int("groups", lo=1)
    bad = z3.Or(fdivmod(C.e, G.e)[1] != 0, fdivmod(D.e, G.e)[1] != 0)
    prove_rejects(ctx, "channel divisibility", lambda: m.SpectralConvS2((4, 8), (4, 8), C, D, num_groups=G), bad)
    ctx.canary()


PROOFS = [(f"SpectralConvS2[{a}->{b},bias={bi},groups={'any' if g is None else g}]", mk(a, b, bi, g, float32)) for a in SHTGRIDS for b in SHTGRIDS for bi in (False, True) for g in (None, 1)]
PROOFS += [("SpectralConvS2[double input]", mk("equiangular", "legendre-gauss", True, None, float64)), ("SpectralConvS2[half input]", mk("equiangular", "equiangular", False, None, float16)), ("SpectralConvS2[divisibility]", reject)]
