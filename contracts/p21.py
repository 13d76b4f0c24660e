"""P21: Gaussian random fields.  u = ISHT( (l,m) -> xi[n,l,m] * sqrt_eig(l) ),
sqrt_eig(l) = sigma * (l(l+1)/radius^2 + tau^2)^(-alpha/2), 0 at l=0; sigma defaults to tau^(alpha-1)."""
from .shtspec import *

MR = "torch_harmonics.random_fields"


class ISHT(Module):
    log = None

    def __init__(self, nlat, nlon, lmax=None, mmax=None, grid="equiangular", norm="ortho", csphase=True):
        super().__init__()
        self.nlat, self.nlon, self.grid, self.norm, self.csphase = nlat, nlon, grid, norm, csphase
        self.lmax = self.mmax = trunc_c(nlat, nlon, lmax, mmax, grid)[0]

    def forward(self, c):
        Ctx.cur.prove("callee precondition: extents", z3.And(Z(c.shape[-2]) == Z(self.lmax), Z(c.shape[-1]) == Z(self.mmax)))
        r = SymTensor.input(f"isht{len(ISHT.log)}", list(c.shape[:-2]) + [self.nlat, self.nlon], dtype=float64 if c.dtype is complex128 else float32, free=False)
        ISHT.log.append((self, c, r))
        return r


def mk(grid, sig, given, twice=False):
    def proof(ctx):
        ISHT.log = []
        NormalStub.log.clear()
        m = Loader(overrides({MS: dict(InverseRealSHT=ISHT)})).load(MR)
        ctx.functions.update(["random_fields.GaussianRandomFieldS2.__init__", "random_fields.GaussianRandomFieldS2.forward"])
        ctx.assumptions.add("InverseRealSHT by contract (P06: linear, ignores coefficients with m > l); torch.distributions.Normal draws loc + scale*z; pow uninterpreted")
        nlat = ctx.int("nlat", lo=2)
        al, tau, rad = (wrap(z3.Real(n)) for n in ("alpha", "tau", "radius"))
        ctx.assume(z3.And(tau.e > 0, rad.e > 0))
        kw = {}
        if sig:
            s = wrap(z3.Real("sigma"))
            kw["sigma"] = s
        else:
            ctx.assume(al.e > 1)
            s = wrap(rfun("pow", tau.e, al.e - 1))
        L = cut(nlat, 2 * nlat, None, None, grid)
        ctx.assume(L >= 1)
        op = m.GaussianRandomFieldS2(nlat, alpha=al, tau=tau, radius=rad, grid=grid, dtype=float64, **kw)
        N = ctx.int("N", lo=1)
        Lw = wrap(z3.simplify(L))
        if twice:
            op.forward(N)
            ISHT.log.clear()
            NormalStub.log.clear()
        if given:
            xi = SymTensor.input("xi", [N, Lw, Lw], dtype=complex128)
            fr = Frame(op, xi)
            y = op.forward(N, xi)
            fr.prove(ctx)
            ctx.prove("given noise is the only randomness", not NormalStub.log)
            xv = lambda n, l, mm: xi.at(n, l, mm)
        else:
            y = op.forward(N)
            if len(NormalStub.log) != 1:
                raise Unsupported("number of noise draws")
            d, sh, z = NormalStub.log[0]
            ctx.prove("standard normal", z3.And(to_real(d.loc.at(*[0] * d.loc.ndim)) == 0, to_real(d.scale.at(*[0] * d.scale.ndim)) == 1))
            zz = z.reshape(N, Lw, Lw, 2) if z.ndim == 5 else z
            if zz.ndim != 4:
                raise Unsupported("shape of the noise")
            xv = lambda n, l, mm: CVal(zz.at(n, l, mm, 0), zz.at(n, l, mm, 1))
        if len(ISHT.log) != 1:
            raise Unsupported("number of inverse transforms")
        q, c, r = ISHT.log[0]
        ctx.prove("unnormalised transform of the requested grid", q.norm not in ("ortho", "schmidt") and q.grid == grid and q.csphase is True)
        ctx.prove("transform extents", z3.And(Z(q.nlat) == Z(nlat), Z(q.nlon) == 2 * Z(nlat)))
        ctx.prove("returns the transform", y is r or tuple(map(str, y.shape)) == tuple(map(str, r.shape)))
        if y is not r:
            i = [ctx.idx("r", t) for t in r.shape]
            ctx.prove_eq("returned field", y.at(*i), r.at(*i))
        if not prove_shape(ctx, "coefficients", c, [N, L, L]):
            return
        n, l, mm = ctx.idx("n", N), ctx.idx("l", L), ctx.idx("m", L)
        lr = z3.ToReal(Z(l))
        eig = s.e * rfun("pow", lr * (lr + 1) / (rad.e * rad.e) + tau.e * tau.e, -al.e / 2)
        ctx.prove_eq("shaped noise", c.at(n, l, mm), v_mul(xv(n, l, mm), eig), [Z(mm) <= Z(l), Z(l) >= 1])
        ctx.prove_eq("no mean", c.at(n, 0, 0), CVal(0, 0))
        ctx.canary()

    return proof


def rej(ctx):
    ISHT.log = []
    m = Loader(overrides({MS: dict(InverseRealSHT=ISHT)})).load(MR)
    al = wrap(z3.Real("alpha"))
    prove_rejects(ctx, "GaussianRandomFieldS2 default sigma", lambda: m.GaussianRandomFieldS2(ctx.int("nlat", lo=4), alpha=al, tau=wrap(z3.Real("tau"))), al.e <= 1)
    ctx.canary()


PROOFS = [(f"GaussianRandomFieldS2[{g},{'sigma' if s else 'default sigma'},{'given noise' if x else 'drawn noise'}{',second call' if t else ''}]", mk(g, s, x, t)) for g in SHTGRIDS for s in (0, 1) for x in (0, 1) for t in (0, 1)]
PROOFS.append(("GaussianRandomFieldS2[alpha<=1 refused]", rej))
