"""P06: scalar transforms.

forward:  out[..., l, m] = sum_k w_k P(m,l,theta_k) * 2 pi F(x[..., k, :])_m   (F = DFT/nlon, zero above Nyquist)
inverse:  out[..., k, j] = real series over m of sum_l c[..., l, m] P_inv(m,l,theta_k)
"""
from .shtspec import *


def mk_fwd(grid, norm, cs, lead, hl, hm, dt):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        ctx.functions.update(["sht.RealSHT.__init__", "sht.RealSHT.forward"])
        ctx.assumptions.add(CALLEES)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, hl, hm)
        op = m.RealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        L = cut(nlat, nlon, lmax, mmax, grid)
        ctx.assume(L >= 1)
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        x = SymTensor.input("x", ld + [nlat, nlon], dtype=dt)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        if not prove_shape(ctx, "coefficients", y, ld + [L, L]):
            return
        li = [ctx.idx("b", d) for d in ld]
        l, mm = ctx.idx("l", L), ctx.idx("m", L)
        r, o = GID[grid], opt(norm, False, cs)

        def term(ks):
            k = ks[0]
            return v_mul(TBL(o, mm, l, theta(r, nlat, k)) * rw(r, nlat, k), fourier(x, nlon, li, k, mm))

        ctx.prove_eq("projection on Y(l,m), m<=l", y.at(*li, l, mm), nested_sum([nlat], term), [mm <= l])
        ctx.prove_eq("zero for m>l", y.at(*li, l, mm), CVal(0, 0), [mm > l])
        ctx.prove("precision kept", y.dtype is (complex128 if dt is float64 else complex64))
        ctx.canary()

    return proof


def mk_inv(grid, norm, cs, lead, hl, hm, dt):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        ctx.functions.update(["sht.InverseRealSHT.__init__", "sht.InverseRealSHT.forward"])
        ctx.assumptions.add(CALLEES)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, hl, hm)
        op = m.InverseRealSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        L = cut(nlat, nlon, lmax, mmax, grid)
        ctx.assume(L >= 1)
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        Lw = wrap(z3.simplify(L))
        c = SymTensor.input("c", ld + [Lw, Lw], dtype=dt)
        fr = Frame(op, c)
        y = op.forward(c)
        fr.prove(ctx)
        if not prove_shape(ctx, "field", y, ld + [nlat, nlon]):
            return
        li = [ctx.idx("b", d) for d in ld]
        k, j = ctx.idx("k", nlat), ctx.idx("j", nlon)
        r, o = GID[grid], opt(norm, True, cs)

        def mode(mm):
            return nested_sum([Lw], lambda ls: v_mul(z3.If(mm <= ls[0], TBL(o, mm, ls[0], theta(r, nlat, k)), z3.RealVal(0)), c.at(*li, ls[0], mm)))

        ctx.prove_eq("harmonic series", y.at(*li, k, j), synth(mode, Lw, nlon, j))
        ctx.prove("precision kept", y.dtype is (float64 if dt is complex128 else float32))
        ctx.canary()

    return proof


def mk_rej(which, rank):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, 1, 1)
        op = getattr(m, which)(nlat, nlon, lmax=lmax, mmax=mmax)
        a, b = ctx.int("a", lo=1), ctx.int("b", lo=1)
        sh = [ctx.int(f"d{k}", lo=1) for k in range(rank - 2)] + [a, b][2 - min(rank, 2) :]
        x = SymTensor.input("x", sh, dtype=float64 if which == "RealSHT" else complex128)
        L = cut(nlat, nlon, lmax, mmax, "equiangular")
        bad = z3.BoolVal(True) if rank < 2 else z3.Or(a.e != (nlat.e if which == "RealSHT" else L), b.e != (nlon.e if which == "RealSHT" else L))
        prove_rejects(ctx, which, lambda: op.forward(x), bad)
        ctx.canary()

    return proof


def mk_unk(which):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        ctx.canary()
        for g in ("equiangular-trapezoidal", OtherName()):
            try:
                getattr(m, which)(ctx.int("nlat", lo=2), ctx.int("nlon", lo=1), grid=g)
            except (ValueError, NotImplementedError):
                ctx.prove(f"grid {g} refused", True)
                continue
            ctx.prove(f"grid {g} refused", False)

    return proof


CFG = [(g, n, c, 1, 0, 0) for g in SHTGRIDS for n in ("ortho", "schmidt", OtherName()) for c in (True, False)]
CFG += [("equiangular", "ortho", True, ld, hl, hm) for ld in (0, 2, 3) for hl, hm in ((0, 0), (1, 0), (0, 1), (1, 1))] + [(g, "ortho", True, 1, 1, 1) for g in SHTGRIDS]
PROOFS = []
for g, n, c, ld, hl, hm in CFG:
    nm = f"[{g},{n},csphase={c},lead={ld},lmax={'given' if hl else 'default'},mmax={'given' if hm else 'default'}]"
    PROOFS.append(("RealSHT" + nm, mk_fwd(g, n, c, ld, hl, hm, float64)))
    PROOFS.append(("InverseRealSHT" + nm, mk_inv(g, n, c, ld, hl, hm, complex128)))
PROOFS.append(("RealSHT[single precision]", mk_fwd("equiangular", "ortho", True, 1, 0, 0, float32)))
PROOFS.append(("InverseRealSHT[single precision]", mk_inv("equiangular", "ortho", True, 1, 0, 0, complex64)))
PROOFS += [(f"{w} input check[rank {r}]", mk_rej(w, r)) for w in ("RealSHT", "InverseRealSHT") for r in (1, 2, 3)]
PROOFS += [(f"{w} unknown grid", mk_unk(w)) for w in ("RealSHT", "InverseRealSHT")]
