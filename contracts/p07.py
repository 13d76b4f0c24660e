"""P07: vector transforms.  With D0 = dP/dtheta, D1 = m P / sin(theta) (P04) and F_c the Fourier modes of
component c (2 pi / nlon normalised):
  s(l,m) = 1/(l(l+1)) sum_k w_k ( F_0 D0 - i F_1 D1 )       t(l,m) = 1/(l(l+1)) sum_k w_k ( -i F_0 D1 - F_1 D0 )
  v_theta = series_m sum_l ( s D0 + i t D1 )                v_phi  = series_m sum_l ( i s D1 - t D0 )
and s = t = 0 for l = 0 and for m > l."""
from .shtspec import *

I_ = CVal(z3.RealVal(0), z3.RealVal(1))


def mk_fwd(grid, norm, cs, lead, hl, hm, dt):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        ctx.functions.update(["sht.RealVectorSHT.__init__", "sht.RealVectorSHT.forward"])
        ctx.assumptions.add(CALLEES)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, hl, hm)
        L = cut(nlat, nlon, lmax, mmax, grid)
        ctx.assume(L >= 1)
        op = m.RealVectorSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        x = SymTensor.input("x", ld + [2, nlat, nlon], dtype=dt)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        if not prove_shape(ctx, "coefficients", y, ld + [2, L, L]):
            return
        li = [ctx.idx("b", d) for d in ld]
        l, mm = ctx.idx("l", L), ctx.idx("m", L)
        r, o = GID[grid], opt(norm, False, cs)
        lr = z3.ToReal(l)

        def proj(comp):
            def term(ks):
                k = ks[0]
                th = theta(r, nlat, k)
                F0, F1 = fourier(x, nlon, li + [z3.IntVal(0)], k, mm), fourier(x, nlon, li + [z3.IntVal(1)], k, mm)
                D0, D1 = DTBL(o, 0, mm, l, th), DTBL(o, 1, mm, l, th)
                if comp == 0:
                    v = v_sub(v_mul(F0, D0), v_mul(I_, v_mul(F1, D1)))
                else:
                    v = v_sub(v_neg(v_mul(I_, v_mul(F0, D1))), v_mul(F1, D0))
                return v_mul(rw(r, nlat, k), v)

            return v_mul(1 / (lr * (lr + 1)), nested_sum([nlat], term))

        for c, nm in ((0, "spheroidal"), (1, "toroidal")):
            g = y.at(*li, z3.IntVal(c), l, mm)
            ctx.prove_eq(f"{nm} projection, 1<=l, m<=l", g, proj(c), [l >= 1, mm <= l])
            ctx.prove_eq(f"{nm} zero for l=0 or m>l", g, CVal(0, 0), [z3.Or(l == 0, mm > l)])
        ctx.prove("precision kept", y.dtype is (complex128 if dt is float64 else complex64))
        ctx.canary()

    return proof


def mk_inv(grid, norm, cs, lead, hl, hm, dt):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        ctx.functions.update(["sht.InverseRealVectorSHT.__init__", "sht.InverseRealVectorSHT.forward"])
        ctx.assumptions.add(CALLEES)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, hl, hm)
        L = cut(nlat, nlon, lmax, mmax, grid)
        ctx.assume(L >= 1)
        op = m.InverseRealVectorSHT(nlat, nlon, lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        Lw = wrap(z3.simplify(L))
        c = SymTensor.input("c", ld + [2, Lw, Lw], dtype=dt)
        fr = Frame(op, c)
        y = op.forward(c)
        fr.prove(ctx)
        if not prove_shape(ctx, "field", y, ld + [2, nlat, nlon]):
            return
        li = [ctx.idx("b", d) for d in ld]
        k, j = ctx.idx("k", nlat), ctx.idx("j", nlon)
        r, o = GID[grid], opt(norm, True, cs)
        th = theta(r, nlat, k)

        def mode(comp):
            def f(mm):
                def term(ls):
                    l = ls[0]
                    s, t = c.at(*li, z3.IntVal(0), l, mm), c.at(*li, z3.IntVal(1), l, mm)
                    ok = z3.And(mm <= l, l >= 1)
                    D0, D1 = (z3.If(ok, DTBL(o, q, mm, l, th), z3.RealVal(0)) for q in (0, 1))
                    if comp == 0:
                        return v_add(v_mul(s, D0), v_mul(I_, v_mul(t, D1)))
                    return v_sub(v_mul(I_, v_mul(s, D1)), v_mul(t, D0))

                return nested_sum([Lw], term)

            return f

        for q, nm in ((0, "colatitude"), (1, "longitude")):
            ctx.prove_eq(f"{nm} component series", y.at(*li, z3.IntVal(q), k, j), synth(mode(q), Lw, nlon, j))
        ctx.prove("precision kept", y.dtype is (float64 if dt is complex128 else float32))
        ctx.canary()

    return proof


def mk_rej(which, rank):
    def proof(ctx):
        m = Loader(overrides()).load(MS)
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, 1, 1)
        op = getattr(m, which)(nlat, nlon, lmax=lmax, mmax=mmax)
        a, b, v = ctx.int("a", lo=1), ctx.int("b", lo=1), ctx.int("v", lo=1)
        fw = which == "RealVectorSHT"
        sh = [ctx.int(f"d{k}", lo=1) for k in range(rank - 3)] + [v, a, b][3 - min(rank, 3) :]
        x = SymTensor.input("x", sh, dtype=float64 if fw else complex128)
        L = cut(nlat, nlon, lmax, mmax, "equiangular")
        bad = z3.BoolVal(True) if rank < 3 else z3.Or(v.e != 2, a.e != (nlat.e if fw else L), b.e != (nlon.e if fw else L))
        prove_rejects(ctx, which, lambda: op.forward(x), bad)
        ctx.canary()

    return proof


CFG = [(g, n, c, 1, 0, 0) for g in SHTGRIDS for n in ("ortho", "schmidt", OtherName()) for c in (True, False)]
CFG += [("equiangular", "ortho", True, ld, hl, hm) for ld in (0, 2, 3) for hl, hm in ((0, 0), (1, 0), (0, 1), (1, 1))] + [(g, "ortho", True, 1, 1, 1) for g in SHTGRIDS]
PROOFS = []
for g, n, c, ld, hl, hm in CFG:
    nm = f"[{g},{n},csphase={c},lead={ld},lmax={'given' if hl else 'default'},mmax={'given' if hm else 'default'}]"
    PROOFS.append(("RealVectorSHT" + nm, mk_fwd(g, n, c, ld, hl, hm, float64)))
    PROOFS.append(("InverseRealVectorSHT" + nm, mk_inv(g, n, c, ld, hl, hm, complex128)))
PROOFS += [(f"{w} input check[rank {r}]", mk_rej(w, r)) for w in ("RealVectorSHT", "InverseRealVectorSHT") for r in (2, 3, 4)]
