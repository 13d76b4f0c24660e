"""P14: DISCO forward contraction."""
from .discospec import *


def fwd_kernel(scalar, PS):
    def proof(ctx):
        tu = TU(FWD, "disco_kernels")
        f = tu.get("disco_fwd_cpu_impl", [scalar, PS])
        ctx.functions.add(f"disco_cpu_fwd.h:disco_fwd_cpu_impl<{scalar},{PS}>")
        B, C, K, Hi, Wi, Ho, Wo, nnz, nnr, ps = [ctx.int(n, lo=1).e for n in ("B", "C", "K", "Hi", "Wi", "Ho", "Wo", "nnz", "nnr", "pscale")]
        ctx.assume(Wi == ps * Wo)
        if PS:
            ctx.assume(ps == PS)
        psi = Psi(ctx, K, Ho, Hi, Wi, nnr, nnz)
        inp = real_tensor(ctx, "inp", [B, C, Hi, Wi])
        out = real_tensor(ctx, "out", [B, C, K, Ho, Wo], const=False, content=lambda *i: z3.RealVal(0))
        x = inp.content

        def term(b, c, z, w):
            return psi.val(z) * x(b, c, psi.lat(z), wrapidx(psi.lon(z) + ps * w, Wi))

        def acc(b, c, r, w):
            return PSum(psi.roff(r), lambda z: term(b, c, z, w))

        def spec(b, c, r, w):
            return acc(b, c, r, w).at(psi.roff(z3.simplify(r + 1)))

        def done(order):
            """closed form of the output once the iterations before `order` are done"""
            def g(b, c, k, h, w):
                o = psi.own(k, h)
                ctx.axiom(ps * w <= ps * (Wo - 1)) if False else None
                me = [b, c, o]
                lt = z3.BoolVal(False)
                for a, d in reversed(list(zip(me, order))):
                    lt = z3.Or(a < d, z3.And(a == d, lt))
                return z3.If(z3.And(o >= 0, lt), spec(b, c, o, w), z3.RealVal(0))
            return g

        def L_b(m, nm, lo, hi):
            return ClosedForm(m, mem={"out": lambda i, *j: done([i])(*j)})

        def L_c(m, nm, lo, hi):
            b = m.var("b")
            return ClosedForm(m, mem={"out": lambda i, *j: done([b, i])(*j)})

        def L_row(m, nm, lo, hi):
            b, c = m.var("b"), m.var("c")
            return ClosedForm(m, mem={"out": lambda i, *j: done([b, c, i])(*j)}, facts=None, lemmas=lambda m, i: psi.owned(z3.simplify(i - 1)))

        def L_z(m, nm, lo, hi):
            b, c, r = m.var("b"), m.var("c"), m.var("row")
            soff = psi.roff(r)
            sh0 = m.region("sh").content

            def sh(i, j):
                return z3.If(i == soff, sh0(j), x(b, c, psi.lat(z3.simplify(i - 1)), wrapidx(j, Wi)))

            def tmp(i, w):
                return acc(b, c, r, w).at(i)

            def lem(m, i):
                pass

            class CF(ClosedForm):
                def check(self, m, i, tag):
                    ctx.prove(f"{tag}: start", lo == soff)
                    for k, f in self.scalars.items():
                        prove_eq(ctx, f"{tag}: {k}", self.cells[k].v, f(i))
                    j = ctx.fresh("j")
                    prove_eq(ctx, f"{tag}: sh", self.regs["sh"].content(j), sh(i, j), [j >= 0, j < 2 * Wi])
                    w = ctx.idx("w", Wo)
                    acc(b, c, r, w).step(ctx, i)
                    ctx.prove(f"{tag}: lemma", z3.And(ps * w >= 0, ps * w < Wi))
                    ctx.assume(z3.And(ps * w >= 0, ps * w < Wi))
                    prove_eq(ctx, f"{tag}: out_tmp", self.regs["out_tmp"].content(w), tmp(i, w))
                    r_, f_ = self.kept["out"]
                    J = [ctx.fresh("j") for _ in range(5)]
                    prove_eq(ctx, f"{tag}: out", r_.content(*J), f_(*J))

            return CF(m, scalars={"hi_prev": lambda i: z3.If(i == soff, z3.IntVal(-1), psi.lat(z3.simplify(i - 1)))},
                      mem={"sh": sh, "out_tmp": tmp}, keep=["out"])

        m = Machine(ctx, tu, loops=dict(b=L_b, c=L_c, row=L_row, z=L_z))
        m.regions.append(out)
        A = lambda r: Accessor(r)
        m.call(f, [B, C, K, Hi, Wi, Ho, Wo, nnz, nnr, ps, A(inp)] + [A(psi.regs[k]) for k in ("roff", "ker", "row", "col", "val")] + [A(out)])
        j = [ctx.idx(n, d) for n, d in zip("bckhw", (B, C, K, Ho, Wo))]
        o = psi.own(j[2], j[3])
        prove_eq(ctx, "out[b,c,k,ho,wo] = sum over the entries of (k,ho)", out.content(*j), z3.If(o >= 0, spec(j[0], j[1], o, j[4]), z3.RealVal(0)))
        ctx.canary()

    return proof


PROOFS = [(f"C++ disco_fwd_cpu_impl<float,{p}>", fwd_kernel("float", p)) for p in (0, 1, 2, 3)]
PROOFS += [("C++ disco_fwd_cpu dispatcher", dispatcher(FWD, "fwd"))]
PROOFS += [(f"C++ disco_cpu_fwd operator [{d.name}]", wrapper(FWD, "fwd", d)) for d in (float32, float64, float16, bfloat16)]
