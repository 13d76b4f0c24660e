"""P15: DISCO adjoint contraction."""
from .discospec import *


class PsiT(Psi):
    """psi whose columns index the output grid: lon = lonq*ps + lonr, 0 <= lonr < ps, 0 <= lonq < Wi."""

    def __init__(self, ctx, K, Hrow, Hcol, Wo, Wi, ps, nnr, nnz):
        super().__init__(ctx, K, Hrow, Hcol, Wo, nnr, nnz)
        self.ps, self.Wi = ps, Wi
        self.flq, self.flr = z3.Function("psi_lonq", INT, INT), z3.Function("psi_lonr", INT, INT)
        INPUT_FUNS.update(["psi_lonq", "psi_lonr"])

    def lq(self, z):
        q, r = self.flq(z), self.flr(z)
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(q >= 0, q < self.Wi, r >= 0, r < self.ps)))
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(q * self.ps >= 0, q * self.ps + r < self.W)))
        return q

    def lr(self, z):
        self.lq(z)
        return self.flr(z)

    def lon(self, z):
        return self.lq(z) * self.ps + self.lr(z)

    def same_row(self, z, r):
        s = self.roff(r)
        self.ctx.axiom(z3.Implies(z3.And(r >= 0, r < self.nnr, z >= s, z < self.roff(z3.simplify(r + 1))), z3.And(self.fker(z) == self.fker(s), self.frow(z) == self.frow(s))))


def bwd_kernel(scalar, PS):
    def proof(ctx):
        tu = TU(BWD, "disco_kernels")
        f = tu.get("disco_bwd_cpu_impl", [scalar, PS])
        ctx.functions.add(f"disco_cpu_bwd.h:disco_bwd_cpu_impl<{scalar},{PS}>")
        B, C, K, Hi, Wi, Ho, Wo, nnz, nnr, ps = [ctx.int(n, lo=1).e for n in ("B", "C", "K", "Hi", "Wi", "Ho", "Wo", "nnz", "nnr", "pscale")]
        if PS:
            ctx.assume(ps == PS)
            ps = z3.IntVal(PS)
        ctx.assume(Wo == ps * Wi)
        a_, b_ = ctx.fresh("a"), ctx.fresh("b")
        ctx.prove("lemma: q*ps+r stays below ps*Wi", z3.And(a_ * ps >= 0, a_ * ps + b_ < Wo), [a_ >= 0, a_ < Wi, b_ >= 0, b_ < ps])
        psi = PsiT(ctx, K, Hi, Ho, Wo, Wi, ps, nnr, nnz)
        ctx.axiom(psi.froff(0) == 0)
        ctx.axiom(psi.froff(nnr) == nnz)
        inp = real_tensor(ctx, "inp", [B, C, K, Hi, Wi])
        y = inp.content
        sB, sC, sH = [z3.Int(f"out.s{i}") for i in range(3)]
        out = Region("out", [B, C, Ho, Wi, ps], "real", lambda *i: z3.RealVal(0), False, [sB, sC, sH, ps])

        def term(b, c, z, h, q, l):
            d = q - psi.lq(z)
            return z3.If(z3.And(psi.lat(z) == h, psi.lr(z) == l), psi.val(z) * y(b, c, psi.ker(z), psi.row(z), z3.If(d < 0, d + Wi, d)), z3.RealVal(0))

        def acc(b, c, h, q, l):
            return PSum(z3.IntVal(0), lambda z: term(b, c, z, h, q, l))

        def outer(order, cur=None):
            def g(b, c, h, q, l):
                me, lt, eq = [b, c], z3.BoolVal(False), z3.And([a == d for a, d in zip([b, c], order)])
                for a, d in reversed(list(zip(me, order))):
                    lt = z3.Or(a < d, z3.And(a == d, lt))
                r = z3.If(lt, acc(b, c, h, q, l).at(nnz), z3.RealVal(0))
                return r if cur is None else z3.If(eq, cur(h, q, l), r)
            return g

        zero = lambda i, *j: z3.RealVal(0)

        def L_b(m, nm, lo, hi):
            return ClosedForm(m, mem={"out": lambda i, *j: outer([i])(*j), "sh": zero})

        def L_c(m, nm, lo, hi):
            b = m.var("b")
            return ClosedForm(m, mem={"out": lambda i, *j: outer([b, i])(*j), "sh": zero})

        class Rel:
            """out[h,x] + (what is pending in the lanes when h = ho_prev) = the sum over the entries processed so far"""
            covers = {"ho_prev"}

            def __init__(self, m, Zf, extra=None):
                self.b, self.c, self.Zf, self.extra = m.var("b"), m.var("c"), Zf, extra

            def assume(self, m, i):
                hp = ctx.fresh("ho_prev")
                ctx.assume(z3.And(hp >= -1, hp < Ho))
                m.set("ho_prev", hp)
                S = z3.Function(f"lanes!{ctx.fresh('s')}", INT, INT, REAL)
                sh = lambda l, p: z3.If(hp == -1, z3.RealVal(0), S(l, p))
                m.region("sh").content = sh
                Zi = self.Zf(i)
                cur = lambda h, q, l: acc(self.b, self.c, h, q, l).at(Zi) - z3.If(h == hp, sh(l, q) + sh(l, q + Wi), z3.RealVal(0))
                out.content = outer([self.b, self.c], cur)
                if self.extra:
                    self.extra(i)

            def check(self, m, i, tag):
                hp = m.var("ho_prev")
                sh = m.region("sh").content
                if self.extra:
                    self.extra(i)
                ctx.prove(f"{tag}: ho_prev", z3.And(hp >= -1, hp < Ho))
                l, p = ctx.fresh("l"), ctx.fresh("p")
                prove_eq(ctx, f"{tag}: lanes empty", z3.If(hp == -1, sh(l, p), z3.RealVal(0)), 0, [l >= 0, l < ps, p >= 0, p < 2 * Wi])
                b, c, h, q, l = [ctx.idx(n, d) for n, d in zip("bchql", (B, C, Ho, Wi, ps))]
                Zi = self.Zf(i)
                A = acc(self.b, self.c, h, q, l)
                A.step(ctx, Zi)
                prove_eq(ctx, f"{tag}: output plus pending", out.content(self.b, self.c, h, q, l) + z3.If(h == hp, sh(l, q) + sh(l, q + Wi), z3.RealVal(0)), A.at(Zi))
                prove_eq(ctx, f"{tag}: other planes", out.content(b, c, h, q, l), outer([self.b, self.c])(b, c, h, q, l), [z3.Not(z3.And(b == self.b, c == self.c))])

        def L_row(m, nm, lo, hi):
            return Rel(m, lambda i: psi.roff(z3.simplify(i)))

        def L_z(m, nm, lo, hi):
            r = m.var("row")
            return Rel(m, lambda i: z3.simplify(i), lambda i: (psi.same_row(i, r), psi.same_row(z3.simplify(i - 1), r)))

        def L_idx(m, nm, lo, hi):
            b, c, hp = m.var("b"), m.var("c"), m.var("ho_prev")
            o0, s0 = out.content, m.region("sh").content
            red = lambda p: z3.If(p < Wi, p, p - Wi)
            return ClosedForm(m, mem={
                "out": lambda i, b_, c_, h_, q_, l_: o0(b_, c_, h_, q_, l_) + z3.If(z3.And(b_ == b, c_ == c, h_ == hp, q_ < i), s0(l_, q_) + s0(l_, q_ + Wi), z3.RealVal(0)),
                "sh": lambda i, l_, p_: z3.If(red(p_) < i, z3.RealVal(0), s0(l_, p_))})

        def L_lane(m, nm, lo, hi):
            b, c, hp, ix = m.var("b"), m.var("c"), m.var("ho_prev"), m.var("idx")
            o0, s0 = out.content, m.region("sh").content
            red = lambda p: z3.If(p < Wi, p, p - Wi)
            return ClosedForm(m, mem={
                "out": lambda i, b_, c_, h_, q_, l_: o0(b_, c_, h_, q_, l_) + z3.If(z3.And(b_ == b, c_ == c, h_ == hp, q_ == ix, l_ < i), s0(l_, q_) + s0(l_, q_ + Wi), z3.RealVal(0)),
                "sh": lambda i, l_, p_: z3.If(z3.And(red(p_) == ix, l_ < i), z3.RealVal(0), s0(l_, p_))})

        m = Machine(ctx, tu, loops=dict(b=L_b, c=L_c, row=L_row, z=L_z, idx=L_idx, lane=L_lane), vec_dims={"sh": lambda m: ([ps, 2 * Wi], [(Wi, 2)])})
        m.regions.append(out)
        A = lambda r: Accessor(r)
        m.call(f, [B, C, K, Hi, Wi, Ho, Wo, nnz, nnr, ps, A(inp)] + [A(psi.regs[k]) for k in ("roff", "ker", "row", "col", "val")] + [A(out)])
        j = [ctx.idx(n, d) for n, d in zip("bchql", (B, C, Ho, Wi, ps))]
        prove_eq(ctx, "out[b,c,ho,x] = sum over all entries that reach (ho,x)", out.content(*j), acc(j[0], j[1], *j[2:]).at(nnz))
        ctx.canary()

    return proof


def incidence(ctx):
    """Entry z links output point wo of the forward with input longitude x exactly when the adjoint links x with wo,
    so the adjoint's sum over entries is the transpose of the forward's."""
    W, ps, big = ctx.int("Wsmall", lo=1).e, ctx.int("pscale", lo=1).e, ctx.int("Wbig", lo=1).e
    ctx.assume(big == W * ps)
    lq, lr, wo, q, l = [ctx.fresh(n) for n in ("lonq", "lonr", "wo", "q", "l")]
    for v, n in ((lq, W), (lr, ps), (wo, W), (q, W), (l, ps)):
        ctx.assume(z3.And(v >= 0, v < n))
    fw = z3.If((lq * ps + lr) + ps * wo < big, (lq * ps + lr) + ps * wo, (lq * ps + lr) + ps * wo - big)
    s = ctx.fresh("s")
    ctx.assume(s == z3.If(lq + wo < W, lq + wo, lq + wo - W))
    # shift of the small grid, one multiplication at a time
    a, b = ctx.fresh("a"), ctx.fresh("b")
    ctx.prove("multiples keep the order", z3.Implies(a < b, a * ps + ps <= b * ps))
    ctx.axiom(z3.Implies(lq + wo < W, (lq + wo) * ps + ps <= W * ps))
    ctx.axiom(z3.Implies(lq + wo >= W, (lq + wo) * ps >= W * ps))
    ctx.prove("forward longitude is s*ps + lonr", fw == s * ps + lr)
    ctx.axiom(z3.Implies(s < q, s * ps + ps <= q * ps))
    ctx.axiom(z3.Implies(q < s, q * ps + ps <= s * ps))
    ctx.prove("two mixed-radix numbers agree iff their digits do", (s * ps + lr == q * ps + l) == z3.And(s == q, lr == l))
    d = q - lq
    ctx.prove("digit equation", (s == q) == (z3.If(d < 0, d + W, d) == wo))
    ctx.canary()


PROOFS = [(f"C++ disco_bwd_cpu_impl<float,{p}>", bwd_kernel("float", p)) for p in (0, 1, 2, 3)]
PROOFS += [("adjoint incidence of forward and backward", incidence)]
PROOFS += [("C++ disco_bwd_cpu dispatcher", dispatcher(BWD, "bwd"))]
PROOFS += [(f"C++ disco_cpu_bwd operator [{d.name}]", wrapper(BWD, "bwd", d)) for d in (float32, float64, float16, bfloat16)]
