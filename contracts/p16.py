"""P16: neighbourhood attention forward."""
from .attnspec import *


def fwd_kernel(ctx):
    tu = TU(FWD, NS)
    f = tu.get("s2_attn_fwd_kernel", ["float"])
    ctx.functions.add("attention_cpu_fwd.h:s2_attn_fwd_kernel<float>")
    S = Shape(ctx)
    psi, Wi, Wo, ps, Co, Ci = S.psi, S.Wi, S.Wo, S.ps, S.Co, S.Ci
    y = real_tensor(ctx, "y", [S.B, S.Ho, S.Wo, Co], const=False, content=lambda *i: z3.RealVal(0))
    y0 = y.content
    kx, vx, qy, qw = S.kx.content, S.vx.content, S.qy.content, S.qw.content
    wip = lambda z, w: wrapidx(psi.lon(z) + ps * w, Wi)

    def score(b, h, w, z):
        return dot(lambda c: qy(b, h, w, c) * kx(b, psi.lat(z), wip(z, w), c), Ci)

    def term(b, h, w, z):
        return EXP(ctx, score(b, h, w, z)) * qw(psi.lat(z))

    def G(b, h, w):
        return PSum(psi.roff(h), lambda z: term(b, h, w, z))

    def GV(b, h, w, c):
        return PSum(psi.roff(h), lambda z: term(b, h, w, z) * vx(b, psi.lat(z), wip(z, w), c))

    def spec(b, h, w, c):
        e = psi.roff(z3.simplify(h + 1))
        return GV(b, h, w, c).at(e) / G(b, h, w).at(e)

    def done(order):
        def g(b, h, w, c):
            o = list(order)
            return z3.If(lexlt([b, h, w][:len(o)], o), spec(b, h, w, c), y0(b, h, w, c))
        return g

    def L_b(m, nm, lo, hi):
        return ClosedForm(m, mem={"y": lambda i, *j: done([i])(*j)})

    def L_ho(m, nm, lo, hi):
        b = m.var("b")
        return ClosedForm(m, mem={"y": lambda i, *j: done([b, i])(*j)})

    def L_bwo(m, nm, lo, hi):
        b, h = m.var("b"), m.var("ho")
        return ClosedForm(m, mem={"y": lambda i, *j: done([b, h, z3.If(64 * i < Wo, 64 * i, Wo)])(*j)})

    class Soft:
        """softmax state: scores' running maximum M, alpha_sum = G*exp(-M), y_tmp = GV*exp(-M); cnt(j): entries seen by column j"""
        def __init__(self, m, cnt, scal=None):
            self.b, self.h, self.ws = m.var("b"), m.var("ho"), m.var("wo_start")
            self.cnt, self.scal = cnt, scal or {}
            self.covers = set(self.scal)
            self.A, self.M, self.Y = [m.region(n) for n in ("alpha_sum", "qdotk_max", "y_tmp")]
            self.y, self.yc = y, y.content
            self.tb = m.var("this_block")

        def assume(self, m, i):
            b, h, ws = self.b, self.h, self.ws
            self.M.havoc(ctx)
            Mx = self.Mx = self.M.content
            for k, g in self.scal.items():
                m.set(k, g(i))
            self.A.content = lambda j: pick(self.cnt(i, j), G(b, h, z3.simplify(ws + j))) * IEXP(ctx, Mx(j))
            self.Y.content = lambda j, c: pick(self.cnt(i, j), GV(b, h, z3.simplify(ws + j), c)) * IEXP(ctx, Mx(j))
            self.y.content = self.yc

        def check(self, m, i, tag):
            b, h, ws = self.b, self.h, self.ws
            j, c = ctx.fresh("j"), ctx.fresh("c")
            hy = [j >= 0, j < self.tb, c >= 0, c < Co]
            for k, g in self.scal.items():
                ctx.prove(f"{tag}: {k}", m.var(k) == g(i))
            cur = self.current(i) if "preserved" in tag else None
            if cur is not None:
                # the column this iteration is about
                w, z = cur
                jj = z3.simplify(w - ws)
                M = self.M.content(jj)
                t = term(b, h, w, z)
                hc = [c >= 0, c < Co]
                prove_exp_eq(ctx, f"{tag}: alpha_sum of this column", self.A.content(jj), (G(b, h, w).at(z) + t) * IEXP(ctx, M), hc)
                prove_exp_eq(ctx, f"{tag}: y_tmp of this column", self.Y.content(jj, c), (GV(b, h, w, c).at(z) + t * vx(b, psi.lat(z), wip(z, w), c)) * IEXP(ctx, M), hc)
                old, s = self.Mx(jj), score(b, h, w, z)
                fs = sums_to_consts(ctx.pc + ctx.axioms + [z3.Not(z3.And(M >= old, M >= s, z3.Or(M == old, M == s)))])
                ctx.record(f"{tag}: running maximum of the scores", "proved" if ctx._check(fs, timeout_ms=8000) == z3.unsat else "open")
                hy.append(j != jj)
            n = self.cnt(i, j)
            w = z3.simplify(ws + j)
            Mj = self.M.content(j)
            prove_eq(ctx, f"{tag}: alpha_sum", self.A.content(j), pick(n, G(b, h, w)) * IEXP(ctx, Mj), hy)
            prove_eq(ctx, f"{tag}: y_tmp", self.Y.content(j, c), pick(n, GV(b, h, w, c)) * IEXP(ctx, Mj), hy)
            J = [ctx.fresh("j") for _ in range(4)]
            prove_eq(ctx, f"{tag}: y unchanged", self.y.content(*J), self.yc(*J))

        def current(self, i):
            return None

    def pick(n, s):
        return s.at(n) if not isinstance(n, tuple) else z3.If(n[0], s.at(n[1]), s.at(n[2]))

    def L_idz(m, nm, lo, hi):
        class X(Soft):
            def check(self, m, i, tag):
                ctx.prove(f"{tag}: the row starts at its offset", lo == psi.roff(self.h))
                super().check(m, i, tag)

            def assume(self, m, i):
                super().assume(m, i)
                ctx.prove("lemma: first longitude of the block", z3.And(ps * self.ws >= 0, ps * self.ws < Wi))
                ctx.axiom(z3.And(ps * self.ws >= 0, ps * self.ws < Wi))
        return X(m, lambda i, j: i)

    def L_wo1(m, nm, lo, hi):
        z, wi, ws = m.var("idz"), psi.lon(m.var("idz")), m.var("wo_start")

        class X(Soft):
            def current(self, i):
                return z3.simplify(i - 1), z

            def check(self, m, i, tag):
                ctx.prove(f"{tag}: lemma step", z3.And(ps * i >= 0, ps * i <= Wi))
                ctx.axiom(z3.And(ps * i >= 0, ps * i <= Wi))
                super().check(m, i, tag)

            def assume(self, m, i):
                super().assume(m, i)
                ctx.axiom(z3.Implies(z3.And(i >= 0, i <= Wo), z3.And(ps * i >= 0, ps * i <= Wi)))
                ctx.axiom(z3.Implies(z3.And(i >= 0, i < Wo), ps * i + ps <= Wi))

        return X(m, lambda i, j: (j < i - ws, z3.simplify(z + 1), z), {"wip": lambda i: wrapidx(wi + ps * i, Wi)})

    def L_wo2(m, nm, lo, hi):
        b, h = m.var("b"), m.var("ho")
        A, M, Y = [m.region(n) for n in ("alpha_sum", "qdotk_max", "y_tmp")]
        keepA, keepM, keepY, y_in = A.content, M.content, Y.content, y.content

        class X(ClosedForm):
            def assume(self, m, i):
                super().assume(m, i)
                w = i
                e = psi.roff(z3.simplify(h + 1))
                ctx.axiom(z3.Implies(z3.And(w >= 0, w < Wo), G(b, h, w).at(e) > 0))

            def check(self, m, i, tag):
                J = [ctx.fresh("j") for _ in range(4)]
                hy = [z3.And(a >= 0, a < d) for a, d in zip(J, y.dims)]
                e = psi.roff(z3.simplify(h + 1))
                last = z3.simplify(i - 1)
                code = y.content(*J)
                if "preserved" in tag:
                    at = z3.And(J[0] == b, J[1] == h, J[2] == last)
                    prove_exp_eq(ctx, f"{tag}: y of this column", z3.substitute(code, (J[0], b), (J[1], h), (J[2], last)), spec(b, h, last, J[3]), [J[3] >= 0, J[3] < Co], [G(b, h, last).at(e)])
                    prove_eq(ctx, f"{tag}: y elsewhere", code, done([b, h, i])(*J), hy + [z3.Not(at)])
                else:
                    prove_eq(ctx, f"{tag}: y", code, done([b, h, i])(*J), hy)
                for k, (r, c) in self.kept.items():
                    if r.content is not c:
                        jj = [ctx.fresh("j") for _ in range(r.n)]
                        prove_eq(ctx, f"{tag}: {k}", r.content(*jj), c(*jj))

        return X(m, mem={"y": lambda i, *j: done([b, h, i])(*j)}, keep=["alpha_sum", "qdotk_max", "y_tmp"])

    # nonempty neighbourhood and positive weights make the denominator positive
    if ctx.paths == 1:
        b, h, w, z = ctx.fresh("b"), ctx.fresh("h"), ctx.fresh("w"), ctx.fresh("z")
        n = ctx.fresh("n")
        positive_sum(ctx, "softmax denominator", G(b, h, w), [qw(psi.lat(t)) > 0 for t in (n,)] if False else [z3.ForAll([z], qw(z) > 0)])
    m = Machine(ctx, tu, loops=dict(b=L_b, ho=L_ho, bwo=L_bwo, idz=L_idz, wo=lambda m, *a: (L_wo1 if "idz" in m.names else L_wo2)(m, *a)), vec_dims={"y_tmp": lambda m: ([64, Co], [Co])})
    m.regions.append(y)
    A = Accessor
    m.call(f, [A(S.kx), A(S.vx), A(S.qy), A(S.qw), A(psi.regs["col"]), A(psi.regs["roff"]), A(y), Wi, S.Ho, Wo, S.B, Ci, Co])
    j = [ctx.idx(n, d) for n, d in zip("bhwc", (S.B, S.Ho, Wo, Co))]
    prove_eq(ctx, "y = sum(w exp(q.k) v) / sum(w exp(q.k)) over the neighbourhood", y.content(*j), spec(*j))
    ctx.canary()

def fwd_upsample_kernel(ctx):
    tu = TU(FWDU, NS)
    f = tu.get("s2_attn_fwd_upsample_kernel", ["float"])
    ctx.functions.add("attention_cpu_fwd_upsample.cpp:s2_attn_fwd_upsample_kernel<float>")
    S = Shape(ctx, up=True)
    psi, Hi, Wi, Wo, ps, Co, Ci = S.psi, S.Hi, S.Wi, S.Wo, S.ps, S.Co, S.Ci
    y = real_tensor(ctx, "y", [S.B, S.Ho, S.Wo, Co], const=False, content=lambda *i: z3.RealVal(0))
    y0 = y.content
    kx, vx, qy, qw = S.kx.content, S.vx.content, S.qy.content, S.qw.content
    zero = z3.RealVal(0)

    memo = {}

    def diff(z, w):
        k = (z.get_id(), w.get_id())
        if k not in memo:
            memo[k] = (diff_(z, w), z, w)
        return memo[k][0]

    def diff_(z, w):
        d = wrapidx(w - psi.lon(z) + Wo, Wo)
        q, r = fdivmod(d, ps)
        ctx.axiom(z3.Implies(z3.And(d >= 0, d < Wo), z3.And(q >= 0, q < Wi)))  # instance of the lemma below
        return d, q, r

    if ctx.paths == 1:
        d_, q_, r_ = ctx.fresh("d"), ctx.fresh("q"), ctx.fresh("r")
        ctx.prove("lemma: quotient of a longitude offset is an input longitude", z3.And(q_ >= 0, q_ < Wi), [d_ >= 0, d_ < Wo, d_ == q_ * ps + r_, r_ >= 0, r_ < ps])

    def hits(h, w, z):
        return z3.And(psi.lat(z) == h, diff(z, w)[2] == 0)

    def score(b, h, w, hi, z):
        return dot(lambda c: qy(b, h, w, c) * kx(b, hi, diff(z, w)[1], c), Ci)

    def term(b, h, w, hi, z):
        return EXP(ctx, score(b, h, w, hi, z)) * qw(hi)

    def row(b, h, w, hi):
        return PSum(psi.roff(hi), lambda z: z3.If(hits(h, w, z), term(b, h, w, hi, z), zero))

    def rowV(b, h, w, c, hi):
        return PSum(psi.roff(hi), lambda z: z3.If(hits(h, w, z), term(b, h, w, hi, z) * vx(b, hi, diff(z, w)[1], c), zero))

    end = lambda hi: psi.roff(z3.simplify(hi + 1))

    def G(b, h, w):
        return PSum(z3.IntVal(0), lambda hi: row(b, h, w, hi).at(end(hi)))

    def GV(b, h, w, c):
        return PSum(z3.IntVal(0), lambda hi: rowV(b, h, w, c, hi).at(end(hi)))

    def spec(b, h, w, c):
        return GV(b, h, w, c).at(Hi) / G(b, h, w).at(Hi)

    def done(order):
        return lambda b, h, w, c: z3.If(lexlt([b, h, w][:len(order)], list(order)), spec(b, h, w, c), y0(b, h, w, c))

    def L_b(m, nm, lo, hi):
        return ClosedForm(m, mem={"y": lambda i, *j: done([i])(*j)})

    def L_ho(m, nm, lo, hi):
        b = m.var("b")
        return ClosedForm(m, mem={"y": lambda i, *j: done([b, i])(*j)})

    def L_bwo(m, nm, lo, hi):
        b, h = m.var("b"), m.var("ho")
        return ClosedForm(m, mem={"y": lambda i, *j: done([b, h, z3.If(64 * i < Wo, 64 * i, Wo)])(*j)})

    class Kept:
        """everything but the running maximum stays"""
        covers = set()

        def __init__(self, m, step=False):
            self.M = m.region("qdotk_max")
            self.kept = [(r, r.content) for r in (m.region("alpha_sum"), m.region("y_tmp"), y)]
            self.step = step

        def assume(self, m, i):
            self.M.havoc(ctx)
            self.Mx = self.M.content
            for r, c in self.kept:
                r.content = c

        def check(self, m, i, tag):
            for r, c in self.kept:
                if r.content is not c:
                    J = [ctx.fresh("j") for _ in range(r.n)]
                    prove_eq(ctx, f"{tag}: {r.name} unchanged", r.content(*J), c(*J))
            if self.step and "preserved" in tag:
                b, h, hi, z, ws = [m.var(n) for n in ("b", "ho", "hi", "idz", "wo_start")]
                w = z3.simplify(i - 1)
                jj = z3.simplify(w - ws)
                new, old, s = self.M.content(jj), self.Mx(jj), score(b, h, w, hi, z)
                fs = sums_to_consts(ctx.pc + ctx.axioms + [z3.Not(z3.If(hits(h, w, z), z3.And(new >= old, new >= s, z3.Or(new == old, new == s)), new == old))])
                ctx.record(f"{tag}: running maximum of the scores", "proved" if ctx._check(fs, timeout_ms=8000) == z3.unsat else "open")
                j = ctx.fresh("j")
                prove_eq(ctx, f"{tag}: other columns", self.M.content(j), self.Mx(j), [j != jj])

    class Acc:
        """alpha_sum = seen*exp(-M), y_tmp = seen*exp(-M) with M fixed"""
        covers = set()

        def __init__(self, m, seen, cur=None):
            self.b, self.h, self.ws, self.tb = m.var("b"), m.var("ho"), m.var("wo_start"), m.var("this_block")
            self.A, self.M, self.Y = [m.region(n) for n in ("alpha_sum", "qdotk_max", "y_tmp")]
            self.Mx, self.yc, self.seen, self.cur = self.M.content, y.content, seen, cur

        def val(self, i, j, c=None):
            return self.seen(i, j, z3.simplify(self.ws + j), c) * IEXP(ctx, self.Mx(j))

        def assume(self, m, i):
            self.A.content = lambda j: self.val(i, j)
            self.Y.content = lambda j, c: self.val(i, j, c)
            self.M.content = self.Mx
            y.content = self.yc

        def check(self, m, i, tag):
            j, c = ctx.fresh("j"), ctx.fresh("c")
            hc = [c >= 0, c < Co]
            hy = [j >= 0, j < self.tb] + hc
            if self.cur and "preserved" in tag:
                w, z, hi = self.cur(i)
                jj = z3.simplify(w - self.ws)
                b, h = self.b, self.h
                t = z3.If(hits(h, w, z), term(b, h, w, hi, z), zero)
                tv = z3.If(hits(h, w, z), term(b, h, w, hi, z) * vx(b, hi, diff(z, w)[1], c), zero)
                I = IEXP(ctx, self.Mx(jj))
                prove_eq(ctx, f"{tag}: alpha_sum of this column", self.A.content(jj), (G(b, h, w).at(hi) + row(b, h, w, hi).at(z) + t) * I)
                prove_eq(ctx, f"{tag}: y_tmp of this column", self.Y.content(jj, c), (GV(b, h, w, c).at(hi) + rowV(b, h, w, c, hi).at(z) + tv) * I, hc)
                hy.append(j != jj)
            prove_eq(ctx, f"{tag}: alpha_sum", self.A.content(j), self.val(i, j), hy)
            prove_eq(ctx, f"{tag}: y_tmp", self.Y.content(j, c), self.val(i, j, c), hy)
            for r, cc in ((self.M, self.Mx), (y, self.yc)):
                if r.content is not cc:
                    J = [ctx.fresh("j") for _ in range(r.n)]
                    prove_eq(ctx, f"{tag}: {r.name} unchanged", r.content(*J), cc(*J))

    gg = lambda b, h, w, c: G(b, h, w) if c is None else GV(b, h, w, c)
    rr = lambda b, h, w, c, hi: row(b, h, w, hi) if c is None else rowV(b, h, w, c, hi)

    def hi1(m, nm, lo, hi):
        return Kept(m)

    def hi2(m, nm, lo, hi):
        b, h = m.var("b"), m.var("ho")

        class X(Acc):
            def check(self, m, i, tag):
                if "preserved" in tag:
                    # the sum over rows grows by the finished row
                    p = z3.simplify(i - 1)
                    j, c = ctx.fresh("j"), ctx.fresh("c")
                    w = z3.simplify(self.ws + j)
                    hy = [j >= 0, j < self.tb, c >= 0, c < Co]
                    I = IEXP(ctx, self.Mx(j))
                    prove_eq(ctx, f"{tag}: alpha_sum", self.A.content(j), (G(b, h, w).at(p) + row(b, h, w, p).at(end(p))) * I, hy)
                    prove_eq(ctx, f"{tag}: y_tmp", self.Y.content(j, c), (GV(b, h, w, c).at(p) + rowV(b, h, w, c, p).at(end(p))) * I, hy)
                    return
                super().check(m, i, tag)

        return X(m, lambda i, j, w, c: gg(b, h, w, c).at(i))

    def idz(m, nm, lo, hi):
        if "qw_hi" not in m.names:
            return Kept(m)
        b, h, r = m.var("b"), m.var("ho"), m.var("hi")

        class X(Acc):
            def check(self, m, i, tag):
                ctx.prove(f"{tag}: the row starts at its offset", lo == psi.roff(r))
                if "preserved" not in tag:
                    return super().check(m, i, tag)
                # the sum over the row grows by this entry
                z = z3.simplify(i - 1)
                j, c = ctx.fresh("j"), ctx.fresh("c")
                w = z3.simplify(self.ws + j)
                hy = [j >= 0, j < self.tb, c >= 0, c < Co]
                I = IEXP(ctx, self.Mx(j))
                for nm, code, cc in (("alpha_sum", self.A.content(j), None), ("y_tmp", self.Y.content(j, c), c)):
                    t = z3.If(hits(h, w, z), term(b, h, w, r, z) * (1 if cc is None else vx(b, r, diff(z, w)[1], c)), zero)
                    prove_eq(ctx, f"{tag}: {nm}", code, (gg(b, h, w, cc).at(r) + rr(b, h, w, cc, r).at(z) + t) * I, hy)
                for g, cc in ((self.M, self.Mx), (y, self.yc)):
                    if g.content is not cc:
                        J = [ctx.fresh("j") for _ in range(g.n)]
                        prove_eq(ctx, f"{tag}: {g.name} unchanged", g.content(*J), cc(*J))

        return X(m, lambda i, j, w, c: gg(b, h, w, c).at(r) + rr(b, h, w, c, r).at(i))

    def wo(m, nm, lo, hi):
        if "idz" not in m.names:
            return fin(m)
        if "qw_hi" not in m.names:
            return Kept(m, step=True)
        b, h, r, z, ws = [m.var(n) for n in ("b", "ho", "hi", "idz", "wo_start")]

        def seen(i, j, w, c):
            s = rr(b, h, w, c, r)
            t = z3.If(hits(h, w, z), term(b, h, w, r, z) * (1 if c is None else vx(b, r, diff(z, w)[1], c)), zero)
            return gg(b, h, w, c).at(r) + s.at(z) + z3.If(j < i - ws, t, zero)
        return Acc(m, seen, lambda i: (z3.simplify(i - 1), z, r))

    def fin(m):
        b, h = m.var("b"), m.var("ho")

        class X(ClosedForm):
            def assume(self, m, i):
                super().assume(m, i)
                ctx.axiom(z3.Implies(z3.And(i >= 0, i < Wo), G(b, h, i).at(Hi) > 0))

            def check(self, m, i, tag):
                J = [ctx.fresh("j") for _ in range(4)]
                hy = [z3.And(a >= 0, a < d) for a, d in zip(J, y.dims)]
                last = z3.simplify(i - 1)
                code = y.content(*J)
                if "preserved" in tag:
                    prove_exp_eq(ctx, f"{tag}: y of this column", z3.substitute(code, (J[0], b), (J[1], h), (J[2], last)), spec(b, h, last, J[3]), [J[3] >= 0, J[3] < Co], [G(b, h, last).at(Hi)])
                    hy.append(z3.Not(z3.And(J[0] == b, J[1] == h, J[2] == last)))
                prove_eq(ctx, f"{tag}: y", code, done([b, h, i])(*J), hy)
                for k, (r, c) in self.kept.items():
                    if r.content is not c:
                        jj = [ctx.fresh("j") for _ in range(r.n)]
                        prove_eq(ctx, f"{tag}: {k}", r.content(*jj), c(*jj))

        return X(m, mem={"y": lambda i, *j: done([b, h, i])(*j)}, keep=["alpha_sum", "qdotk_max", "y_tmp"])

    m = Machine(ctx, tu, loops=dict(b=L_b, ho=L_ho, bwo=L_bwo, hi=[hi1, hi2], idz=idz, wo=wo), vec_dims={"y_tmp": lambda m: ([64, Co], [Co])})
    m.regions.append(y)
    A = Accessor
    m.call(f, [A(S.kx), A(S.vx), A(S.qy), A(S.qw), A(psi.regs["col"]), A(psi.regs["roff"]), A(y), Wi, Hi, S.Ho, Wo, S.B, Ci, Co])
    j = [ctx.idx(n, d) for n, d in zip("bhwc", (S.B, S.Ho, Wo, Co))]
    prove_eq(ctx, "y = sum(w exp(q.k) v) / sum(w exp(q.k)) over the neighbourhood", y.content(*j), spec(*j))
    ctx.canary()


PROOFS = [("C++ s2_attn_fwd_kernel<float>", fwd_kernel)]
PROOFS += [(f"C++ s2_attention_fwd_cpu [{d.name}, {'up' if u else 'down'}]", fwd_wrapper(d, u)) for d in (float32, float16) for u in (False, True)]
PROOFS += [("C++ s2_attn_fwd_upsample_kernel<float>", fwd_upsample_kernel)]
PROOFS += FORWARD_OPS
