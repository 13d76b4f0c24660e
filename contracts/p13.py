"""P13: psi preprocessing (counting sort by filter, row offsets, dense packing)."""
from .discospec import *


class Count:
    """cnt(k,i) = number of j < i with ker(j) = k;  start(k,i) = sum of cnt(k',i) over k' < k.  Both are defined by
    primitive recursion; the lemmas below are proved by induction and then used instance by instance."""

    def __init__(self, ctx, ker, K, nnz):
        self.ctx, self.ker, self.K, self.nnz = ctx, ker, K, nnz
        self.cf, self.sf = z3.Function("cnt", INT, INT, INT), z3.Function("start", INT, INT, INT)

    def cnt(self, k, i):
        c = self.cf
        k, i = z3.simplify(to_int(k)), z3.simplify(to_int(i))
        p = z3.simplify(i - 1)
        self.ctx.axiom(c(k, z3.IntVal(0)) == 0)
        self.ctx.axiom(z3.Implies(i >= 1, c(k, i) == c(k, p) + z3.If(self.ker(p) == k, 1, 0)))
        self.ctx.axiom(z3.Implies(i >= 0, c(k, z3.simplify(i + 1)) == c(k, i) + z3.If(self.ker(i) == k, 1, 0)))
        return c(k, i)

    def start(self, k, i):
        s = self.sf
        k, i = z3.simplify(to_int(k)), z3.simplify(to_int(i))
        p = z3.simplify(k - 1)
        self.ctx.axiom(s(z3.IntVal(0), i) == 0)
        self.ctx.axiom(z3.Implies(k >= 1, s(k, i) == s(p, i) + self.cnt(p, i)))
        return s(k, i)

    def lemmas(self):
        ctx = self.ctx
        k, i = ctx.fresh("k"), ctx.fresh("i")
        induct(ctx, "lemma: 0 <= cnt(k,i)", lambda n: self.cnt(k, n) >= 0)
        induct(ctx, "lemma: cnt(k,.) is monotone", lambda d: self.cnt(k, i) <= self.cnt(k, i + d), 0, [i >= 0])
        n = ctx.fresh("n")
        ctx.prove("lemma: start(.,i) is monotone: step", self.start(k, i) <= self.start(k + n + 1, i), [n >= 0, k >= 0, i >= 0, self.start(k, i) <= self.start(k + n, i), self.cnt(k + n, i) >= 0])
        induct(ctx, "lemma: start(k,i+1) = start(k,i) + [ker(i) < k]", lambda n: self.start(n, i + 1) == self.start(n, i) + z3.If(self.ker(i) < n, 1, 0), 0, [i >= 0, self.ker(i) >= 0])
        Kf = self.K
        r = lambda n: z3.And(self.ker(n) >= 0, self.ker(n) < Kf)
        # start(K, n) = n
        n = ctx.fresh("n")
        ctx.prove("lemma: start(K,n) = n: base", self.start0(Kf) == 0)
        ctx.prove("lemma: start(K,n) = n: step", self.start(Kf, n + 1) == n + 1, [n >= 0, r(n), self.start(Kf, n) == n, self.start(Kf, n + 1) == self.start(Kf, n) + z3.If(self.ker(n) < Kf, 1, 0)])

    def start0(self, K):
        """start(K,0): all counts are 0"""
        s = self.sf
        k = self.ctx.fresh("k")
        self.ctx.prove("lemma: start(k,0) = 0", z3.And(s(z3.IntVal(0), z3.IntVal(0)) == 0, z3.Implies(z3.And(k >= 0, s(k, z3.IntVal(0)) == 0), self.start(k + 1, 0) == 0)), [s(z3.IntVal(0), z3.IntVal(0)) == 0])
        self.ctx.axiom(s(K, z3.IntVal(0)) == 0)
        return s(K, z3.IntVal(0))

    # instances
    def nonneg(self, k, i):
        self.ctx.axiom(z3.Implies(i >= 0, self.cnt(k, i) >= 0))

    def mono(self, k, i, j):
        self.ctx.axiom(z3.Implies(z3.And(i >= 0, i <= j), self.cnt(k, i) <= self.cnt(k, j)))

    def smono(self, k, l):
        self.ctx.axiom(z3.Implies(z3.And(k >= 0, k <= l), self.start(k, self.nnz) <= self.start(l, self.nnz)))

    def total(self):
        self.ctx.axiom(self.start(self.K, self.nnz) == self.nnz)


def sort_kernel(scalar, with_entries):
    def proof(ctx):
        tu = TU(HELP, "psi")
        f = tu.get("preprocess_psi_kernel", [scalar])
        ctx.functions.add(f"disco_helpers.h:preprocess_psi_kernel<{scalar}>")
        ctx.assumptions.add("an injective map of a finite interval into itself is onto (pigeonhole), giving the inverse of the destination map")
        K, Ho, ncol = [ctx.int(n, lo=1).e for n in ("K", "Ho", "ncol")]
        nnz = ctx.int("nnz", lo=0).e
        ctx.assume(nnz >= 1 if with_entries else nnz == 0)
        F = lambda n, s=INT: z3.Function("in_" + n, INT, s)
        k0, r0, c0, v0 = F("ker"), F("row"), F("col"), F("val", REAL)
        for n in ("ker", "row", "col", "val"):
            INPUT_FUNS.add("in_" + n)

        def ker(z):
            ctx.axiom(z3.Implies(z3.And(z >= 0, z < nnz), z3.And(k0(z) >= 0, k0(z) < K)))
            return k0(z)

        ct = Count(ctx, ker, K, nnz)
        first = ctx.paths == 1
        if first:
            ct.lemmas()
        ct.total()
        PS = lambda k: ct.start(k, nnz)
        dest = lambda j: PS(ker(j)) + ct.cnt(ker(j), j)
        srcf = z3.Function("src", INT, INT)

        def dest_facts(j):
            k = ker(j)
            ct.nonneg(k, j)
            ct.mono(k, j + 1, nnz)
            ct.smono(z3.IntVal(0), k)
            ct.smono(k + 1, K)
            PS(k + 1)
            PS(z3.IntVal(0))
            ct.cnt(k, j + 1)

        # the destination map is injective into [0, nnz)
        j, l = z3.Int("lemma_j"), z3.Int("lemma_l")
        for x in (j, l) if first else ():
            dest_facts(x)
        if first:
            ct.mono(ker(j), j + 1, l)
            ct.mono(ker(l), l + 1, j)
            ct.smono(ker(j) + 1, ker(l))
            ct.smono(ker(l) + 1, ker(j))
            hj = [j >= 0, j < nnz]
            hl = [l >= 0, l < nnz]
            ctx.prove("lemma: destination in range", z3.And(dest(j) >= 0, dest(j) < nnz), hj)
            ctx.prove("lemma: destinations are distinct", z3.Implies(j != l, dest(j) != dest(l)), hj + hl)
            ctx.prove("lemma: destinations are ordered by filter, then by position", z3.Implies(dest(j) < dest(l), z3.Or(ker(j) < ker(l), z3.And(ker(j) == ker(l), j < l))), hj + hl)

        def src(p):
            s = srcf(p)
            d = dest(s)
            ctx.axiom(z3.Implies(z3.And(p >= 0, p < nnz), z3.And(s >= 0, s < nnz, d == p)))
            return s

        def src_of(j):
            d = dest(j)
            ctx.axiom(z3.Implies(z3.And(j >= 0, j < nnz), z3.And(srcf(d) == j, d >= 0, d < nnz)))
            return d

        R = dict(ker_h=Region("ker_h", [nnz], "int", ker), row_h=Region("row_h", [nnz], "int", lambda z: r0(z)), col_h=Region("col_h", [nnz], "int", lambda z: c0(z)),
                 val_h=Region("val_h", [nnz], "real", lambda z: v0(z)), roff_h=Region("roff_h", [Ho * K + 1], "int"))

        def hist(m, nm, lo, hi):
            return ClosedForm(m, mem={"Koff": lambda i, k: ct.cnt(k, i)}, keep=["ker_h", "row_h", "col_h", "val_h", "roff_h"])

        def prefix(m, nm, lo, hi):
            return ClosedForm(m, scalars={"prev": lambda i: ct.cnt(z3.simplify(i - 1), nnz)}, mem={"Koff": lambda i, k: z3.If(k < i, PS(k), ct.cnt(k, nnz))},
                              keep=["ker_h", "row_h", "col_h", "val_h", "roff_h"])

        def scatter(m, nm, lo, hi):
            old = {n: m.region(n).content for n in ("ker_sort", "row_sort", "col_sort", "val_sort")}
            pick = lambda n, g: (lambda i, p: z3.If(src(p) < i, g(src(p)), old[n](p)))

            class S(ClosedForm):
                def assume(self, m, i):
                    super().assume(m, i)
                    dest_facts(i)
                    src_of(i)

                def check(self, m, i, tag):
                    p = z3.simplify(i - 1)
                    dest_facts(p)
                    src_of(p)
                    super().check(m, i, tag)
            return S(m, mem={"Koff": lambda i, k: PS(k) + ct.cnt(k, i), "ker_sort": pick("ker_sort", ker), "row_sort": pick("row_sort", lambda z: r0(z)), "col_sort": pick("col_sort", lambda z: c0(z)), "val_sort": pick("val_sort", lambda z: v0(z))},
                     keep=["ker_h", "row_h", "col_h", "val_h", "roff_h"])

        KS, RS = (lambda p: ker(src(p))), (lambda p: r0(src(p)))
        NBf, BPf = z3.Function("nb", INT, INT), z3.Function("bpos", INT, INT)
        isb = lambda i: z3.Not(z3.And(KS(z3.simplify(i - 1)) == KS(i), RS(z3.simplify(i - 1)) == RS(i)))

        def NB(i):
            i = z3.simplify(i)
            p = z3.simplify(i - 1)
            ctx.axiom(NBf(1) == z3.If(nnz > 0, 1, 0))
            ctx.axiom(z3.Implies(i >= 2, NBf(i) == NBf(p) + z3.If(isb(p), 1, 0)))
            return NBf(i)

        def BP(n):
            return BPf(n)

        def bdef(j):
            ctx.axiom(z3.Implies(z3.And(j >= 1, j < nnz, isb(j)), BPf(NB(j)) == j))

        def rows(m, nm, lo, hi):
            a = ctx.fresh("a")
            induct(ctx, "lemma: the row count is monotone", lambda d: NB(a) <= NB(a + d), 0, [a >= 1])
            induct(ctx, "lemma: the row count is positive", lambda n: NB(n) >= 1, 1, [nnz > 0])
            old = R["roff_h"].content

            class S(ClosedForm):
                def assume(self, m, i):
                    ctx.axiom(z3.Implies(z3.And(nnz > 0, i >= 1), NB(i) >= 1))
                    super().assume(m, i)
                    bdef(i)

                def check(self, m, i, tag):
                    p = z3.simplify(i - 1)
                    for t in (p, i):
                        ctx.axiom(z3.Implies(z3.And(nnz > 0, t >= 1), NB(t) >= 1))
                    bdef(p)
                    super().check(m, i, tag)
            ctx.prove_eq("filters after the sort", R["ker_h"].content(a), KS(a), [a >= 0, a < nnz])
            return S(m, scalars={"nrows": lambda i: NB(i)}, mem={"roff_h": lambda i, n: z3.If(n == 0, z3.IntVal(0), z3.If(z3.And(n >= 1, n < NB(i)), BP(n), old(n)))},
                     keep=["ker_h", "row_h", "col_h", "val_h"], facts=lambda m, i: [NB(i) <= Ho * K])

        m = Machine(ctx, tu, loops={"i": [None, hist, prefix, scatter, None, rows]})
        m.regions += list(R.values())
        nrows = Cell(ctx.fresh("nrows0"), "long &")
        P = lambda n: Ptr(R[n])
        m.call(f, [nnz, K, Ho, P("ker_h"), P("row_h"), P("col_h"), P("roff_h"), P("val_h"), nrows])
        if not with_entries:
            ctx.prove("no rows", to_int(nrows.v) == 0)
            ctx.prove("offsets of the empty tensor", R["roff_h"].content(z3.IntVal(0)) == 0)
            ctx.canary()
            return
        # ---- postcondition
        p, q = ctx.idx("p", nnz), ctx.idx("q", nnz)
        for n, g in (("ker_h", ker), ("row_h", lambda z: r0(z)), ("col_h", lambda z: c0(z)), ("val_h", lambda z: v0(z))):
            ctx.prove_eq(f"{n}[p] is the entry src(p)", R[n].content(p), g(src(p)))
        ctx.prove("src is a permutation", z3.And(src(p) >= 0, src(p) < nnz, z3.Implies(src(p) == src(q), p == q)))
        for x in (src(p), src(q)):
            dest_facts(x)
        ct.mono(ker(src(p)), src(p) + 1, src(q))
        ct.mono(ker(src(q)), src(q) + 1, src(p))
        ct.smono(KS(p) + 1, KS(q))
        ct.smono(KS(q) + 1, KS(p))
        order = z3.Implies(p < q, z3.Or(KS(p) < KS(q), z3.And(KS(p) == KS(q), src(p) < src(q))))
        ctx.prove("sorted by filter, stable", order)
        roff = R["roff_h"].content
        nr = to_int(nrows.v)
        ctx.axiom(NB(nnz) >= 1)
        ctx.prove("first offset", roff(z3.IntVal(0)) == 0)
        ctx.prove("number of rows", z3.And(nr == NB(nnz), nr >= 1, nr <= Ho * K))
        ctx.prove("last offset", roff(nr) == nnz)
        # every position lies in the row rid(p) = NB(p+1)-1 and shares its (filter, row)
        rid = lambda t: NB(t + 1) - 1
        start = lambda t: z3.If(rid(t) == 0, z3.IntVal(0), BP(rid(t)))
        n = ctx.fresh("n")
        bdef(n + 1)
        for t in (n, n + 1, n + 2):
            ctx.axiom(z3.Implies(z3.And(nnz > 0, t >= 1), NB(t) >= 1))
        inv = lambda t: z3.And(start(t) >= 0, start(t) <= t, KS(start(t)) == KS(t), RS(start(t)) == RS(t))
        ctx.prove("rows hold one (filter, row) pair: base", inv(z3.IntVal(0)))
        ctx.prove("rows hold one (filter, row) pair: step", inv(n + 1), [n >= 0, n + 1 < nnz, inv(n)])
        a = ctx.fresh("a")
        # the next row starts after p
        b = ctx.fresh("b")
        bdef(b)
        ctx.axiom(z3.Implies(z3.And(b >= 1, b + 1 <= p + 1), NB(b + 1) <= NB(p + 1)))
        ctx.prove("a row that starts at or before p is not later than the row of p", z3.Implies(z3.And(b <= p, isb(b)), NB(b) <= rid(p)), [b >= 1, b < nnz])
        ctx.prove("the offset of the row that begins at b is b", z3.Implies(isb(b), roff(NB(b)) == b), [b >= 1, b < nnz, NB(b + 1) <= NB(nnz), NB(b) >= 1])
        # rows of the input listed by increasing output row: different rows are different pairs
        srt = lambda x, y: z3.Implies(z3.And(x >= 0, x <= y, y < nnz, ker(x) == ker(y)), r0(x) <= r0(y))
        key_le = lambda x, y: z3.Or(KS(x) < KS(y), z3.And(KS(x) == KS(y), RS(x) <= RS(y)))
        ctx.prove("entries are sorted by filter and row", z3.Implies(p < q, key_le(p, q)), [srt(src(p), src(q)), order])
        h = [b >= 1, b < nnz, p < b, q >= b, isb(b), key_le(p, z3.simplify(b - 1)), key_le(z3.simplify(b - 1), b), key_le(b, q)]
        ctx.prove("entries of different rows belong to different (filter, row) pairs", z3.Not(z3.And(KS(p) == KS(q), RS(p) == RS(q))), h)
        ctx.canary()

    return proof


def pack_kernel(scalar):
    def proof(ctx):
        tu = TU(HELP, "psi")
        f = tu.get("pack_psi_dense_kernel", [scalar])
        ctx.functions.add(f"disco_helpers.h:pack_psi_dense_kernel<{scalar}>")
        K, Ho, Hi, Wi, nb, nnz, nr = [ctx.int(n, lo=1).e for n in ("K", "Ho", "Hi", "Wi", "nbr_pad", "nnz", "nrows")]
        psi = Psi(ctx, K, Ho, Hi, Wi, nr, nnz)
        two = z3.IntVal(2)
        R = dict(
            idx=Region("idx_out", [K, Ho, nb, 2], "int", lambda *i: z3.IntVal(0), False, [([Ho, nb], 2), (nb, 2), two]),
            val=Region("val_out", [K, Ho, nb], "real", lambda *i: z3.RealVal(0), False, [[Ho, nb], nb]),
            cnt=Region("count_out", [K, Ho], "int", lambda *i: z3.IntVal(0), False, [Ho]),
        )

        def sel(k, h, r):
            o = psi.own(k, h)
            s = psi.roff(o)
            return z3.And(o >= 0, o < r), s, psi.roff(z3.simplify(o + 1)) - s

        def fi(r, k, h, o, t):
            c, s, n = sel(k, h, r)
            return z3.If(z3.And(c, o < n), z3.If(t == 0, psi.lat(s + o), psi.lon(s + o)), z3.IntVal(0))

        def fv(r, k, h, o):
            c, s, n = sel(k, h, r)
            return z3.If(z3.And(c, o < n), psi.val(s + o), z3.RealVal(0))

        def fc(r, k, h):
            c, s, n = sel(k, h, r)
            return z3.If(c, n, z3.IntVal(0))

        def L_i(m, nm, lo, hi):
            return ClosedForm(m, mem={"idx_out_h": fi, "val_out_h": fv, "count_out_h": fc}, lemmas=lambda m, i: psi.owned(z3.simplify(i - 1)))

        def L_off(m, nm, lo, hi):
            i = m.var("i")
            s = psi.roff(i)
            k, h = psi.ker(s), psi.row(s)
            here = lambda k_, h_: z3.And(k_ == k, h_ == h)
            o0 = {n: m.region(n).content for n in ("idx_out_h", "val_out_h")}
            return ClosedForm(m, mem={
                "idx_out_h": lambda j, k_, h_, o, t: z3.If(z3.And(here(k_, h_), o < j), z3.If(t == 0, psi.lat(s + o), psi.lon(s + o)), o0["idx_out_h"](k_, h_, o, t)),
                "val_out_h": lambda j, k_, h_, o: z3.If(z3.And(here(k_, h_), o < j), psi.val(s + o), o0["val_out_h"](k_, h_, o))}, keep=["count_out_h"])

        m = Machine(ctx, tu, loops={"i": L_i, "off": L_off})
        m.regions += list(R.values())
        g = psi.regs
        m.call(f, [K, Ho, Wi, nb, nr, Ptr(g["ker"]), Ptr(g["row"]), Ptr(g["col"]), Ptr(g["val"]), Ptr(g["roff"]), Ptr(R["idx"]), Ptr(R["val"]), Ptr(R["cnt"])])
        k, h, o = ctx.idx("k", K), ctx.idx("h", Ho), ctx.idx("o", nb)
        for t in (0, 1):
            prove_eq(ctx, f"packed index {t}", R["idx"].content(k, h, o, z3.IntVal(t)), fi(nr, k, h, o, z3.IntVal(t)))
        prove_eq(ctx, "packed value", R["val"].content(k, h, o), fv(nr, k, h, o))
        prove_eq(ctx, "packed count", R["cnt"].content(k, h), fc(nr, k, h))
        ctx.canary()

    return proof


def sort_wrapper(dt):
    """preprocess_psi: sorts the caller's tensors in place and returns the row offsets."""
    def proof(ctx):
        tu = TU(HELP, "psi")
        f = tu.get("preprocess_psi")
        ctx.functions.add("disco_helpers.cpp:preprocess_psi")
        K, Ho, nnz = ctx.int("K", lo=1).e, ctx.int("Ho", lo=1).e, ctx.int("nnz", lo=0).e
        ts = {n: SymTensor.input("in_" + n, (wrap(nnz),), int64) for n in ("ker", "row", "col")}
        ts["val"] = SymTensor.input("in_val", (wrap(nnz),), dt)
        new = {n: z3.Function("sorted_" + n, INT, REAL if n == "val" else INT) for n in ts}
        OFF = z3.Function("offsets", INT, INT)
        nr = ctx.int("nrows", lo=0).e
        seen = []

        def kern(m, args, n):
            a = [m.get(x) if isinstance(x, (Cell, Ref)) and i != 8 else x for i, x in enumerate(args)]
            for x, y, nm in zip(a[:3], (nnz, K, Ho), ("nnz", "K", "Ho")):
                ctx.prove(f"kernel argument {nm}", to_int(x) == y)
            for p, nm in zip((a[3], a[4], a[5], a[7]), ("ker", "row", "col", "val")):
                ctx.prove(f"kernel argument {nm} is the caller's tensor", p.region.tensor is ts[nm] and z3.simplify(p.off).eq(z3.IntVal(0)))
                p.region.content = lambda i, nm=nm: new[nm](i)
                ts[nm]._set_fn(lambda i, nm=nm: new[nm](i))
            r = a[6].region
            ctx.prove("room for the offsets", r.dims[0] >= Ho * K + 1)
            T = tu.byid.get(m.callee(n)[1], {}).get("_targs", [None])[0]
            ctx.prove("values read in their own precision", {"float": float32, "double": float64}.get(T) is dt)
            r.content = lambda i: OFF(i)
            ctx.assume(nr <= Ho * K)
            args[8].v = nr
            seen.append(1)

        m = Machine(ctx, tu, calls={"preprocess_psi_kernel": kern})
        r = m.call(f, [K, Ho] + [Cell(ts[n]) for n in ("ker", "row", "col", "val")])
        ctx.prove("the sort runs exactly once", len(seen) == 1)
        if prove_shape(ctx, "offsets", r, [nr + 1]):
            i = ctx.idx("i", nr + 1)
            ctx.prove_eq("offsets[i]", r.at(i), OFF(i))
        for nm, t in ts.items():
            i = ctx.idx("i", nnz)
            ctx.prove_eq(f"{nm} is sorted in place", t.at(i), new[nm](i))
        ctx.canary()

    return proof


def pack_wrapper(auto):
    def proof(ctx):
        tu = TU(HELP, "psi")
        f = tu.get("pack_psi_dense")
        ctx.functions.add("disco_helpers.cpp:pack_psi_dense")
        K, Ho, Hi, Wi, nnz, nr = [ctx.int(n, lo=1).e for n in ("K", "Ho", "Hi", "Wi", "nnz", "nrows")]
        nb = ctx.int("nbr_pad").e
        ctx.assume(nb <= 0 if auto else nb > 0)
        psi = Psi(ctx, K, Ho, Hi, Wi, nr, nnz)
        mk = lambda n, s, g, dt=int64: SymTensor((wrap(s),), lambda i: g(to_int(i)), dt)
        ker, row, col, val, roff = mk("ker", nnz, psi.ker), mk("row", nnz, psi.row), mk("col", nnz, psi.col), mk("val", nnz, psi.val, float32), mk("roff", nr + 1, psi.roff)
        g = ctx.idx("g", nr)  # an arbitrary row
        cnt = psi.roff(z3.simplify(g + 1)) - psi.roff(g)
        seen = []

        class Max:
            covers = {"max_nbr"}

            def facts(self, mx, i):
                return [mx >= 0, z3.Implies(g < i, mx >= cnt)]

            def assume(self, m, i):
                mx = ctx.fresh("max_nbr")
                for c in self.facts(mx, i):
                    ctx.assume(c)
                m.set("max_nbr", mx)

            def check(self, m, i, tag):
                for c in self.facts(to_int(m.var("max_nbr")), i):
                    ctx.prove(f"{tag}: max_nbr", c)

        def kern(m, args, n):
            a = [m.get(x) if isinstance(x, (Cell, Ref)) else x for x in args]
            for x, y, nm in zip((a[0], a[1], a[2], a[4]), (K, Ho, Wi, nr), ("K", "Ho", "Wi", "nrows")):
                ctx.prove(f"kernel argument {nm}", to_int(x) == y)
            pad = to_int(a[3])
            ctx.prove("kernel precondition: every row fits", pad >= cnt)
            for p, t, nm in zip(a[5:10], (ker, row, col, val, roff), ("ker", "row", "col", "val", "roff")):
                ctx.prove(f"kernel argument {nm}", p.region.tensor is t)
            for p, sh, nm in zip(a[10:13], ([K, Ho, pad, z3.IntVal(2)], [K, Ho, pad], [K, Ho]), ("idx", "val", "count")):
                ctx.prove(f"output {nm} shape", z3.And([z3.BoolVal(p.region.n == len(sh))] + [x == y for x, y in zip(p.region.dims, sh)]))
                i = [ctx.fresh("i") for _ in sh]
                ctx.prove(f"output {nm} starts at zero", p.region.content(*i) == 0)
            seen.append([p.region.tensor for p in a[10:13]])

        m = Machine(ctx, tu, loops={"i": lambda m, nm, lo, hi: Max()}, calls={"pack_psi_dense_kernel": kern})
        try:
            r = m.call(f, [K, Ho, Wi, nb] + [Cell(t) for t in (ker, row, col, val, roff)])
        except Rejected:
            ctx.canary()
            return
        ctx.prove("the packing runs exactly once", len(seen) == 1)
        ctx.prove("the packed tensors are returned in order", all(x is y for x, y in zip(r, seen[0])) and len(r) == 3)
        ctx.canary()

    return proof


PROOFS = [("C++ preprocess_psi_kernel<float>", sort_kernel("float", True)), ("C++ preprocess_psi_kernel<float>, no entries", sort_kernel("float", False))]
PROOFS += [("C++ pack_psi_dense_kernel<float>", pack_kernel("float"))]
PROOFS += [(f"C++ preprocess_psi operator [{d.name}]", sort_wrapper(d)) for d in (float32, float64)]
PROOFS += [(f"C++ pack_psi_dense operator [{'automatic' if a else 'given'} padding]", pack_wrapper(a)) for a in (True, False)]
