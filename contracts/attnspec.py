"""Shared contract pieces of neighbourhood attention (C++ kernels)."""
from .common import *
from vp.cxx import *
from vp import cxx

KD = "torch_harmonics/attention/optimized/kernels_cpu/"
FWD, FWDU, BWD, BWDU, PERM = [KD + f"attention_cpu_{n}.cpp" for n in ("fwd", "fwd_upsample", "bwd", "bwd_upsample", "permute")]
NS = "attention_kernels"


class Nbh:
    """Neighbourhood in compressed rows: nrow rows roff[r]..roff[r+1] of columns col = lat*W + lon.  Facts are
    instantiated where the code or the specification reads an entry."""

    def __init__(self, ctx, nrow, H, W, nnz, name="psi"):
        self.ctx, self.nrow, self.H, self.W, self.nnz = ctx, Z(nrow), Z(H), Z(W), Z(nnz)
        F = lambda n: z3.Function(f"{name}_{n}", INT, INT)
        self.flat, self.flon, self.froff = F("lat"), F("lon"), F("roff")
        for n in ("lat", "lon", "roff"):
            INPUT_FUNS.add(f"{name}_{n}")
        self.regs = dict(roff=Region("roff", [self.nrow + 1], "int", self.roff, True), col=Region("col", [self.nnz], "int", self.col, True))

    def inz(self, z):
        return z3.And(z >= 0, z < self.nnz)

    def roff(self, r):
        a, ax, n = self.froff, self.ctx.axiom, self.nrow
        p, q = z3.simplify(r - 1), z3.simplify(r + 1)
        ax(z3.Implies(z3.And(r >= 0, r <= n), z3.And(a(r) >= 0, a(r) <= self.nnz)))
        ax(z3.Implies(z3.And(r >= 0, r < n), z3.And(a(r) <= a(q), a(q) <= self.nnz)))
        ax(z3.Implies(z3.And(p >= 0, p < n), a(p) <= a(r)))
        return a(r)

    def lat(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.flat(z) >= 0, self.flat(z) < self.H)))
        return self.flat(z)

    def lon(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.flon(z) >= 0, self.flon(z) < self.W)))
        return self.flon(z)

    def col(self, z):
        return self.lat(z) * self.W + self.lon(z)


def lexlt(a, b):
    c = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        c = z3.Or(x < y, z3.And(x == y, c))
    return c


def dot(f, n):
    """sum over channels of f"""
    return PSum(z3.IntVal(0), f).at(n)


class Shape:
    def __init__(self, ctx, up=False):
        for n in ("B", "Ci", "Co", "Hi", "Wi", "Ho", "Wo", "nnz", "ps"):
            setattr(self, n, ctx.int(n, lo=1).e)
        ctx.assume(self.Wo == self.ps * self.Wi if up else self.Wi == self.ps * self.Wo)
        B, Hi, Wi, Ho, Wo = self.B, self.Hi, self.Wi, self.Ho, self.Wo
        self.kx = real_tensor(ctx, "kx", [B, Hi, Wi, self.Ci])
        self.vx = real_tensor(ctx, "vx", [B, Hi, Wi, self.Co])
        self.qy = real_tensor(ctx, "qy", [B, Ho, Wo, self.Ci])
        self.qw = Region("quad", [Hi], "real", const=True)
        for n in ("kx", "vx", "qy", "quad"):
            INPUT_FUNS.add("mem_" + n)
        self.psi = Nbh(ctx, Hi if up else Ho, Ho if up else Hi, Wo if up else Wi, self.nnz)
        self.ctx = ctx


def positive_sum(ctx, name, s, hyps=()):
    """Lemma: a sum of at least one positive term is positive (induction)."""
    n = ctx.fresh("n")
    for t in (n, n + 1):
        s.step(ctx, t)
    ctx.prove(f"lemma: {name} positive: base", z3.substitute(s.body, (PSum.k, n)) > 0, list(hyps) + [n >= s.lo])
    fs = sums_to_consts(ctx.pc + ctx.axioms + list(hyps) + [n >= s.lo, z3.Or(n == s.lo, s.at(n) > 0), z3.substitute(s.body, (PSum.k, n)) > 0, z3.Not(s.at(n + 1) > 0)])
    ctx.record(f"lemma: {name} positive: step", "proved" if ctx._check(fs, timeout_ms=8000) == z3.unsat else "open")


def fold_at(t, b, n, h, w, c, nh):
    """the folded view of a packed tensor: row b*nh+n holds head n of sample b"""
    return t.at(wrap(b * nh + n), wrap(h), wrap(w), wrap(c))


def heads(ctx, names, one):
    """symbolic packed tensors (B,H,W,nh*C)"""


def fwd_wrapper(dt, up):
    def proof(ctx):
        tu = TU(FWD, NS)
        f = tu.get("s2_attention_fwd_cpu")
        for n in ("s2_attention_fwd_cpu", "fold_heads", "unfold_heads"):
            ctx.functions.add(f"attention_cpu_fwd.cpp:{n}")
        B, C, Cv, nh, Hi, Wi, Ho, Wo, nnz, nr, ps = [ctx.int(n, lo=1).e for n in ("B", "C", "Cv", "nh", "Hi", "Wi", "Ho", "Wo", "nnz", "nrow", "ps")]
        X, Xv = ctx.int("Cq_packed", lo=1).e, ctx.int("Cv_packed", lo=1).e
        ctx.assume(X == nh * C)
        ctx.assume(Xv == nh * Cv)
        ctx.assume(Wo == ps * Wi if up else Wi == ps * Wo)
        if up:
            ctx.assume(ps >= 2)
        T = lambda n, s, d=dt: SymTensor.input(n, tuple(map(wrap, s)), d)
        kx, vx, qy = T("kx", (B, Hi, Wi, X)), T("vx", (B, Hi, Wi, Xv)), T("qy", (B, Ho, Wo, X))
        quad, col, roff = T("quad", (Hi,), float32), T("col", (nnz,), int64), T("roff", (nr + 1,), int64)
        RES = z3.Function("kernel_result", *([INT] * 4), REAL)
        seen = []

        def kern(isup):
            def stub(m, args, n):
                a = [m.get(x) if isinstance(x, (Cell, Ref)) else x for x in args]
                ctx.prove("kernel for this direction", isup == up)
                want = [Wi] + ([Hi] if up else []) + [Ho, Wo, B * nh, C, Cv]
                for x, y, nm in zip(a[7:], want, ["nlon_in"] + (["nlat_in"] if up else []) + ["nlat_out", "nlon_out", "batch", "nchannels_in", "nchannels_out"]):
                    ctx.prove(f"kernel argument {nm}", to_int(x) == y)
                b, hd = ctx.idx("b", B), ctx.idx("n", nh)
                for x, t, nm, cc, (H, W) in ((a[0], kx, "kx", C, (Hi, Wi)), (a[1], vx, "vx", Cv, (Hi, Wi)), (a[2], qy, "qy", C, (Ho, Wo))):
                    u = x.region.tensor
                    ctx.prove(f"kernel argument {nm} is float32", u.dtype is float32)
                    if not prove_shape(ctx, f"kernel argument {nm}", u, (B * nh, H, W, cc)):
                        continue
                    h, w, c = ctx.idx("h", H), ctx.idx("w", W), ctx.idx("c", cc)
                    ctx.prove_eq(f"kernel argument {nm}: head n of sample b", u.at(wrap(b * nh + hd), wrap(h), wrap(w), wrap(c)), t.at(wrap(b), wrap(h), wrap(w), wrap(hd * cc + c)))
                for x, t, nm in ((a[3], quad, "quad_weights"), (a[4], col, "col_idx"), (a[5], roff, "row_off")):
                    u = x.region.tensor
                    if prove_shape(ctx, f"kernel argument {nm}", u, t.shape):
                        i = ctx.idx("i", t.shape[0])
                        ctx.prove_eq(f"kernel argument {nm}", u.at(wrap(i)), t.at(wrap(i)))
                o = a[6].region
                ctx.prove("output is float32", o.tensor.dtype is float32)
                prove_shape(ctx, "kernel output", o.tensor, (B * nh, Ho, Wo, Cv))
                o.content = lambda *i: RES(*i)
                o.tensor._memo.clear()
                seen.append(o)
            return stub

        m = Machine(ctx, tu, calls={"s2_attn_fwd_kernel": kern(False), "s2_attn_fwd_upsample_dispatch": kern(True)})
        r = m.call(f, [Cell(t) for t in (kx, vx, qy, quad, col, roff)] + [nh, Wi, Ho, Wo])
        ctx.prove("the kernel runs exactly once", len(seen) == 1)
        ctx.prove("result precision is the input's", r.dtype is dt)
        if prove_shape(ctx, "result", r, (B, Ho, Wo, Xv)):
            b, hd, h, w, c = ctx.idx("b", B), ctx.idx("n", nh), ctx.idx("h", Ho), ctx.idx("w", Wo), ctx.idx("c", Cv)
            ctx.prove_eq("result holds head n in channels n*C..n*C+C-1", r.at(wrap(b), wrap(h), wrap(w), wrap(hd * Cv + c)), RES(z3.simplify(b * nh + hd), h, w, c))
        ctx.canary()

    return proof


def ratio(ctx, up):
    """grid and head extents shared by the operator contracts"""
    v = {n: ctx.int(n, lo=1).e for n in ("B", "C", "Cv", "nh", "Hi", "Wi", "Ho", "Wo", "nnz", "nrow", "ps", "X", "Xv")}
    ctx.assume(v["X"] == v["nh"] * v["C"])
    ctx.assume(v["Xv"] == v["nh"] * v["Cv"])
    ctx.assume(v["Wo"] == v["ps"] * v["Wi"] if up else v["Wi"] == v["ps"] * v["Wo"])
    if up:
        ctx.assume(v["ps"] >= 2)
    return v


def operands(ctx, v, dt):
    T = lambda n, s, d=dt: SymTensor.input(n, tuple(map(wrap, s)), d)
    B, Hi, Wi, Ho, Wo, X, Xv = [v[n] for n in ("B", "Hi", "Wi", "Ho", "Wo", "X", "Xv")]
    t = dict(kx=T("kx", (B, Hi, Wi, X)), vx=T("vx", (B, Hi, Wi, Xv)), qy=T("qy", (B, Ho, Wo, X)), dy=T("dy", (B, Ho, Wo, Xv)))
    t.update(quad=T("quad", (Hi,), float32), col=T("col", (v["nnz"],), int64), roff=T("roff", (v["nrow"] + 1,), int64))
    return t


def same_tensor(ctx, name, u, t):
    if prove_shape(ctx, name, u, t.shape):
        i = [wrap(ctx.idx("i", s)) for s in t.shape]
        ctx.prove_eq(name, u.at(*i), t.at(*i))


def folded(ctx, name, u, t, v, cc, H, W, cf):
    """u is t with head n of sample b as batch entry b*nh+n (cf: channels first)"""
    B, nh = v["B"], v["nh"]
    ctx.prove(f"{name} is float32", u.dtype is float32)
    if not prove_shape(ctx, name, u, (B * nh, cc, H, W) if cf else (B * nh, H, W, cc)):
        return
    b, hd, h, w, c = [ctx.idx(k, s) for k, s in (("b", B), ("n", nh), ("h", H), ("w", W), ("c", cc))]
    i = (b * nh + hd, c, h, w) if cf else (b * nh + hd, h, w, c)
    ctx.prove_eq(f"{name}: head n of sample b", u.at(*[wrap(z3.simplify(x)) for x in i]), t.at(wrap(b), wrap(h), wrap(w), wrap(z3.simplify(hd * cc + c))))


def unfolded(ctx, name, r, R, v, cc, H, W, dt, cf):
    """r is the packed form of the kernel result R(b*nh+n, ...)"""
    B, nh = v["B"], v["nh"]
    ctx.prove(f"{name}: precision is the input's", r.dtype is dt)
    if prove_shape(ctx, name, r, (B, H, W, nh * cc)):
        b, hd, h, w, c = [ctx.idx(k, s) for k, s in (("b", B), ("n", nh), ("h", H), ("w", W), ("c", cc))]
        k = z3.simplify(b * nh + hd)
        ctx.prove_eq(f"{name} holds head n in channels n*C..n*C+C-1", r.at(wrap(b), wrap(h), wrap(w), wrap(z3.simplify(hd * cc + c))), R(k, c, h, w) if cf else R(k, h, w, c))


def bwd_wrapper(dt, up):
    def proof(ctx):
        tu = TU(BWD, NS)
        f = tu.get("s2_attention_bwd_cpu")
        ctx.functions.add("attention_cpu_bwd.cpp:s2_attention_bwd_cpu")
        v = ratio(ctx, up)
        t = operands(ctx, v, dt)
        B, C, Cv, nh, Hi, Wi, Ho, Wo = [v[n] for n in ("B", "C", "Cv", "nh", "Hi", "Wi", "Ho", "Wo")]
        R = {n: z3.Function(f"kernel_{n}", *([INT] * 4), REAL) for n in ("dq", "dv", "dk")}
        seen = []

        def kern(isup):
            def stub(m, args, n):
                a = [m.get(x) if isinstance(x, (Cell, Ref)) else x for x in args]
                ctx.prove("kernel for this direction", isup == up)
                want = [("nlon_in", Wi)] + ([("nlat_in", Hi)] if up else []) + [("nlat_out", Ho), ("nlon_out", Wo), ("batch", B * nh), ("nchannels_in", C), ("nchannels_out", Cv)]
                ctx.prove("kernel argument count", len(a) == 10 + len(want))
                for x, (nm, y) in zip(a[10:], want):
                    ctx.prove(f"kernel argument {nm}", to_int(x) == y)
                for x, nm, cc, H, W in ((a[0], "kx", C, Hi, Wi), (a[1], "vx", Cv, Hi, Wi), (a[2], "qy", C, Ho, Wo), (a[3], "dy", Cv, Ho, Wo)):
                    folded(ctx, f"kernel argument {nm}", x.region.tensor, t[nm], v, cc, H, W, False)
                for x, nm in ((a[4], "quad"), (a[5], "col"), (a[6], "roff")):
                    same_tensor(ctx, f"kernel argument {nm}", x.region.tensor, t[nm])
                for x, nm, cc, H, W in ((a[7], "dq", C, Ho, Wo), (a[8], "dv", Cv, Hi, Wi), (a[9], "dk", C, Hi, Wi)):
                    o = x.region
                    ctx.prove(f"{nm} buffer is float32", o.tensor.dtype is float32)
                    prove_shape(ctx, f"{nm} buffer", o.tensor, (B * nh, H, W, cc))
                    j = [ctx.idx("j", d) for d in (B * nh, H, W, cc)]
                    ctx.prove_eq(f"{nm} buffer starts at zero", o.tensor.at(*map(wrap, j)), z3.RealVal(0))
                    o.content = (lambda F: lambda *i: F(*i))(R[nm])
                    o.tensor._memo.clear()
                regs = {id(a[k].region) for k in (7, 8, 9)}
                ctx.prove("three separate result buffers", len(regs) == 3)
                seen.append(1)

            return stub

        def other(fn):
            tf = TU(FWD, NS)
            return lambda m, args, n: Machine(ctx, tf).call(tf.get(fn), [Cell(m.get(x)) if isinstance(x, (Cell, Ref)) else (Cell(x) if isinstance(x, SymTensor) else x) for x in args])

        calls = {"s2_attn_bwd_kernel": kern(False), "s2_attn_bwd_upsample_dispatch": kern(True)}
        for fn in ("fold_heads", "unfold_heads"):  # defined in the forward translation unit
            try:
                tu.get(fn)
            except Exception:
                calls[fn] = other(fn)
        m = Machine(ctx, tu, calls=calls)
        r = m.call(f, [Cell(t[n]) for n in ("kx", "vx", "qy", "dy", "quad", "col", "roff")] + [nh, Wi, Ho, Wo])
        ctx.prove("the kernel runs exactly once", len(seen) == 1)
        r = [m.get(x) if isinstance(x, (Cell, Ref)) else x for x in r]
        ctx.prove("three gradients", len(r) == 3)
        for x, nm, cc, H, W in ((r[0], "dk", C, Hi, Wi), (r[1], "dv", Cv, Hi, Wi), (r[2], "dq", C, Ho, Wo)):
            unfolded(ctx, f"gradient {nm}", x, R[nm], v, cc, H, W, dt, False)
        ctx.canary()

    return proof


MT = "torch_harmonics.attention.kernels_torch.attention_torch"
MO = "torch_harmonics.attention.optimized.attention_optimized"


def _avail():
    import types

    return {"attention_helpers": types.SimpleNamespace(optimized_kernels_is_available=lambda: True)}


class Saved:
    """autograd context: what setup_context stored is what backward reads"""

    def save_for_backward(self, *t):
        self.saved_tensors = t


def torch_fwd(dt, up):
    def proof(ctx):
        v = ratio(ctx, up)
        t = operands(ctx, v, dt)
        B, C, Cv, nh, Hi, Wi, Ho, Wo = [v[n] for n in ("B", "C", "Cv", "nh", "Hi", "Wi", "Ho", "Wo")]
        R = z3.Function("kernel_y", *([INT] * 4), REAL)
        seen = []

        def kern(isup):
            def stub(kx, vx, qy, quad, col, roff, a, b, c):
                ctx.prove("reference for this direction", isup == up)
                for x, (nm, y) in zip((a, b, c), (("nlon_in", Wi), ("nlat_out", Ho), ("nlon_out", Wo))):
                    ctx.prove(f"reference argument {nm}", Z(x) == y)
                for x, nm, cc, H, W in ((kx, "kx", C, Hi, Wi), (vx, "vx", Cv, Hi, Wi), (qy, "qy", C, Ho, Wo)):
                    folded(ctx, f"reference argument {nm}", x, t[nm], v, cc, H, W, True)
                for x, nm in ((quad, "quad"), (col, "col"), (roff, "roff")):
                    same_tensor(ctx, f"reference argument {nm}", x, t[nm])
                seen.append(1)
                return SymTensor(tuple(map(wrap, (z3.simplify(B * nh), Cv, Ho, Wo))), lambda *i: R(*i), float32)

            return stub

        ov = dict(_avail())
        ov[MT] = {"_neighborhood_s2_attention_fwd_torch": kern(False), "_neighborhood_s2_attention_upsample_fwd_torch": kern(True)}
        m = Loader(ov).load(MT)
        ctx.functions.add("attention.kernels_torch._neighborhood_s2_attention_torch")
        r = m._neighborhood_s2_attention_torch(*[t[n] for n in ("kx", "vx", "qy", "quad", "col", "roff")], wrap(nh), wrap(Wi), wrap(Ho), wrap(Wo))
        ctx.prove("the reference runs exactly once", len(seen) == 1)
        unfolded(ctx, "result", r, R, v, Cv, Ho, Wo, dt, True)
        ctx.canary()

    return proof


def torch_bwd(dt, up):
    def proof(ctx):
        v = ratio(ctx, up)
        t = operands(ctx, v, dt)
        B, C, Cv, nh, Hi, Wi, Ho, Wo = [v[n] for n in ("B", "C", "Cv", "nh", "Hi", "Wi", "Ho", "Wo")]
        R = {n: z3.Function(f"kernel_{n}", *([INT] * 4), REAL) for n in ("dq", "dv", "dk")}
        seen = []

        def kern(nm, isup):
            cc, H, W = dict(dq=(C, Ho, Wo), dk=(C, Hi, Wi), dv=(Cv, Hi, Wi))[nm]

            def stub(kx, vx, qy, dy, quad, col, roff, a, b, c):
                ctx.prove(f"{nm}: reference for this direction", isup == up)
                for x, (k, y) in zip((a, b, c), (("nlon_in", Wi), ("nlat_out", Ho), ("nlon_out", Wo))):
                    ctx.prove(f"{nm}: argument {k}", Z(x) == y)
                for x, k, c2, h2, w2 in ((kx, "kx", C, Hi, Wi), (vx, "vx", Cv, Hi, Wi), (qy, "qy", C, Ho, Wo), (dy, "dy", Cv, Ho, Wo)):
                    folded(ctx, f"{nm}: argument {k}", x, t[k], v, c2, h2, w2, True)
                for x, k in ((quad, "quad"), (col, "col"), (roff, "roff")):
                    same_tensor(ctx, f"{nm}: argument {k}", x, t[k])
                seen.append(nm)
                F = R[nm]
                return SymTensor(tuple(map(wrap, (z3.simplify(B * nh), cc, H, W))), lambda *i: F(*i), float32)

            return stub

        ov = dict(_avail())
        ov[MT] = {f"_neighborhood_s2_attention_{u}bwd_{n}_torch": kern(n, bool(u)) for n in R for u in ("", "upsample_")}
        L = Loader(ov)
        m = L.load(MT)
        ctx.functions.update(["attention.kernels_torch._neighborhood_s2_attention_bwd_torch", "attention._attention_utils._setup_context_attention_backward"])
        ctx.assumptions.add("torch.library autograd calls the registered setup and backward functions")
        bwd, setup = L.torch.registered.autograd["attention_kernels::_neighborhood_s2_attention_torch"]
        for mask in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
            del seen[:]
            c = Saved()
            setup(c, tuple(t[n] for n in ("kx", "vx", "qy", "quad", "col", "roff")) + (wrap(nh), wrap(Wi), wrap(Ho), wrap(Wo)), None)
            c.needs_input_grad = tuple(map(bool, mask)) + (False,) * 7
            r = bwd(c, t["dy"])
            ctx.prove(f"{mask}: one entry per argument", len(r) == 10)
            for k, (nm, cc, H, W) in enumerate((("dk", C, Hi, Wi), ("dv", Cv, Hi, Wi), ("dq", C, Ho, Wo))):
                if mask[k]:
                    unfolded(ctx, f"{mask}: gradient {nm}", r[k], R[nm], v, cc, H, W, dt, True)
            ctx.prove(f"{mask}: no gradient for the tables", all(x is None for x in r[3:]))
        ctx.canary()

    return proof


def optimized(what):
    def proof(ctx):
        import types

        v = ratio(ctx, False)
        t = operands(ctx, v, float32)
        nums = [("num_heads", v["nh"]), ("nlon_in", v["Wi"]), ("nlat_out", v["Ho"]), ("nlon_out", v["Wo"])]
        L = Loader(_avail())
        out = [SymTensor.input(n, t[s].shape, float32) for n, s in (("rk", "kx"), ("rv", "vx"), ("rq", "qy"))]
        seen = []

        def op(names):
            def f(*a):
                ctx.prove("operator argument count", len(a) == len(names) + 4)
                for x, n in zip(a, names):
                    same_tensor(ctx, f"operator argument {n}", x, t[n])
                for x, (n, y) in zip(a[len(names):], nums):
                    ctx.prove(f"operator argument {n}", Z(x) == y)
                seen.append(1)
                return out[0] if what == "forward" else tuple(out)

            return types.SimpleNamespace(default=f)

        seven = ("kx", "vx", "qy", "quad", "col", "roff")
        ak = types.SimpleNamespace(forward=op(seven), backward=op(("kx", "vx", "qy", "dy", "quad", "col", "roff")))
        L.torch.ops = types.SimpleNamespace(attention_kernels=ak)
        m = L.load(MO)
        m.attention_kernels = ak
        args = tuple(t[n] for n in seven) + tuple(wrap(x) for _, x in nums)
        if what == "forward":
            ctx.functions.add("attention.optimized._neighborhood_s2_attention_optimized")
            r = m._neighborhood_s2_attention_optimized(*args)
            ctx.prove("the operator's result is returned", r is out[0])
            fk = L.torch.registered.fakes.get("attention_kernels::_neighborhood_s2_attention_optimized")
            if fk is not None:
                prove_shape(ctx, "declared result", fk(*args), (v["B"], v["Ho"], v["Wo"], v["Xv"]))
        else:
            ctx.functions.update(["attention.optimized._neighborhood_s2_attention_bwd_optimized", "attention._attention_utils._setup_context_attention_backward"])
            bwd, setup = L.torch.registered.autograd["attention_kernels::_neighborhood_s2_attention_optimized"]
            c = Saved()
            setup(c, args, None)
            c.needs_input_grad = (True,) * 3 + (False,) * 7
            r = bwd(c, t["dy"])
            ctx.prove("one entry per argument", len(r) == 10)
            ctx.prove("gradients in argument order", r[0] is out[0] and r[1] is out[1] and r[2] is out[2])
            ctx.prove("no gradient for the tables", all(x is None for x in r[3:]))
        ctx.prove("the operator runs exactly once", len(seen) == 1)
        ctx.canary()

    return proof


def _n(d, u):
    return f"[{d.name}, {'up' if u else 'down'}]"


FORWARD_OPS = [(f"torch reference operator {_n(d, u)}", torch_fwd(d, u)) for d in (float32, float16) for u in (False, True)] + [("compiled forward operator (Python)", optimized("forward"))]
BACKWARD_OPS = [(f"C++ s2_attention_bwd_cpu {_n(d, u)}", bwd_wrapper(d, u)) for d in (float32, float16) for u in (False, True)]
BACKWARD_OPS += [(f"torch reference gradient {_n(d, u)}", torch_bwd(d, u)) for d in (float32, float16) for u in (False, True)] + [("compiled backward operator (Python)", optimized("backward"))]
