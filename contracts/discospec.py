"""Shared contract pieces of the DISCO contraction (C++ kernels)."""
from .common import *
from vp.cxx import *

FWD = "torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_fwd.cpp"
BWD = "torch_harmonics/disco/optimized/kernels_cpu/disco_cpu_bwd.cpp"
HELP = "torch_harmonics/disco/optimized/disco_helpers.cpp"


class Psi:
    """A sparse filter tensor sorted by (ker, row) with row offsets, as preprocess_psi delivers it: nnr non-empty rows
    roff[r]..roff[r+1], constant (ker, row) inside a row, different (ker, row) in different rows, columns
    col = lat*W + lon.  The facts are instantiated where the code (or the spec) reads an entry."""

    def __init__(self, ctx, K, Hrow, Hcol, W, nnr, nnz, name="psi"):
        self.ctx, self.K, self.Hrow, self.Hcol, self.W, self.nnr, self.nnz = ctx, Z(K), Z(Hrow), Z(Hcol), Z(W), Z(nnr), Z(nnz)
        F = lambda n, *s: z3.Function(f"{name}_{n}", *s)
        self.fker, self.frow, self.flat, self.flon = [F(n, INT, INT) for n in ("ker", "row", "lat", "lon")]
        self.fval = F("val", INT, REAL)
        self.froff = F("roff", INT, INT)
        self.fown = F("own", INT, INT, INT)
        for f in ("ker", "row", "lat", "lon", "val", "roff"):
            INPUT_FUNS.add(f"{name}_{f}")
        self.regs = dict(
            roff=Region("roff", [self.nnr + 1], "int", self.roff, True),
            ker=Region("ker", [self.nnz], "int", self.ker, True),
            row=Region("row", [self.nnz], "int", self.row, True),
            col=Region("col", [self.nnz], "int", self.col, True),
            val=Region("val", [self.nnz], "real", self.val, True),
        )

    def inz(self, z):
        return z3.And(z >= 0, z < self.nnz)

    def roff(self, r):
        a = self.froff
        self.ctx.axiom(z3.Implies(z3.And(r >= 0, r <= self.nnr), z3.And(a(r) >= 0, a(r) <= self.nnz)))
        self.ctx.axiom(z3.Implies(z3.And(r >= 0, r < self.nnr), a(r) < a(z3.simplify(r + 1))))
        p = z3.simplify(r - 1)
        self.ctx.axiom(z3.Implies(z3.And(p >= 0, p < self.nnr), a(p) < a(r)))
        return a(r)

    def ker(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.fker(z) >= 0, self.fker(z) < self.K)))
        return self.fker(z)

    def row(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.frow(z) >= 0, self.frow(z) < self.Hrow)))
        return self.frow(z)

    def lat(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.flat(z) >= 0, self.flat(z) < self.Hcol)))
        return self.flat(z)

    def lon(self, z):
        self.ctx.axiom(z3.Implies(self.inz(z), z3.And(self.flon(z) >= 0, self.flon(z) < self.W)))
        return self.flon(z)

    def col(self, z):
        return self.lat(z) * self.W + self.lon(z)

    def val(self, z):
        return self.fval(z)

    def own(self, k, h):
        """ghost: the row index of (k, h), or -1"""
        o = self.fown(k, h)
        s = self.roff(o)
        self.ctx.axiom(z3.Implies(z3.And(o >= 0, o < self.nnr), z3.And(self.fker(s) == k, self.frow(s) == h)))
        self.ctx.axiom(z3.And(o >= -1, o < self.nnr))
        return o

    def owned(self, r):
        s = self.roff(r)
        self.ctx.axiom(z3.Implies(z3.And(r >= 0, r < self.nnr), self.fown(self.fker(s), self.frow(s)) == r))


def dispatcher(src, direction):
    """disco_{fwd,bwd}_cpu<T>: picks an instantiation whose compile-time step is 0 (run time) or equals the step."""
    def proof(ctx):
        tu = TU(src, "disco_kernels")
        name = f"disco_{direction}_cpu"
        f = tu.get(name, ["float"])
        ctx.functions.add(f"disco_cpu_{direction}.h:{name}<float>")
        names = ("B", "C", "K", "Hi", "Wi", "Ho", "Wo", "nnz", "nnr")
        v = {n: ctx.int(n, lo=1).e for n in names}
        ps = ctx.int("pscale", lo=1).e
        big, small = ("Wi", "Wo") if direction == "fwd" else ("Wo", "Wi")
        ctx.assume(v[big] == ps * v[small])
        qa, _ = fdivmod(v[big], v[small])
        ctx.prove("step of the longitudes", qa == ps)
        ctx.axiom(qa == ps)
        objs = [Accessor(Region(n, [1])) for n in ("inp", "roff", "ker", "row", "col", "val", "out")]
        seen = []

        def impl(m, args, n):
            t = tu.byid.get(m.callee(n)[1], {}).get("_targs")
            if t is None:
                raise Unsupported("instantiation of the kernel")
            a = [x.v if isinstance(x, Cell) else x for x in args]
            seen.append(a)
            ctx.prove("same scalar type", t[0] == "float")
            ctx.prove("compile-time step is 0 or the step", t[1] == 0 or (ps == t[1]))
            for x, y, nm in zip(a, [v[n] for n in names] + [ps], names + ("pscale",)):
                ctx.prove(f"argument {nm}", to_int(x) == y)
            ctx.prove("tensors passed in order", all(x is y for x, y in zip(a[10:], objs)) and len(a) == 17)

        m = Machine(ctx, tu, calls={f"disco_{direction}_cpu_impl": impl})
        m.call(f, [v[n] for n in names] + objs)
        ctx.prove("the kernel runs exactly once", len(seen) == 1)
        ctx.canary()

    return proof


def wrapper(src, direction, dt):
    """The registered operator: argument checks, reduced precision computed in float32, result in the input's precision."""
    def proof(ctx):
        tu = TU(src, "disco_kernels")
        name = f"disco_cpu_{direction}"
        f = tu.get(name)
        ctx.functions.add(f"disco_cpu_{direction}.cpp:{name}")
        B, C, K, Hr, Hc, Wi, Wo, nnz, nr = [ctx.int(n, lo=1).e for n in ("B", "C", "K", "Hrow", "Hcol", "Wi", "Wo", "nnz", "nrows")]
        W = wrap
        it = lambda n, s: SymTensor.input(n, (W(s),), int64)
        roff, ker, row, col = it("roff", nr + 1), it("ker", nnz), it("row", nnz), it("col", nnz)
        val = SymTensor.input("vals", (W(nnz),), float32 if dt in (float16, bfloat16) else dt)
        if direction == "fwd":
            inp = SymTensor.input("inp", tuple(map(W, (B, C, Hc, Wi))), dt)
            oshape, big, small, last = [B, C, K, Hr, Wo], Wi, Wo, [K, Hr, Wo]
        else:
            inp = SymTensor.input("inp", tuple(map(W, (B, C, K, Hr, Wi))), dt)
            oshape, big, small, last = [B, C, Hc, Wo], Wo, Wi, [K, Hc, Wo]
        seen = []
        RES = z3.Function("kernel_result", *([INT] * len(oshape)), REAL)
        ten = [inp, roff, ker, row, col, val]

        def kern(m, args, n):
            a = [m.get(x) if isinstance(x, (Cell, Ref)) else x for x in args]
            want = [B, C, K, Hc if direction == "fwd" else Hr, Wi, Hr if direction == "fwd" else Hc, Wo, nnz, nr]
            for x, y, nm in zip(a, want, ("B", "C", "K", "Hi", "Wi", "Ho", "Wo", "nnz", "nnr")):
                ctx.prove(f"kernel argument {nm}", to_int(x) == y)
            q, r = fdivmod(big, small)
            ctx.prove("kernel precondition: integer ratio of longitudes", big == q * small)
            T = tu.byid.get(m.callee(n)[1], {}).get("_targs", [None])[0]
            for x, t, nm in zip(a[9:15], ten, ("inp", "roff", "ker", "row", "col", "vals")):
                u = x.region.tensor
                if not prove_shape(ctx, f"kernel argument {nm}", u, t.shape):
                    continue
                i = [ctx.idx("i", d) for d in t.shape]
                ctx.prove_eq(f"kernel argument {nm}", u.at(*i), t.at(*i))
                if t.dtype.kind == "r":
                    ctx.prove(f"kernel argument {nm} has the kernel's scalar type", {"float": float32, "double": float64}.get(T) is u.dtype)
            o = a[15].region
            i = [ctx.fresh("i") for _ in oshape]
            ctx.prove("output starts at zero", z3.And([z3.BoolVal(o.n == len(oshape)), o.content(*i) == 0]))
            ctx.prove("output precision", {"float": float32, "double": float64}.get(T) is o.tensor.dtype)
            ctx.prove("computed in float32 at least", T == ("double" if dt is float64 else "float"))
            o.content = lambda *i: RES(*i)
            o.tensor._memo.clear()
            seen.append(o)

        m = Machine(ctx, tu, calls={f"disco_{direction}_cpu": kern})
        ctx.soft = True
        try:
            r = m.call(f, [Cell(inp)] + [Cell(t) for t in (roff, ker, row, col, val)] + last)
        except Rejected:
            q, rem = fdivmod(big, small)
            ctx.prove("refuses only a non-integer ratio", z3.Not(rem == 0))
            ctx.canary()
            return
        ctx.prove("the kernel runs exactly once", len(seen) == 1)
        ctx.prove("result precision is the input's", r.dtype is dt)
        if prove_shape(ctx, "result", r, oshape):
            i = [ctx.idx("i", d) for d in oshape]
            ctx.prove_eq("result is the kernel's output", r.at(*i), RES(*i))
        ctx.canary()

    return proof
