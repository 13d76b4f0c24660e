"""P05: quadrature rules, latitude/longitude nodes and the sphere integrator.

Specs: trapezoidal closed form; Legendre-Gauss = affine image of numpy's leggauss (assumed contract);
Lobatto = Newton step on (1-x^2)P'_{n-1} from the Chebyshev-Lobatto guess with weights
2/(n(n-1)P_{n-1}^2) (Legendre recurrence loop under contract); Clenshaw-Curtis = inverse DFT of
Waldvogel's (2006, eqs. 3.10/3.12/4.4) closed-form spectrum.
"""
from .common import *

MQ = "torch_harmonics.quadrature"
TL = z3.Function("iterate", INT, REAL)
PN = z3.Function("PN", INT, REAL, REAL)  # Legendre polynomial P_k(x)


def affine(ctx):
    return ctx.real("a"), ctx.real("b")


def mk_trap(periodic):
    def proof(ctx):
        m = Loader().load(MQ)
        ctx.functions.add("quadrature.trapezoidal_weights")
        n = ctx.int("n", lo=1 if periodic else 2)
        a, b = affine(ctx)
        x, w = m.trapezoidal_weights(n, a=a, b=b, periodic=periodic)
        if not (prove_shape(ctx, "nodes", x, [n]) and prove_shape(ctx, "weights", w, [n])):
            return
        i = ctx.idx("i", n)
        ir, nr = z3.ToReal(i), z3.ToReal(n.e)
        d = nr if periodic else nr - 1
        ctx.prove_eq("node", x.at(i), a.e + (b.e - a.e) * ir / d)
        h = (b.e - a.e) / d
        if periodic:
            ctx.prove_eq("weight", w.at(i), h)
        else:
            ctx.prove_eq("interior weight", w.at(i), h, [i > 0, i < n.e - 1])
            ctx.prove_eq("first weight", w.at(z3.IntVal(0)), h / 2, [n.e >= 2])
            ctx.prove_eq("last weight", w.at(n.e - 1), h / 2, [n.e >= 2])
        ctx.canary()

    return proof


def leggauss_stub(ctx, n):
    X = SymTensor.input("xg", (n,), free=False)
    W = SymTensor.input("wg", (n,), free=False)
    return X, W


def p_gauss(ctx):
    n = ctx.int("n", lo=1)
    a, b = affine(ctx)
    X, W = leggauss_stub(ctx, n)
    calls = []
    L = Loader()
    m = L.load(MQ)

    def leggauss(k):
        calls.append(k)
        return X, W

    m.np.polynomial.legendre.leggauss = leggauss
    ctx.functions.add("quadrature.legendre_gauss_weights")
    ctx.assumptions.add("numpy.polynomial.legendre.leggauss returns the Gauss-Legendre rule of the requested size (increasing nodes)")
    x, w = m.legendre_gauss_weights(n, a=a, b=b)
    ctx.prove("rule of n nodes requested", z3.And([Z(k) == n.e for k in calls]) if len(calls) == 1 else False)
    if not (prove_shape(ctx, "nodes", x, [n]) and prove_shape(ctx, "weights", w, [n])):
        return
    i = ctx.idx("i", n)
    ctx.prove_eq("affine node", x.at(i), (a.e + b.e) / 2 + (b.e - a.e) / 2 * R(X.at(i)))
    ctx.prove_eq("scaled weight", w.at(i), (b.e - a.e) / 2 * R(W.at(i)))
    ctx.canary()


class ChebInit:
    def locals_free(self):
        return ()

    def tensors(self, env):
        return {"tlg": env["tlg"]}

    def state(self, k, env):
        k, n = Z(k), Z(env["n"])
        self.n = n
        return {"tlg": lambda i: z3.If(i < k, TL(i), z3.RealVal(0))}

    def facts(self, ctx, k, gi):
        # inside this loop TL is the Chebyshev-Lobatto start value; the fact is dropped after the
        # loop, so that everything that follows is proved for an arbitrary iterate
        i = gi[0]
        ctx.define(TL(i), -rfun("cos", PI * z3.ToReal(i) / (z3.ToReal(self.n) - 1)))

    def split(self, ctx, k, gi, prove):
        prove("[new]", [gi[0] == k])
        prove("[frame]", [gi[0] != k])


class LegRec:
    def locals_free(self):
        return ()

    def tensors(self, env):
        self.old = env["vdm"]._snapshot()
        self.t = lambda i: TL(i)
        return {"vdm": env["vdm"]}

    def state(self, k, env):
        k = Z(k)
        old, t = self.old, self.t

        def f(i, j):
            x = R(t(i))
            return z3.If(j == 0, z3.RealVal(1), z3.If(j == 1, x, z3.If(j < k, PN(j, x), R(old(i, j)))))

        return {"vdm": f}

    def facts(self, ctx, k, gi):
        x = R(self.t(gi[0]))
        kr = z3.ToReal(k)
        ctx.define(PN(k - 1, x), x, k == 2)
        ctx.define(PN(k - 2, x), z3.RealVal(1), k == 2)
        ctx.define(PN(k - 2, x), x, k == 3)
        ctx.define(PN(k, x), ((2 * kr - 1) * x * PN(k - 1, x) - (kr - 1) * PN(k - 2, x)) / kr, k >= 2)

    def split(self, ctx, k, gi, prove):
        i, j = gi
        prove("[k=2]", [j == k, k == 2])
        prove("[k=3]", [j == k, k == 3])
        prove("[k>3]", [j == k, k > 3])
        prove("[frame]", [j != k])


def mk_lob():
    def proof(ctx):
        m = Loader().load(MQ)
        ctx.functions.add("quadrature.lobatto_weights")
        ctx.assumptions.add("convergence of the Lobatto Newton iteration (bounded part checks nodes and moments)")
        n = ctx.int("n", lo=2)
        a, b = affine(ctx)
        LoopContracts.table[(MQ, "lobatto_weights", 0)] = ChebInit()
        rec = LoopContracts.table[(MQ, "lobatto_weights", 2)] = LegRec()
        x, w = m.lobatto_weights(n, a=a, b=b, maxiter=1)
        if not (prove_shape(ctx, "nodes", x, [n]) and prove_shape(ctx, "weights", w, [n])):
            return
        i = ctx.idx("i", n)
        nr = z3.ToReal(n.e)
        t = TL(i)

        def P(k):
            # P_k with the two lowest degrees spelled out
            return z3.If(k == 0, z3.RealVal(1), z3.If(k == 1, t, PN(k, t)))

        p1, p2 = P(n.e - 1), P(n.e - 2)
        hw = (b.e - a.e) / 2
        ctx.assumptions.add("P_(n-1) does not vanish at the Lobatto iterates")
        ctx.axiom(z3.And(t != 0, PN(n.e - 1, t) != 0))
        for nm, h in (("n=2", [n.e == 2]), ("n=3", [n.e == 3]), ("n>3", [n.e > 3])):
            ctx.prove_eq(f"[{nm}] one Newton step on (1-x^2)P'_(n-1)", x.at(i), hw * (t - (t * p1 - p2) / (nr * p1)) + (a.e + b.e) / 2, h)
            ctx.prove_eq(f"[{nm}] weight 2/(n(n-1)P_(n-1)^2)", w.at(i), hw * 2 / (nr * (nr - 1) * p1 * p1), h)
        ctx.canary()

    return proof


def p_cc(ctx):
    m = Loader().load(MQ)
    ctx.functions.add("quadrature.clenshaw_curtiss_weights")
    ctx.assumptions.add("torch.fft.ifft is the inverse DFT; Waldvogel's closed-form spectrum of the Clenshaw-Curtis weights")
    n = ctx.int("n", lo=2)
    a, b = affine(ctx)
    spec = []

    class Cx:
        def __init__(self, t):
            self.real = t

    def ifft(v):
        spec.append(v)
        return Cx(SymTensor.input("icc", v.shape, free=False))

    m.torch.fft.ifft = ifft
    x, w = m.clenshaw_curtiss_weights(n, a=a, b=b)
    if not (prove_shape(ctx, "nodes", x, [n]) and prove_shape(ctx, "weights", w, [n])):
        return
    i = ctx.idx("i", n)
    nr = z3.ToReal(n.e)
    ctx.prove_eq("node", x.at(i), (b.e - a.e) / 2 * rfun("cos", PI - PI * z3.ToReal(i) / (nr - 1)) + (a.e + b.e) / 2)
    if not spec:
        ctx.prove("two nodes only", n.e == 2)
        ctx.prove_eq("two-node weight", w.at(i), (b.e - a.e) / 2)
        ctx.canary()
        return
    v = spec[0]
    N = n.e - 1
    ctx.prove("one inverse transform, of length n-1", z3.And(Z(v.shape[0]) == N) if len(v.shape) == 1 and len(spec) == 1 else False)
    icc = z3.Function("icc", INT, REAL)
    half = z3.RealVal("1/2")
    wr = w.at(i)
    ctx.prove("end weights equal", R(w.at(z3.IntVal(0))) == R(w.at(N)))
    for par in (0, 1):
        q = ctx.fresh("q")
        Nr = 2 * z3.ToReal(q) + par
        h = [N == 2 * q + par, q >= 1]
        w0 = 1 / (Nr * Nr - 1 + par)
        j = ctx.fresh("j")
        jr = z3.ToReal(j)
        qr = z3.ToReal(q)
        mid = (Nr - 3) / (2 * qr - 1) - 1 + w0 * ((2 - par) * Nr - 1)
        t = f"[n-1 {'odd' if par else 'even'}] "
        ctx.prove_eq(t + "spectrum below the middle", v.at(j), 2 / (1 - 4 * jr * jr) - w0, h + [j >= 0, j < q])
        ctx.prove_eq(t + "spectrum at the middle", v.at(q), mid, h)
        ctx.prove_eq(t + "spectrum symmetric", v.at(j), 2 / (1 - 4 * (Nr - jr) * (Nr - jr)) - w0, h + [j < N, j > q + par])
        if par:
            ctx.prove_eq(t + "spectrum at middle+1", v.at(q + 1), mid, h)
    ctx.canary()


# ---- dispatch, latitudes, longitudes, integrator (callees by contract)
RX = z3.Function("ruleX", INT, INT, INT, REAL, REAL, REAL)  # (rule id, n, i, a, b)
RW = z3.Function("ruleW", INT, INT, INT, REAL, REAL, REAL)
def RWs(r, n, i, a, b):
    """Weights are symmetric about the middle of the interval: canonical index."""
    return RW(r, n, z3.If(2 * i <= n - 1, i, n - 1 - i), a, b)


RULES = {"legendre_gauss_weights": 0, "lobatto_weights": 1, "clenshaw_curtiss_weights": 2, "trapezoidal_weights": 3}
GID = {"legendre-gauss": 0, "lobatto": 1, "equiangular": 2, "equiangular-trapezoidal": 3}


def rule_stubs(log):
    def mk(name, rid):
        def f(n, a=-1.0, b=1.0, periodic=False, **k):
            log.append((name, periodic))
            A, B = R(to_z3(a)), R(to_z3(b))
            r = rid + (10 if periodic else 0)
            return (SymTensor([n], lambda i: RX(r, Z(n), i, A, B), float64), SymTensor([n], lambda i: RWs(r, Z(n), i, A, B), float64))

        return f

    return {n: mk(n, r) for n, r in RULES.items()}


def mk_disp(grid, periodic):
    def proof(ctx):
        log = []
        m = Loader({MQ: rule_stubs(log)}).load(MQ)
        ctx.functions.add("quadrature._precompute_quadrature_weights")
        n = ctx.int("n", lo=2)
        a, b = affine(ctx)
        ok = grid in GID and (not periodic or grid == "equiangular-trapezoidal")
        try:
            x, w = m._precompute_quadrature_weights(n, grid=grid, a=a, b=b, periodic=periodic)
        except ValueError:
            ctx.prove("refused only when undocumented", not ok)
            ctx.canary()
            return
        ctx.prove("accepted only when documented", ok)
        if not ok:
            return
        i = ctx.idx("i", n)
        r = GID[grid] + (10 if periodic else 0)
        ctx.prove_eq("nodes of the named rule", x.at(i), RX(r, n.e, i, a.e, b.e))
        ctx.prove_eq("weights of the named rule", w.at(i), RWs(r, n.e, i, a.e, b.e))
        ctx.canary()

    return proof


def p_lon(ctx):
    m = Loader().load(MQ)
    ctx.functions.add("quadrature.precompute_longitudes")
    n = ctx.int("nlon", lo=1)
    y = m.precompute_longitudes(n)
    if not prove_shape(ctx, "longitudes", y, [n]):
        return
    i = ctx.idx("i", n)
    ctx.prove_eq("equispaced from zero", y.at(i), 2 * PI * z3.ToReal(i) / z3.ToReal(n.e))
    ctx.canary()


def mk_lat(grid):
    def proof(ctx):
        log = []
        m = Loader({MQ: rule_stubs(log)}).load(MQ)
        ctx.functions.add("quadrature.precompute_latitudes")
        n = ctx.int("nlat", lo=2)
        x, w = m.precompute_latitudes(n, grid)
        if not (prove_shape(ctx, "latitudes", x, [n]) and prove_shape(ctx, "weights", w, [n])):
            return
        i = ctx.idx("i", n)
        r = GID[grid]
        ctx.prove_eq("colatitude, north first", x.at(i), rfun("acos", RX(r, n.e, n.e - 1 - i, z3.RealVal(-1), z3.RealVal(1))))
        ctx.prove_eq("matching weight", w.at(i), RWs(r, n.e, n.e - 1 - i, z3.RealVal(-1), z3.RealVal(1)))
        ctx.canary()

    return proof


def mk_quad(grid, normalize, lead):
    def proof(ctx):
        log = []
        m = Loader({MQ: rule_stubs(log)}).load(MQ)
        ctx.functions.update(["quadrature.QuadratureS2.__init__", "quadrature.QuadratureS2.forward"])
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        q = m.QuadratureS2((nlat, nlon), grid=grid, normalize=normalize)
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        x = SymTensor.input("x", ld + [nlat, nlon])
        fr = Frame(q, x)
        y = q.forward(x)
        fr.prove(ctx)
        out = ld if lead >= 2 else [1] * (2 - lead) + ld
        if not prove_shape(ctx, "integral", y, out):
            return
        idx = [ctx.idx("i", d) if not isinstance(d, int) else z3.IntVal(0) for d in out]
        src = idx[len(idx) - lead :] if lead else []
        f = 2 * PI / R(nlon.e)
        if normalize:
            f = f / (4 * PI)
        ref = nested_sum([Z(nlat), Z(nlon)], lambda ks: f * RWs(GID[grid], nlat.e, ks[0], z3.RealVal(-1), z3.RealVal(1)) * R(x.at(*src, *ks)))
        ctx.prove_eq("weighted sum over the grid", y.at(*idx), ref)
        ctx.canary()

    return proof


PROOFS = [(f"trapezoidal_weights[periodic={p}]", mk_trap(p)) for p in (False, True)]
PROOFS += [("legendre_gauss_weights", p_gauss), ("lobatto_weights[arbitrary iterate]", mk_lob()), ("clenshaw_curtiss_weights", p_cc), ("precompute_longitudes", p_lon)]
PROOFS += [(f"_precompute_quadrature_weights[{g},periodic={p}]", mk_disp(g, p)) for g in list(GID) + [OtherName()] for p in (False, True)]
PROOFS += [(f"precompute_latitudes[{g}]", mk_lat(g)) for g in GID]
PROOFS += [(f"QuadratureS2[{g},normalize={z},lead={k}]", mk_quad(g, z, k)) for g in GID for z in (False, True) for k in (0, 1, 2, 3)]
