"""P09: resampling.  With X the input (extended by the ring means at the poles when an output latitude lies
outside the input rings), there are a(i), l(j) with
   theta_a <= theta_out_i <= theta_{a+1},   lam_l <= lam_out_j < lam_l + 2 pi/nlon_in
   Y[i,.] = mix(X[a,.], X[a+1,.], (theta_out_i - theta_a)/(theta_{a+1}-theta_a))
   out[i,j] = mix(Y[i,l], Y[i,(l+1) mod nlon_in], (lam_out_j - lam_l) / (2 pi/nlon_in))
mix linear, or with the slerp weights."""
from .common import *

MP = "torch_harmonics.resample"
MQ = "torch_harmonics.quadrature"
TH = opaque("gridlat", INT, INT, INT, REAL)
DL = opaque("dlon", INT, REAL)


class GridName(OtherName):
    """an arbitrary grid name (the resampler only compares the two names and hands them to the grid routine)"""

    def __init__(self, n):
        self.n = n


GA, GB = GridName(0), GridName(1)


def gid(g):
    if not isinstance(g, GridName):
        raise Unsupported(f"grid {g!r}: resampling decides on a literal grid name")
    return g.n


def lats_c(nlat, grid="equiangular"):
    """contract of precompute_latitudes (P05): strictly increasing colatitudes in [0, pi]"""
    g = z3.IntVal(gid(grid))
    n = Z(nlat)

    def fn(k):
        c = Ctx.cur
        for q in (k, z3.simplify(k + 1)):
            c.axiom(z3.Implies(z3.And(q >= 0, q < n), z3.And(TH(g, n, q) >= 0, TH(g, n, q) <= PI)))
        c.axiom(z3.Implies(z3.And(k >= 0, k + 1 < n), TH(g, n, k) < TH(g, n, z3.simplify(k + 1))))
        return TH(g, n, k)

    w = SymTensor.input(f"latw{gid(grid)}", [nlat], free=False)
    return SymTensor([nlat], fn, float64), w


def lons_c(nlon):
    """contract of precompute_longitudes (P05): lam_k = k * d, d = 2 pi / nlon"""
    n = Z(nlon)

    def fn(k):
        d = DL(n)
        c = Ctx.cur
        c.axiom(z3.And(d > 0, z3.ToReal(n) * d == 2 * PI))
        kd = z3.ToReal(k) * d
        c.axiom(z3.Implies(z3.And(k >= 0, k < n), z3.And(kd >= 0, kd + d <= 2 * PI)))
        return kd

    return SymTensor([nlon], fn, float64)


def mixspec(a, b, w, mode):
    if mode == "bilinear":
        return lambda: a + w * (b - a)
    om = b - a
    so = rfun("sin", om)
    return (lambda: rfun("sin", (1 - w) * om) / so * a + rfun("sin", w * om) / so * b), (lambda: (1 - w) * a + w * b), so


def setup(ctx, gi, go, mode, samegrid=False):
    m = Loader({MQ: dict(precompute_latitudes=lats_c, precompute_longitudes=lons_c)}).load(MP)
    ctx.functions.update(["resample.ResampleS2." + f for f in ("__init__", "forward", "_upscale_latitudes", "_upscale_longitudes", "_expand_poles")])
    ctx.assumptions.add("precompute_latitudes/precompute_longitudes by contract (P05); torch.searchsorted/lerp by contract; sin uninterpreted")
    ni, wi, no, wo = ctx.int("nlat_in", lo=2), ctx.int("nlon_in", lo=1), ctx.int("nlat_out", lo=2), ctx.int("nlon_out", lo=1)
    ctx.axiom(z3.And(PI > 3, PI < 4))
    if samegrid:
        no, wo = ni, wi
    op = m.ResampleS2(ni, wi, no, wo, grid_in=gi, grid_out=go, mode=mode)
    return op, ni, wi, no, wo


INV = ("lat_idx", "lat_weights", "lon_idx_left", "lon_idx_right", "lon_weights")


def poles(ctx, op):
    ext = op.expand_poles
    ext = as_z3bool(ext.at() if isinstance(ext, SymTensor) else (ext.e if is_sym(ext) else z3.BoolVal(bool(ext))))
    if ctx.entails(ext):
        return True
    if ctx.entails(z3.Not(ext)):
        return False
    raise Unsupported("pole extension undecided on a path")


def names(op):
    for n in INV + ("expand_poles", "skip_resampling"):
        if not hasattr(op, n):
            raise Unsupported(f"module attribute {n} named by the invariant is not there")


def mk_init(gi, go):
    """constructor establishes the data invariant: enclosing nodes and weights"""

    def proof(ctx):
        op, ni, wi, no, wo = setup(ctx, gi, go, "bilinear")
        names(op)
        E = poles(ctx, op)
        g1, g2 = z3.IntVal(gid(gi)), z3.IntVal(gid(go))
        i, j = ctx.idx("i", no), ctx.idx("j", wo)
        # pole extension exactly when an output latitude lies outside the input rings
        first, last = TH(g1, Z(ni), z3.IntVal(0)), TH(g1, Z(ni), z3.simplify(Z(ni) - 1))
        to = TH(g2, Z(no), Z(i))
        if not E:
            ctx.prove("no extension: outputs inside the rings", z3.And(to >= first, to <= last))
            lemma = z3.And(to >= first, to <= last)
        else:
            q = z3.Int("q!ext")
            ctx.prove("extension only if an output lies outside the rings", z3.Exists([q], z3.And(q >= 0, q < Z(no), z3.Or(TH(g2, Z(no), q) < first, TH(g2, Z(no), q) > last))))
            lemma = z3.BoolVal(True)
        a = Z(wrap(op.lat_idx.at(i)))
        l, r = Z(wrap(op.lon_idx_left.at(j))), Z(wrap(op.lon_idx_right.at(j)))
        # what follows is proved from the bounds and the lemma alone, without the branch conditions of this path,
        # so it is needed once per distinct state
        ctx.reset_facts(axioms=False)
        ctx.axiom(lemma)
        key = (E, str(a), str(l), str(r), str(op.lat_weights.at(i, 0)), str(op.lon_weights.at(j)))
        ctx.states = getattr(ctx, "states", set())
        if key in ctx.states:
            return
        ctx.states.add(key)
        nx = Z(ni) + 2 if E else Z(ni)

        def th(k):
            k = z3.simplify(k)
            if not E:
                return lats_c(ni, gi)[0].at(k)
            return z3.If(k == 0, z3.RealVal(0), z3.If(k == nx - 1, PI, lats_c(ni, gi)[0].at(k - 1)))

        ctx.prove("enclosing rings exist", z3.And(a >= 0, a + 1 < nx))
        ctx.prove("enclosing rings", z3.And(th(a) <= to, to <= th(a + 1)))
        d = DL(Z(wi))
        lam = z3.ToReal(Z(j)) * DL(Z(wo))
        ctx.prove("enclosing meridians exist", z3.And(l >= 0, l < Z(wi)))
        ctx.prove("enclosing meridians", z3.And(z3.ToReal(l) * d <= lam, z3.Implies(l + 1 < Z(wi), lam < z3.ToReal(l + 1) * d)))
        ctx.prove("periodic right neighbour", r == z3.If(l + 1 == Z(wi), z3.IntVal(0), l + 1))
        if not prove_shape(ctx, "latitude weights", op.lat_weights, [no, 1]) or not prove_shape(ctx, "longitude weights", op.lon_weights, [wo]):
            return
        prove_shape(ctx, "latitude nodes", op.lat_idx, [no])
        prove_shape(ctx, "longitude nodes", op.lon_idx_left, [wo])
        # weight * interval = distance; interval positive
        da, dl = th(a + 1) - th(a), d
        split = [("north cap", a == 0), ("south cap", a == nx - 2), ("between rings", z3.And(a > 0, a < nx - 2))] if E else [("between rings", z3.And(a >= 0, a + 1 < nx))]
        for nm, h in split:
            ctx.prove_eq(f"latitude weight, {nm}", op.lat_weights.at(i, 0), (to - th(a)) / da, [h])
        wl = (lam - z3.ToReal(l) * d) / d
        ctx.prove_eq("longitude weight, interior", op.lon_weights.at(j), wl, [l + 1 < Z(wi)])
        ctx.prove_eq("longitude weight, last interval", op.lon_weights.at(j), wl, [l == Z(wi) - 1])
        ctx.canary()

    return proof


def spherical(ctx, op, x, ld, E, ni, wi, no, wo):
    """the two interpolation steps as methods on an arbitrary field, then their composition"""
    for n in ("_upscale_latitudes", "_upscale_longitudes", "_expand_poles"):
        if not hasattr(op, n):
            raise Unsupported(f"method {n} named by the contract is not there")
    big = lambda s: z3.Or(s > z3.Q(1, 1000), s < -z3.Q(1, 1000))

    def value(nm, got, p, q, w, hy):
        T = mixspec(p, q, w, "bilinear-spherical")
        ctx.prove_eq(f"{nm}: slerp weights", got, T[0](), hy + [big(T[2])])
        ctx.prove_eq(f"{nm}: linear weights at zero angle", got, T[1](), hy + [T[2] == 0])

    nx = wrap(z3.simplify(Z(ni) + 2)) if E else ni
    b = [ctx.idx("b", q) for q in ld]
    u = SymTensor.input("u", ld + [nx, wi], dtype=float64)
    fr = Frame(op, u)
    r = op._upscale_latitudes(u)
    fr.prove(ctx)
    if not prove_shape(ctx, "latitude step", r, ld + [no, wi]):
        return
    i, k = ctx.idx("i", no), ctx.idx("k", wi)
    a = Z(wrap(op.lat_idx.at(i)))
    value("latitude step", r.at(*b, i, k), u.at(*b, a, k), u.at(*b, z3.simplify(a + 1), k), op.lat_weights.at(i, 0), [])
    v = SymTensor.input("v", ld + [no, wi], dtype=float64)
    fr = Frame(op, v)
    r = op._upscale_longitudes(v)
    fr.prove(ctx)
    if not prove_shape(ctx, "longitude step", r, ld + [no, wo]):
        return
    j = ctx.idx("j", wo)
    l = Z(wrap(op.lon_idx_left.at(j)))
    value("longitude step, interior", r.at(*b, i, j), v.at(*b, i, l), v.at(*b, i, z3.simplify(l + 1)), op.lon_weights.at(j), [l + 1 < Z(wi)])
    value("longitude step, periodic", r.at(*b, i, j), v.at(*b, i, l), v.at(*b, i, 0), op.lon_weights.at(j), [l == Z(wi) - 1])
    # composition
    log = []

    def stub(n, sh):
        def f(t):
            o = SymTensor.input(f"step{len(log)}", ld + sh, dtype=float64, free=False)
            log.append((n, t, o))
            return o

        return f

    op._upscale_latitudes, op._upscale_longitudes = stub("lat", [no, wi]), stub("lon", [no, wo])
    y = op.forward(x)
    if [e[0] for e in log] != ["lat", "lon"]:
        raise Unsupported("order of the interpolation steps")
    ctx.prove("longitude step last", y is log[1][2])
    t, o = log[1][1], log[0][2]
    if prove_shape(ctx, "input of the longitude step", t, ld + [no, wi]):
        ctx.prove_eq("longitude step applies to the latitude step", t.at(*b, i, k), o.at(*b, i, k))
    t = log[0][1]
    if prove_shape(ctx, "input of the latitude step", t, ld + [nx, wi]):
        if not E:
            h = ctx.idx("h", ni)
            ctx.prove_eq("latitude step applies to the input", t.at(*b, h, k), x.at(*b, h, k))
        else:
            mean = lambda q: nested_sum([wi], lambda c: x.at(*b, q, c[0])) / z3.ToReal(Z(wi))
            h = ctx.idx("h", ni)
            ctx.prove_eq("rings", t.at(*b, z3.simplify(Z(h) + 1), k), x.at(*b, h, k))
            ctx.prove_eq("north pole is the ring mean", t.at(*b, 0, k), mean(z3.IntVal(0)))
            ctx.prove_eq("south pole is the ring mean", t.at(*b, z3.simplify(Z(ni) + 1), k), mean(z3.simplify(Z(ni) - 1)))
    ctx.canary()


def mk_fwd(mode, lead, E):
    """forward, assuming the invariant (arbitrary buffers that satisfy it)"""

    def proof(ctx):
        m = Loader({MQ: dict(precompute_latitudes=lats_c, precompute_longitudes=lons_c)}).load(MP)
        ctx.functions.update(["resample.ResampleS2." + f for f in ("forward", "_upscale_latitudes", "_upscale_longitudes", "_expand_poles")])
        ctx.assumptions.add("sin uninterpreted")
        ni, wi, no, wo = ctx.int("nlat_in", lo=2), ctx.int("nlon_in", lo=1), ctx.int("nlat_out", lo=2), ctx.int("nlon_out", lo=1)
        # any constructed object; its state is then replaced by an arbitrary one satisfying the invariant
        op = m.ResampleS2(ni, wi, no, wo, grid_in=GA, grid_out=GB, mode=mode)
        names(op)
        if not ctx.only_one_prefix():  # state is replaced below: every constructor path gives the same obligations
            return
        ctx.reset_facts()
        nx = Z(ni) + 2 if E else Z(ni)
        op.expand_poles, op.skip_resampling = E, False
        LI, LL = z3.Function("a_idx", INT, INT), z3.Function("l_idx", INT, INT)

        def li_(i):
            Ctx.cur.axiom(z3.Implies(z3.And(i >= 0, i < Z(no)), z3.And(LI(i) >= 0, LI(i) + 1 < nx)))
            return LI(i)

        def ll_(j):
            Ctx.cur.axiom(z3.Implies(z3.And(j >= 0, j < Z(wo)), z3.And(LL(j) >= 0, LL(j) < Z(wi))))
            return LL(j)

        op.lat_idx = SymTensor([no], li_, int64)
        op.lon_idx_left = SymTensor([wo], ll_, int64)
        op.lon_idx_right = SymTensor([wo], lambda j: z3.If(ll_(j) + 1 == Z(wi), z3.IntVal(0), LL(j) + 1), int64)
        op.lat_weights = SymTensor.input("wlat", [no, 1], dtype=float32)
        op.lon_weights = SymTensor.input("wlon", [wo], dtype=float32)
        ld = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        x = SymTensor.input("x", ld + [ni, wi], dtype=float64)
        if mode != "bilinear":
            return spherical(ctx, op, x, ld, E, ni, wi, no, wo)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        if not prove_shape(ctx, "output", y, ld + [no, wo]):
            return
        i, j = ctx.idx("i", no), ctx.idx("j", wo)
        li = [ctx.idx("b", q) for q in ld]

        def mean(r):
            return nested_sum([wi], lambda q: x.at(*li, r, q[0])) / z3.ToReal(Z(wi))

        def X(k, q, cap):
            k = z3.simplify(k)
            if not E:
                return x.at(*li, k, q)
            return mean(z3.IntVal(0)) if cap == "n" else mean(z3.simplify(Z(ni) - 1)) if cap == "s" else x.at(*li, z3.simplify(k - 1), q)

        a, l = Z(wrap(op.lat_idx.at(i))), Z(wrap(op.lon_idx_left.at(j)))
        split = [("north cap", a == 0, "n", ""), ("south cap", a == nx - 2, "", "s"), ("between rings", z3.And(a > 0, a < nx - 2), "", "")] if E else [("between rings", z3.And(a >= 0, a + 1 < nx), "", "")]
        wa, wl = op.lat_weights.at(i, 0), op.lon_weights.at(j)
        yv = y.at(*li, i, j)
        for nm, h, c0, c1 in split:
            for ln, lh, r in (("interior", l + 1 < Z(wi), z3.simplify(l + 1)), ("periodic", l == Z(wi) - 1, z3.IntVal(0))):
                S = {q: mixspec(X(a, mm, c0), X(a + 1, mm, c1), wa, mode) for q, mm in (("left", l), ("right", r))}
                ctx.prove_eq(f"bilinear value, {nm}, {ln}", yv, mixspec(S["left"](), S["right"](), wl, mode)(), [h, lh])
        ctx.canary()

    return proof


def mk_skip(gi, go):
    """resampling is skipped exactly for identical grids"""

    def proof(ctx):
        op, ni, wi, no, wo = setup(ctx, gi, go, "bilinear")
        names(op)
        sk = op.skip_resampling
        sk = as_z3bool(sk.e if is_sym(sk) else z3.BoolVal(bool(sk)))
        ctx.prove("skipped iff identical", sk == (z3.And(Z(ni) == Z(no), Z(wi) == Z(wo)) if gi == go else z3.BoolVal(False)))
        ctx.canary()

    return proof


def mk_same(g, mode):
    def proof(ctx):
        op, ni, wi, no, wo = setup(ctx, g, g, mode, True)
        x = SymTensor.input("x", [ctx.int("d", lo=1), ni, wi], dtype=float64)
        y = op.forward(x)
        if prove_shape(ctx, "output", y, list(x.shape)):
            i = [ctx.idx("i", s) for s in x.shape]
            ctx.prove_eq("same grid: input unchanged", y.at(*i), x.at(*i))
        ctx.canary()

    return proof


def rej(ctx):
    m = Loader({MQ: dict(precompute_latitudes=lats_c, precompute_longitudes=lons_c)}).load(MP)
    ctx.canary()
    try:
        m.ResampleS2(ctx.int("a", lo=2), ctx.int("b", lo=1), ctx.int("c", lo=2), ctx.int("d", lo=1), grid_in=GA, grid_out=GB, mode=OtherName())
    except (NotImplementedError, ValueError):
        ctx.prove("unknown mode refused", True)
        return
    ctx.prove("unknown mode refused", False)


PAIRS = (("equal grids", GA, GA), ("different grids", GA, GB))
PROOFS = [(f"ResampleS2.__init__[{n}]", mk_init(a, b)) for n, a, b in PAIRS]
PROOFS += [(f"ResampleS2 skip[{n}]", mk_skip(a, b)) for n, a, b in PAIRS]
PROOFS += [(f"ResampleS2.forward[{m},lead={l},poles={'extended' if e else 'inside'}]", mk_fwd(m, l, e)) for m in ("bilinear", "bilinear-spherical") for l in (0, 1, 2) for e in (False, True)]
PROOFS += [(f"ResampleS2[{m},same grid]", mk_same(GA, m)) for m in ("bilinear", "bilinear-spherical")]
PROOFS.append(("ResampleS2[unknown mode]", rej))
