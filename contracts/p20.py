"""P20: relational proofs - the distributed module on an arbitrary rank of an arbitrary process grid
returns that rank's slice of what the serial module returns on the assembled input.  Both modules
are executed symbolically; the primitives are used through their P19 contracts."""
from .shtspec import *
from vp import symdist as sd
from vp.symdist import GSizes

PR = "torch_harmonics.distributed.primitives"
DS = "torch_harmonics.distributed."


def env(ctx, polar=True, azimuth=True, extra=None):
    o = overrides(extra)
    o[PR] = sd.primitive_contracts()
    ld = Loader(o)
    d = sd.setup(ctx, ld, polar=polar, azimuth=azimuth)
    ctx.assumptions.add(CALLEES)
    ctx.assumptions.add("communication primitives by their contract (P19), partition by its contract (P02)")
    return ld, d


class One:
    """the trivial partition (no process group)"""

    def __init__(self, n):
        self.n = Z(n)

    def S(self, r):
        return self.n

    def OFF(self, r):
        return z3.IntVal(0)


def part(n, g):
    return GSizes.get(n, g.P) if g is not None else One(n)


def rk(g):
    return g.r.e if g is not None else z3.IntVal(0)


def psize(g):
    return g.P.e if g is not None else z3.IntVal(1)


def local(X, ld, shape, dt, rows, cols, gp, ga):
    """this rank's slice of X along its last two dimensions"""
    rp, ra = rk(gp), rk(ga)
    sh = list(shape[:-2]) + [wrap(z3.simplify(rows.S(rp))), wrap(z3.simplify(cols.S(ra)))]
    return SymTensor(sh, lambda *i: X.at(*i[:-2], rows.OFF(rp) + i[-2], cols.OFF(ra) + i[-1]), dt)


def compare(ctx, what, y, Y, rows, cols, gp, ga, vec=False):
    rp, ra = rk(gp), rk(ga)
    sh = list(Y.shape[:-2]) + [rows.S(rp), cols.S(ra)]
    ctx.prove(f"{what}: type", y.dtype is Y.dtype)
    if not prove_shape(ctx, what, y, sh):
        return
    i = [ctx.idx("i", s) for s in sh]
    for c in (0, 1) if vec else (None,):
        if vec:
            i[-3] = z3.IntVal(c)
        ctx.prove_eq(f"{what}: this rank's slice of the serial result{'' if c is None else f' [component {c}]'}", y.at(*i), Y.at(*i[:-2], rows.OFF(rp) + i[-2], cols.OFF(ra) + i[-1]))


def refusal(ctx, pairs):
    """refused only if some extent has fewer elements than processes"""
    ctx.prove("refused only when an extent has fewer elements than processes", z3.Or([Z(n) < p for n, p in pairs]))
    ctx.canary()


def mk_sht(name, grid, norm, cs, hl, hm, lead, pol, azi, dt):
    vec = "Vector" in name
    inv = "Inverse" in name

    def proof(ctx):
        ld, d = env(ctx, pol, azi)
        gp, ga = d.polar, d.azimuth
        ctx.functions.update([f"distributed.distributed_sht.Distributed{name}.__init__", f"distributed.distributed_sht.Distributed{name}.forward", f"sht.{name}.forward", "distributed.primitives.flatten_and_pad_leading_dims", "distributed.primitives.unpad_and_unflatten_leading_dims"])
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        lmax, mmax = cuts(ctx, hl, hm)
        L = cut(nlat, nlon, lmax, mmax, grid)
        ctx.assume(L >= 1)
        kw = dict(lmax=lmax, mmax=mmax, grid=grid, norm=norm, csphase=cs)
        ser = getattr(ld.load(MS), name)(nlat, nlon, **kw)
        M = ld.load(DS + "distributed_sht")
        d.ready()
        try:
            op = getattr(M, "Distributed" + name)(nlat, nlon, **kw)
        except (RuntimeError, ValueError):
            return refusal(ctx, [(nlat, psize(gp)), (nlon, psize(ga)), (L, psize(gp)), (L, psize(ga))])
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        Lw = wrap(z3.simplify(L))
        for n, g in ((nlat, gp), (nlon, ga), (Lw, gp), (Lw, ga)):
            ctx.assume(Z(n) >= psize(g))
        d.ready()
        ldm = [ctx.int(f"d{k}", lo=1) for k in range(lead)] + ([2] if vec else [])
        lat, lon, ls, ms = part(nlat, gp), part(nlon, ga), part(op.lmax, gp), part(op.mmax, ga)
        a, b = ((ls, ms), (lat, lon)) if inv else ((lat, lon), (ls, ms))
        X = SymTensor.input("X", ldm + ([op.lmax, op.mmax] if inv else [nlat, nlon]), dt)
        x = local(X, ld, X.shape, dt, *a, gp, ga)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        Y = ser.forward(X)
        compare(ctx, "output", y, Y, *b, gp, ga, vec)
        ctx.canary()

    return proof


PROOFS = []
for nm in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
    dt = complex128 if "Inverse" in nm else float64
    for grid in SHTGRIDS:
        PROOFS.append((f"Distributed{nm}[{grid}, full process grid]", mk_sht(nm, grid, "ortho", True, 0, 0, 1, True, True, dt)))
    PROOFS.append((f"Distributed{nm}[options, cut-offs given]", mk_sht(nm, "equiangular", OtherName(), False, 1, 1, 1, True, True, dt)))
    PROOFS.append((f"Distributed{nm}[polar only]", mk_sht(nm, "equiangular", "ortho", True, 0, 0, 1, True, False, dt)))
    PROOFS.append((f"Distributed{nm}[azimuth only]", mk_sht(nm, "equiangular", "ortho", True, 0, 0, 1, False, True, dt)))
    PROOFS.append((f"Distributed{nm}[no process group]", mk_sht(nm, "equiangular", "ortho", True, 0, 0, 1, False, False, dt)))


# ------------------------------------------------------------------ quadrature
def mk_quad(grid, normalize, lead, pol, azi):
    def proof(ctx):
        ld, d = env(ctx, pol, azi)
        gp, ga = d.polar, d.azimuth
        ctx.functions.update(["distributed.distributed_quadrature.DistributedQuadratureS2.__init__", "distributed.distributed_quadrature.DistributedQuadratureS2.forward", "quadrature.QuadratureS2.forward"])
        nlat, nlon = ctx.int("nlat", lo=2), ctx.int("nlon", lo=1)
        ser = ld.load(MQ).QuadratureS2((nlat, nlon), grid=grid, normalize=normalize)
        M = ld.load(DS + "distributed_quadrature")
        d.ready()
        try:
            op = M.DistributedQuadratureS2((nlat, nlon), grid=grid, normalize=normalize)
        except (RuntimeError, ValueError):
            return refusal(ctx, [(nlat, psize(gp)), (nlon, psize(ga))])
        for n, g in ((nlat, gp), (nlon, ga)):
            ctx.assume(Z(n) >= psize(g))
        d.ready()
        ldm = [ctx.int(f"d{k}", lo=1) for k in range(lead)]
        X = SymTensor.input("X", ldm + [nlat, nlon])
        x = local(X, ld, X.shape, X.dtype, part(nlat, gp), part(nlon, ga), gp, ga)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        Y = ser.forward(X)
        ctx.prove("type", y.dtype is Y.dtype)
        if not prove_shape(ctx, "integral", y, list(Y.shape)):
            return
        i = [ctx.idx("i", s) for s in Y.shape]
        ctx.prove_eq("every rank holds the integral over the whole sphere", y.at(*i), Y.at(*i))
        ctx.canary()

    return proof


GROUPS = (("full process grid", True, True), ("polar only", True, False), ("azimuth only", False, True), ("no process group", False, False))
for grid in SHTGRIDS:
    for z in (False, True):
        PROOFS.append((f"DistributedQuadratureS2[{grid}, normalize={z}]", mk_quad(grid, z, 2, True, True)))
for nm, p, a in GROUPS:
    PROOFS.append((f"DistributedQuadratureS2[{nm}]", mk_quad("equiangular", False, 3, p, a)))


# ------------------------------------------------------------------ resampling
from .p09 import lats_c, lons_c, GA, GB, MP, INV, names, poles


MIX = opaque("mix", REAL, REAL, REAL, REAL)


def lats_any(nlat, grid="equiangular"):
    return SymTensor.input("anylat", [nlat], free=False), SymTensor.input("anyw", [nlat], free=False)


def lons_any(nlon):
    return SymTensor.input("anylon", [nlon], free=False)


def rsetup(ctx, mode, pol, azi, gi, go, same=False, quiet=False):
    ld, d = env(ctx, pol, azi, {MQ: dict(precompute_latitudes=lats_any, precompute_longitudes=lons_any) if quiet else dict(precompute_latitudes=lats_c, precompute_longitudes=lons_c)})
    ctx.functions.update([f"{m}.{f}" for m in ("distributed.distributed_resample.DistributedResampleS2", "resample.ResampleS2") for f in ("__init__", "forward", "_upscale_latitudes", "_upscale_longitudes", "_expand_poles")])
    ctx.assumptions.add("precompute_latitudes/precompute_longitudes by contract (P05); torch.searchsorted/lerp by contract; sin uninterpreted")
    ni, wi, no, wo = ctx.int("nlat_in", lo=2), ctx.int("nlon_in", lo=1), ctx.int("nlat_out", lo=2), ctx.int("nlon_out", lo=1)
    if same:
        no, wo = ni, wi
    gp, ga = d.polar, d.azimuth
    if quiet:  # the refusal of the other sizes is decided with the constructor
        for n, g in ((ni, gp), (wi, ga), (no, gp), (wo, ga)):
            ctx.assume(Z(n) >= psize(g))
    M = ld.load(DS + "distributed_resample")
    d.ready()
    mkd = lambda: M.DistributedResampleS2(ni, wi, no, wo, grid_in=gi, grid_out=go, mode=mode)
    mks = lambda: ld.load(MP).ResampleS2(ni, wi, no, wo, grid_in=gi, grid_out=go, mode=mode)
    if quiet:
        op, ser = ctx.quietly(mkd), ctx.quietly(mks)
    else:
        ctx.axiom(z3.And(PI > 3, PI < 4))
        try:
            op = mkd()
        except (RuntimeError, ValueError):
            refusal(ctx, [(ni, psize(gp)), (wi, psize(ga)), (no, psize(gp)), (wo, psize(ga))])
            return None
        ser = mks()
    names(ser)
    names(op)
    return ld, d, ser, op, ni, wi, no, wo


def mk_rinit(gi, go):
    """the constructor of the distributed module establishes the state of the serial one"""

    def proof(ctx):
        r = rsetup(ctx, "bilinear", True, True, gi, go)
        if r is None:
            return
        ld, d, ser, op, ni, wi, no, wo = r
        for n in INV:
            a, b = getattr(op, n), getattr(ser, n)
            ctx.prove(f"{n}: type", a.dtype is b.dtype)
            if prove_shape(ctx, n, a, list(b.shape)):
                i = [ctx.idx("i", s) for s in b.shape]
                ctx.prove_eq(f"{n} as in the serial module", a.at(*i), b.at(*i))
        bz = lambda e: as_z3bool(e.at() if isinstance(e, SymTensor) else (e.e if is_sym(e) else z3.BoolVal(bool(e))))
        for n in ("expand_poles", "skip_resampling"):
            ctx.prove(f"{n} as in the serial module", bz(getattr(op, n)) == bz(getattr(ser, n)))
        ctx.canary()

    return proof


def mk_rfwd(mode, lead, E, pol, azi):
    """forward on arbitrary state satisfying the invariant, shared by both modules"""

    def proof(ctx):
        ld, d, ser, op, ni, wi, no, wo = rsetup(ctx, mode, pol, azi, GA, GB, quiet=True)
        gp, ga = d.polar, d.azimuth
        if not ctx.only_one_prefix():
            return
        ctx.reset_facts()
        for n, g in ((ni, gp), (wi, ga), (no, gp), (wo, ga)):
            ctx.assume(Z(n) >= psize(g))
        for g in (gp, ga):
            if g is not None:
                ctx.assume(z3.And(g.r.e >= 0, g.r.e < g.P.e))
        d.ready()
        nx = Z(ni) + 2 if E else Z(ni)
        LI, LL = z3.Function("a_idx", INT, INT), z3.Function("l_idx", INT, INT)

        def li_(i):
            Ctx.cur.axiom(z3.Implies(z3.And(i >= 0, i < Z(no)), z3.And(LI(i) >= 0, LI(i) + 1 < nx)))
            return LI(i)

        def ll_(j):
            Ctx.cur.axiom(z3.Implies(z3.And(j >= 0, j < Z(wo)), z3.And(LL(j) >= 0, LL(j) < Z(wi))))
            return LL(j)

        for o in (ser, op):
            o.expand_poles, o.skip_resampling = E, False
            o.lat_idx = SymTensor([no], li_, int64)
            o.lon_idx_left = SymTensor([wo], ll_, int64)
            o.lon_idx_right = SymTensor([wo], lambda j: z3.If(ll_(j) + 1 == Z(wi), z3.IntVal(0), LL(j) + 1), int64)
            o.lat_weights = SymTensor.input("wlat", [no, 1], dtype=float32)
            o.lon_weights = SymTensor.input("wlon", [wo], dtype=float32)
        ch = ctx.int("chan", lo=1)
        for g in (gp, ga):
            ctx.assume(ch.e >= psize(g))
        if mode != "bilinear":
            # the two interpolation steps by contract: pointwise, a fixed function of the two neighbours and the
            # weight; both modules' methods agree on an arbitrary tensor
            for nm, sh, ix in (("_upscale_latitudes", [wrap(z3.simplify(nx)), ctx.int("anyw", lo=1)], 0), ("_upscale_longitudes", [ctx.int("anyh", lo=1), wi], 1)):
                T = SymTensor.input("T" + nm, [ctx.int("anyc", lo=1)] + sh, dtype=float64)
                a, b = getattr(op, nm)(T), getattr(ser, nm)(T)
                if prove_shape(ctx, nm, a, list(b.shape)):
                    i = [ctx.idx("i", q) for q in b.shape]
                    ctx.prove_eq(f"{nm} as in the serial module", a.at(*i), b.at(*i))
            for o in (ser, op):
                o._upscale_latitudes = lambda t: SymTensor(list(t.shape[:-2]) + [no, t.shape[-1]], lambda *i: MIX(t.at(*i[:-2], li_(i[-2]), i[-1]), t.at(*i[:-2], li_(i[-2]) + 1, i[-1]), op.lat_weights.at(i[-2], 0)), t.dtype)
                o._upscale_longitudes = lambda t: SymTensor(list(t.shape[:-1]) + [wo], lambda *i: MIX(t.at(*i[:-1], ll_(i[-1])), t.at(*i[:-1], Z(wrap(op.lon_idx_right.at(i[-1])))), op.lon_weights.at(i[-1])), t.dtype)
        ldm = [ctx.int(f"d{k}", lo=1) for k in range(lead)] + [ch]
        X = SymTensor.input("X", ldm + [ni, wi], dtype=float64)
        x = local(X, ld, X.shape, X.dtype, part(ni, gp), part(wi, ga), gp, ga)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        Y = ser.forward(X)
        compare(ctx, "output", y, Y, part(no, gp), part(wo, ga), gp, ga)
        ctx.canary()

    return proof


def mk_rskip(ctx):
    r = rsetup(ctx, "bilinear", True, True, GA, GA, True)
    if r is None:
        return
    ld, d, ser, op, ni, wi, no, wo = r
    gp, ga = d.polar, d.azimuth
    for n, g in ((ni, gp), (wi, ga)):
        ctx.assume(Z(n) >= psize(g))
    X = SymTensor.input("X", [ctx.int("d0", lo=1), ni, wi], dtype=float64)
    x = local(X, ld, X.shape, X.dtype, part(ni, gp), part(wi, ga), gp, ga)
    y = op.forward(x)
    compare(ctx, "output", y, ser.forward(X), part(no, gp), part(wo, ga), gp, ga)
    ctx.canary()


PROOFS += [(f"DistributedResampleS2.__init__[{n}]", mk_rinit(a, b)) for n, a, b in (("equal grid names", GA, GA), ("different grid names", GA, GB))]
PROOFS.append(("DistributedResampleS2[same grid]", mk_rskip))
for mode in ("bilinear", "bilinear-spherical"):
    for E in (False, True):
        PROOFS.append((f"DistributedResampleS2.forward[{mode}, poles={'extended' if E else 'inside'}]", mk_rfwd(mode, 1, E, True, True)))
PROOFS.append(("DistributedResampleS2.forward[polar only]", mk_rfwd("bilinear", 0, True, True, False)))
PROOFS.append(("DistributedResampleS2.forward[azimuth only]", mk_rfwd("bilinear", 0, True, False, True)))


# ------------------------------------------------------------------ spectral convolution
from . import p08


class DOp(Module):
    """a distributed transform by its contract (proved above): on this rank's slice of the serial argument it
    returns this rank's slice of the serial result"""

    kind = ""

    def __init__(self, nlat, nlon, lmax=None, mmax=None, grid="equiangular", **k):
        d = sd.Dist.cur
        self.nlat, self.nlon, self.grid = nlat, nlon, grid
        self.lmax = self.mmax = p08._cfg(nlat, nlon, lmax, mmax, grid, k)
        P, A = d.polar.P, d.azimuth.P
        self.lat_shapes, self.lon_shapes = sd.compute_split_shapes(nlat, P), sd.compute_split_shapes(nlon, A)
        self.l_shapes, self.m_shapes = sd.compute_split_shapes(self.lmax, P), sd.compute_split_shapes(self.mmax, A)

    def forward(self, x):
        ctx, d = Ctx.cur, sd.Dist.cur
        gp, ga = d.polar, d.azimuth
        _, so, sx, S = p08.the(ctx, self.kind)
        ctx.prove(f"{self.kind}: same transform as in the serial module", z3.And(so.grid == self.grid, Z(so.nlat) == Z(self.nlat), Z(so.nlon) == Z(self.nlon), Z(so.lmax) == Z(self.lmax)))
        sp, sc = (self.lat_shapes, self.lon_shapes), (self.l_shapes, self.m_shapes)
        i, o = (sp, sc) if self.kind == "sht" else (sc, sp)
        compare(ctx, f"{self.kind} argument", x, sx, *i, gp, ga)
        return local(S, None, S.shape, S.dtype, *o, gp, ga)


class DSHT(DOp):
    kind = "sht"


class DISHT(DOp):
    kind = "isht"


class DQUAD(Module):
    def __init__(self, img_shape, grid="equiangular", normalize=False):
        d = sd.Dist.cur
        self.s, self.grid, self.normalize = img_shape, grid, normalize
        self.lat_shapes, self.lon_shapes = sd.compute_split_shapes(img_shape[0], d.polar.P), sd.compute_split_shapes(img_shape[1], d.azimuth.P)

    def forward(self, x):
        ctx, d = Ctx.cur, sd.Dist.cur
        _, qo, qx, Q = p08.the(ctx, "quad")
        ctx.prove("quadrature: same rule as in the serial module", z3.And(qo.grid == self.grid, qo.normalize == self.normalize, Z(qo.s[0]) == Z(self.s[0]), Z(qo.s[1]) == Z(self.s[1])))
        compare(ctx, "quadrature argument", x, qx, self.lat_shapes, self.lon_shapes, d.polar, d.azimuth)
        return SymTensor(Q.shape, lambda *i: Q.at(*i), Q.dtype)


def mk_spec(gi, go, bias, dt):
    def proof(ctx):
        p08.Op.log = []
        ld, d = env(ctx, True, True, {MS: dict(RealSHT=p08.SHT, InverseRealSHT=p08.ISHT), MQ: dict(QuadratureS2=p08.QUAD), DS + "distributed_sht": dict(DistributedRealSHT=DSHT, DistributedInverseRealSHT=DISHT), DS + "distributed_quadrature": dict(DistributedQuadratureS2=DQUAD)})
        gp, ga = d.polar, d.azimuth
        ctx.functions.update([f"distributed.distributed_spectral_convolution.DistributedSpectralConvS2.{f}" for f in ("__init__", "forward", "_contract_lwise")] + ["spectral_convolution.SpectralConvS2.forward"])
        ctx.assumptions.add("distributed transforms and quadrature by contract (proved in this property); torch.compile preserves semantics")
        n1, n2, k1, k2 = ctx.int("nlat_in", lo=2), ctx.int("nlon_in", lo=1), ctx.int("nlat_out", lo=2), ctx.int("nlon_out", lo=1)
        G, ci, co = ctx.int("groups", lo=1), ctx.int("ci", lo=1), ctx.int("co", lo=1)
        Ci, Co = (wrap(z3.simplify(Z(G) * Z(c))) for c in (ci, co))
        L = Min(cut(n1, n2, None, None, gi), cut(k1, k2, None, None, go))
        ctx.assume(L >= 1)
        a = ((n1, n2), (k1, k2), Ci, Co)
        kw = dict(num_groups=G, grid_in=gi, grid_out=go, bias=bias)
        ser = ld.load(p08.MC).SpectralConvS2(*a, **kw)
        M = ld.load(DS + "distributed_spectral_convolution")
        d.ready()
        try:
            op = M.DistributedSpectralConvS2(*a, **kw)
        except (RuntimeError, ValueError):
            return refusal(ctx, [(n1, psize(gp)), (n2, psize(ga)), (k1, psize(gp)), (k2, psize(ga)), (L, psize(gp)), (L, psize(ga))])
        d.ready()
        ctx.prove("module cut-offs", z3.And(Z(op.lmax) == L, Z(op.mmax) == L))
        ls, ms = part(op.lmax, gp), part(op.mmax, ga)
        rp, ra = rk(gp), rk(ga)
        if not (prove_shape(ctx, "weight", op.weight, [G, ci, co, ls.S(rp)]) and prove_shape(ctx, "serial weight", ser.weight, [G, ci, co, L])):
            return
        W = SymTensor.input("W", ser.weight.shape, dtype=complex64)
        ser.weight = W
        op.weight = SymTensor(op.weight.shape, lambda *i: W.at(*i[:-1], ls.OFF(rp) + i[-1]), complex64)
        if bias:
            if not prove_shape(ctx, "bias", op.spectral_bias, [1, Ci, ls.S(rp), ms.S(ra)]):
                return
            bs = SymTensor.input("bias", ser.spectral_bias.shape, dtype=complex64)
            ser.spectral_bias = bs
            op.spectral_bias = local(bs, ld, bs.shape, complex64, ls, ms, gp, ga)
        X = SymTensor.input("X", [ctx.int("B", lo=1), Ci, n1, n2], dtype=dt)
        x = local(X, ld, X.shape, dt, part(n1, gp), part(n2, ga), gp, ga)
        Y = ser.forward(X)
        fr = Frame(op, x)
        y = op.forward(x)
        fr.prove(ctx)
        compare(ctx, "output", y, Y, part(k1, gp), part(k2, ga), gp, ga)
        ctx.canary()

    return proof


PROOFS += [(f"DistributedSpectralConvS2[{a}->{b}, bias={z}]", mk_spec(a, b, z, float32)) for a, b, z in (("equiangular", "equiangular", False), ("equiangular", "legendre-gauss", True), ("legendre-gauss", "equiangular", True), ("lobatto", "lobatto", True))]
PROOFS.append(("DistributedSpectralConvS2[double input]", mk_spec("equiangular", "equiangular", True, float64)))
