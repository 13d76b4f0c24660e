"""Callee contracts shared by the transform proofs (P06-P08, P21): quadrature rules, Legendre tables,
truncation and the longitudinal Fourier helpers, each replaced by its postcondition (proved in
P01, P03, P04, P05)."""
from .common import *

MS, MQ, ML, MT, MF = ("torch_harmonics." + k for k in ("sht", "quadrature", "legendre", "truncation", "fft"))
RX = z3.Function("ruleX", INT, INT, INT, REAL)  # (rule, n, i) node on [-1,1]
RW = z3.Function("ruleW", INT, INT, INT, REAL)  # weight
TBL = z3.Function("legP", INT, INT, INT, REAL, REAL)  # (options, m, l, theta)
DTBL = z3.Function("legD", INT, INT, INT, INT, REAL, REAL)  # (options, component, m, l, theta)
RULES = {"legendre_gauss_weights": 0, "lobatto_weights": 1, "clenshaw_curtiss_weights": 2, "trapezoidal_weights": 3}
GID = {"legendre-gauss": 0, "lobatto": 1, "equiangular": 2, "equiangular-trapezoidal": 3}
SHTGRIDS = ["legendre-gauss", "lobatto", "equiangular"]
NORMS = {"ortho": 0, "schmidt": 1}


def sym(n, i):
    return z3.If(2 * i <= n - 1, i, n - 1 - i)


def rw(r, n, i):
    return RW(r, Z(n), sym(Z(n), i))  # weights symmetric


def theta(r, n, k):
    """colatitude k, north first"""
    return rfun("acos", RX(r, Z(n), Z(n) - 1 - k))


def opt(norm, inverse, cs):
    return (NORMS.get(norm, 2) if isinstance(norm, str) else 2) * 4 + 2 * bool(inverse) + bool(cs)


def _one(v, w):
    e = z3.simplify(R(to_z3(v)) - w)
    return z3.is_rational_value(e) and e.as_fraction() == 0


def rules():
    def mk(rid):
        def f(n, a=-1.0, b=1.0, periodic=False, **k):
            if not (_one(a, -1) and _one(b, 1)) or periodic:
                raise Unsupported("rule on another interval")
            return SymTensor([n], lambda i: RX(rid, Z(n), i), float64), SymTensor([n], lambda i: rw(rid, n, i), float64)

        return f

    return {n: mk(r) for n, r in RULES.items()}


def lat_c(nlat, grid="equiangular"):
    r = GID[grid]
    return SymTensor([nlat], lambda i: theta(r, nlat, i), float64), SymTensor([nlat], lambda i: rw(r, nlat, i), float64)


def leg_c(mmax, lmax, t, norm="ortho", inverse=False, csphase=True):
    o = opt(norm, inverse, csphase)
    f = t._snapshot()
    return SymTensor([mmax, lmax, t.shape[0]], lambda m, l, i: z3.If(m <= l, TBL(o, m, l, R(f(i))), z3.RealVal(0)), float64)


def dleg_c(mmax, lmax, t, norm="ortho", inverse=False, csphase=True):
    o = opt(norm, inverse, csphase)
    f = t._snapshot()
    # degree 0 has no derivative (P04)
    return SymTensor([2, mmax, lmax, t.shape[0]], lambda c, m, l, i: z3.If(z3.And(m <= l, l >= 1), DTBL(o, c, m, l, R(f(i))), z3.RealVal(0)), float64)


def default_l(nlat, grid):
    n = Z(nlat)
    return n if grid == "legendre-gauss" else (n - 1 if grid == "lobatto" else (n + 1) / 2)


def cut(nlat, nlon, lmax, mmax, grid):
    a = Z(lmax) if lmax is not None else default_l(nlat, grid)
    b = Z(mmax) if mmax is not None else Z(nlon) / 2 + 1
    return Min(a, b)


def trunc_c(nlat, nlon, lmax=None, mmax=None, grid="equiangular"):
    c = wrap(z3.simplify(cut(nlat, nlon, lmax, mmax, grid)))
    return c, c


def rfft_c(x, nmodes=None, dim=-1, norm=None, **k):
    """P03 contract: true modes up to Nyquist, zeros above."""
    d = dim % x.ndim
    N = x.shape[d]
    half = fdivmod(Z(N), z3.IntVal(2))[0]
    K = nmodes if nmodes is not None else wrap(half + 1)
    sh = list(x.shape)
    sh[d] = K
    f = x._snapshot()
    sc = fft_scale(norm, N, True)

    def fn(*i):
        v = v_mul(DFT(lambda j: f(*(list(i[:d]) + [j] + list(i[d + 1 :]))), N, i[d], -1), sc)
        return v_ite(i[d] <= half, v, CVal(0, 0))

    return SymTensor(sh, fn, complex128 if x.dtype is float64 else complex64)


def synth(f, K, N, j):
    """P03 contract of irfft(norm='forward'): real series of the half spectrum f(m), m < K, at point j of N;
    imaginary parts of the constant and (N even) Nyquist mode ignored, modes above Nyquist dropped."""
    nz = Z(N)
    half, par = fdivmod(nz, z3.IntVal(2))

    def g(ks):
        m = ks[0]
        v = CVal.lift(f(m))
        c = opaque("cosph", INT, INT, REAL)(j * m, nz)
        s = opaque("sinph", INT, INT, REAL)(j * m, nz)
        sc = z3.Or(m == 0, z3.And(par == 0, m == half))
        return z3.If(m <= half, z3.If(sc, v.re * c, 2 * (v.re * c - v.im * s)), z3.RealVal(0))

    return nested_sum([K], g)


def irfft_c(x, n=None, dim=-1, norm=None, **k):
    d = dim % x.ndim
    if n is None:
        n = 2 * (x.shape[d] - 1)
    sh = list(x.shape)
    K = sh[d]
    sh[d] = n
    f = x._snapshot()
    sc = fft_scale(norm, n, False)
    return SymTensor(sh, lambda *i: v_mul(synth(lambda m: f(*(list(i[:d]) + [m] + list(i[d + 1 :]))), K, n, i[d]), sc), float64 if x.dtype is complex128 else float32)


def overrides(extra=None):
    o = {
        MQ: dict(rules(), precompute_latitudes=lat_c),
        ML: dict(_precompute_legpoly=leg_c, _precompute_dlegpoly=dleg_c),
        MT: dict(truncate_sht=trunc_c),
        MF: dict(rfft=rfft_c, irfft=irfft_c),
    }
    for k, v in (extra or {}).items():
        o.setdefault(k, {}).update(v)
    return o


CALLEES = "callee contracts: quadrature rules (P05), Legendre tables (P04), truncation (P01), longitudinal Fourier helpers (P03)"


def fourier(x, N, lead, k, m):
    """(2 pi / N) sum_j x[lead,k,j] exp(-2 pi i j m / N), zero above Nyquist"""
    half = fdivmod(Z(N), z3.IntVal(2))[0]
    v = v_mul(DFT(lambda j: x.at(*lead, k, j), N, m, -1), 1 / R(Z(N)))
    return v_mul(2 * PI, v_ite(m <= half, v, CVal(0, 0)))


def cuts(ctx, haveL, haveM):
    lmax = ctx.int("lmax", lo=1) if haveL else None
    mmax = ctx.int("mmax", lo=1) if haveM else None
    return lmax, mmax


def prove_rejects(ctx, name, fn, cond):
    """fn() raises exactly when cond (a z3 bool) holds on the current path"""
    try:
        fn()
    except (ValueError, RuntimeError, AssertionError):
        ctx.prove(name + ": refused only if wrongly sized", cond)
        return
    ctx.prove(name + ": accepted only if rightly sized", z3.Not(cond))
